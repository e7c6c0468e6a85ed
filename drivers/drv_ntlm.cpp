// hibp::ntlm: <hex of the password>
#include "drv.hpp"
#include "ntlm.hpp"
#include <array>
#include <cstddef>
int main() {
  return drv::serve([](const std::vector<std::string>& c) -> std::string {
    auto h = hibp::ntlm(drv::unhex(c.at(0)));
    return "ok\t" + drv::hex(reinterpret_cast<const char*>(h.data()), h.size());
  });
}
