// disksort of include/flat_file.hpp with arbitrary memory limits: sort <type> <mode> <mem> <path>
#include "drv.hpp"
#include "flat_file.hpp"
#include "hibp.hpp"

template <typename T>
std::string sort(const std::string& mode, std::size_t mem, const std::string& path, std::size_t buf) {
  flat_file::database<T> db(path, buf);
  if (mode == "hash") return "ok\t" + db.disksort({}, {}, mem);
  return "ok\t" + db.disksort(
                      [](auto& a, auto& b) {
                        if (a.count == b.count) return a < b;
                        return a.count > b.count;
                      },
                      {}, mem);
}
int main() {
  return drv::serve([](const std::vector<std::string>& c) -> std::string {
    std::size_t mem = std::stoul(c.at(2)), buf = std::stoul(c.at(4));
    if (c.at(0) == "sha1") return sort<hibp::pawned_pw_sha1>(c[1], mem, c.at(3), buf);
    if (c.at(0) == "ntlm") return sort<hibp::pawned_pw_ntlm>(c[1], mem, c.at(3), buf);
    return sort<hibp::pawned_pw_sha1t64>(c[1], mem, c.at(3), buf);
  });
}
