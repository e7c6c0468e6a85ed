// comparisons, parsing and printing of records: cmp <type> <hexA> <countA> <hexB> <countB>
//                                                 text <type> <hex of the text line>
#include "drv.hpp"
#include "hibp.hpp"
#include <cstring>

template <typename P>
P make(const std::string& hx, const std::string& count) {
  P           p;
  std::string b = drv::unhex(hx);
  std::memcpy(p.hash.data(), b.data(), p.hash.size());
  p.count = static_cast<std::int32_t>(std::stol(count));
  return p;
}
template <typename P>
std::string go(const std::vector<std::string>& c) {
  if (c[0] == "text") {
    P p{drv::unhex(c.at(2))};
    return "ok\t" + drv::hex(reinterpret_cast<const char*>(p.hash.data()), p.hash.size()) + "\t" +
           std::to_string(p.count) + "\t" + p.to_string();
  }
  P    a = make<P>(c.at(2), c.at(3)), b = make<P>(c.at(4), c.at(5));
  auto o = a <=> b;
  int  w = o < 0 ? -1 : o > 0 ? 1 : 0;
  std::ostringstream os;
  os << "ok\t" << w << "\t" << (a < b) << (a > b) << (a <= b) << (a >= b) << (a == b) << (a != b) << "\t"
     << a << "\t" << b;
  return os.str();
}
int main() {
  return drv::serve([](const std::vector<std::string>& c) -> std::string {
    if (c.at(1) == "sha1") return go<hibp::pawned_pw_sha1>(c);
    if (c.at(1) == "ntlm") return go<hibp::pawned_pw_ntlm>(c);
    return go<hibp::pawned_pw_sha1t64>(c);
  });
}
