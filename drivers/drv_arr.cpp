// byte array comparison of include/arrcmp.hpp for every length: <n> <hexA> <hexB> <offset>
#include "arrcmp.hpp"
#include "drv.hpp"
#include <cstring>
#include <memory>
#include <utility>

constexpr std::size_t MAXN = 130;
using fn                   = std::string (*)(const std::string&, const std::string&, int);

template <std::size_t N>
std::string one(const std::string& ha, const std::string& hb, int /*off*/) {
  std::string a = drv::unhex(ha), b = drv::unhex(hb);
  // exact allocations
  auto pa = std::make_unique<std::array<std::byte, N>>();
  auto pb = std::make_unique<std::array<std::byte, N>>();
  if (N) std::memcpy(pa->data(), a.data(), N);
  if (N) std::memcpy(pb->data(), b.data(), N);
  auto o = arrcmp::array_compare(*pa, *pb, arrcmp::three_way{});
  int  i = arrcmp::array_compare(*pa, *pb, arrcmp::three_way_int{});
  bool e = arrcmp::array_compare(*pa, *pb, arrcmp::equal{});
  return "ok\t" + std::to_string(o < 0 ? -1 : o > 0 ? 1 : 0) + "\t" +
         std::to_string(i < 0 ? -1 : i > 0 ? 1 : 0) + "\t" + std::to_string(e);
}
template <std::size_t... I>
constexpr std::array<fn, sizeof...(I)> table(std::index_sequence<I...>) {
  return {&one<I>...};
}
int main() {
  static constexpr auto t = table(std::make_index_sequence<MAXN + 1>{});
  return drv::serve([](const std::vector<std::string>& c) -> std::string {
    return t.at(std::stoul(c.at(0)))(c.at(1), c.at(2), 0);
  });
}
