// md4.c: data in several pieces: <hex>,<hex>,...
#include "drv.hpp"
#include <cstddef>
#include <cstdint>
#include <memory>
#include <cstring>
#include "md4.h"
int main() {
  return drv::serve([](const std::vector<std::string>& c) -> std::string {
    MD4_CTX ctx;
    MD4_Init(&ctx);
    for (const auto& p: drv::split(c.at(0), ',')) {
      std::string b = drv::unhex(p);
      auto        m = std::make_unique<unsigned char[]>(b.size() + 1);
      std::memcpy(m.get(), b.data(), b.size());
      MD4_Update(&ctx, m.get(), b.size());
    }
    unsigned char out[16];
    MD4_Final(out, &ctx);
    return "ok\t" + drv::hex(reinterpret_cast<char*>(out), 16);
  });
}
