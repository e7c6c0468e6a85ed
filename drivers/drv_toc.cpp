// table of contents: <type> <db> <bits> <fresh> <hex,hex,...>: builds (fresh=1: after removing the
// stored one) or loads the toc, then answers each query with hash:count in hex or '-'
#include "drv.hpp"
#include "flat_file.hpp"
#include "hibp.hpp"
#include "toc.hpp"
#include <cstring>
#include <filesystem>

template <typename P>
std::string go(const std::vector<std::string>& c) {
  const std::string& path = c.at(1);
  unsigned           bits = std::stoul(c.at(2));
  std::string        tf   = path + "." + c.at(2) + ".toc";
  if (c.at(3) == "1") std::filesystem::remove(tf);
  try {
    hibp::toc_build<P>(path, bits);
  } catch (const std::exception& e) {
    return "nobuild";
  }
  flat_file::database<P> db(path, 4096 / sizeof(P));
  std::string            out = "ok\t";
  for (const auto& q: drv::split(c.at(4), ',')) {
    P           needle;
    std::string b = drv::unhex(q);
    std::memcpy(needle.hash.data(), b.data(), needle.hash.size());
    try {
      auto r = hibp::toc_search<P>(db, needle, bits);
      if (r)
        out += drv::hex(reinterpret_cast<const char*>(r->hash.data()), r->hash.size()) + ":" +
               std::to_string(r->count) + ",";
      else
        out += "-,";
    } catch (const std::exception& e) {
      out += "error,";
    }
  }
  return out;
}
int main() {
  std::ostringstream null;
  return drv::serve([&](const std::vector<std::string>& c) -> std::string {
    auto* old = std::cout.rdbuf(null.rdbuf());
    struct restore {
      std::streambuf* b;
      ~restore() { std::cout.rdbuf(b); }
    } rs{old};
    null.str("");
    if (c.at(0) == "sha1") return go<hibp::pawned_pw_sha1>(c);
    if (c.at(0) == "ntlm") return go<hibp::pawned_pw_ntlm>(c);
    return go<hibp::pawned_pw_sha1t64>(c);
  });
}
