// flat_file::database and its iterators: <type> <path> <buf> <iterators> <op,i,d,...;op,i,d;...>
// answers with one result per op, separated by ';'
#include "drv.hpp"
#include "flat_file.hpp"
#include "hibp.hpp"
#include <algorithm>
#include <cstring>
#include <filesystem>
#include <fstream>
#include <map>
#include <memory>
#include <fcntl.h>
#include <sys/stat.h>
#include <unistd.h>

template <typename P>
struct runner {
  using db_t = flat_file::database<P>;
  using it_t = typename db_t::const_iterator;
  std::vector<P>             truth;
  std::string                path, bytes;
  std::unique_ptr<db_t>      db;
  std::vector<it_t>          its;
  std::map<std::string, int> index;

  static std::string key(const P& p) {
    return std::string(reinterpret_cast<const char*>(p.hash.data()), p.hash.size()) + "/" +
           std::to_string(p.count);
  }
  std::string rec(const P& p) {
    auto f = index.find(key(p));
    return std::to_string(f == index.end() ? 0 : f->second);
  }
  void load(const std::string& pth) {
    path = pth;
    std::ifstream      f(pth, std::ios::binary);
    std::ostringstream ss;
    ss << f.rdbuf();
    bytes = ss.str();
    for (std::size_t i = 0; i + sizeof(P) <= bytes.size(); i += sizeof(P)) {
      P p;
      std::memcpy(static_cast<void*>(&p), bytes.data() + i, sizeof(P));
      truth.push_back(p);
      index[key(p)] = static_cast<int>(truth.size());
    }
  }
  std::string op(const std::vector<std::string>& o) {
    const std::string& k = o[0];
    long               a = std::stol(o.at(1)), b = std::stol(o.at(2)), v = std::stol(o.at(3));
    try {
      if (k == "deref") return rec(*its.at(a));
      if (k == "arrow") {
        const auto* p = its.at(a).operator->();
        return rec(*p);
      }
      if (k == "get") return rec(db->get_record(a));
      if (k == "back") return rec(db->back());
      if (k == "move") {
        auto& it  = its.at(a);
        auto  old = it.pos();
        if (b == 1 && v % 3 == 0) {
          auto r = it++;
          old    = r.pos();
        } else if (b == 1 && v % 3 == 1) {
          auto& r = ++it;
          if (&r != &it) return "bad";
        } else if (b == -1 && v % 3 == 0) {
          auto r = it--;
          old    = r.pos();
        } else if (b == -1 && v % 3 == 1) {
          --it;
        } else if (b >= 0) {
          auto n = static_cast<std::size_t>(b);
          if (v % 4 == 0) it += n;
          else if (v % 4 == 1) it = it + n;
          else if (v % 4 == 2) it = n + it;
          else it = std::next(it, b);
        } else {
          auto n = static_cast<std::size_t>(-b);
          if (v % 3 == 0) it -= n;
          else if (v % 3 == 1) it = it - n;
          else std::advance(it, b);
        }
        return std::to_string(it.pos()) + ":" + std::to_string(old);
      }
      if (k == "copy") {
        if (v % 2) its.at(a) = its.at(b);
        else {
          it_t tmp(its.at(b));
          its.at(a) = std::move(tmp);
        }
        return std::to_string(its.at(a).pos());
      }
      if (k == "cmp") {
        bool eq = its.at(a) == its.at(b);
        bool ne = its.at(a) != its.at(b);
        if (eq == ne) return "2:0";
        return std::to_string(eq) + ":" + std::to_string(its.at(a) - its.at(b));
      }
      if (k == "reset") {
        its.at(a) = b ? db->end() : db->begin();
        return std::to_string(its.at(a).pos());
      }
      if (k == "lower") {
        auto it = std::lower_bound(db->begin(), db->end(), truth.at(a));
        return std::to_string(it.pos());
      }
      if (k == "break") { // a: number of bytes left
        if (::truncate(path.c_str(), a) != 0) return "bad";
        return "0";
      }
      if (k == "repair") {
        int  fd = ::open(path.c_str(), O_WRONLY);
        auto n  = ::pwrite(fd, bytes.data(), bytes.size(), 0);
        ::close(fd);
        return n == static_cast<ssize_t>(bytes.size()) ? "0" : "bad";
      }
      if (k == "movedb") {
        auto n = std::make_unique<db_t>(std::move(*db));
        db     = std::move(n);
        for (auto& it: its) it = db->begin();
        return "0";
      }
      return "bad";
    } catch (const std::exception&) {
      return "-1";
    }
  }
};

template <typename P>
std::string go(const std::vector<std::string>& c) {
  runner<P> r;
  r.load(c.at(1));
  r.db = std::make_unique<typename runner<P>::db_t>(c.at(1), std::stoul(c.at(2)));
  for (int i = 0; i < std::stoi(c.at(3)); i++) r.its.push_back(r.db->begin());
  std::string out = "ok\t" + std::to_string(r.db->number_records()) + ";";
  for (const auto& o: drv::split(c.at(4), ';'))
    if (!o.empty()) out += r.op(drv::split(o, ',')) + ";";
  return out;
}
int main() {
  return drv::serve([](const std::vector<std::string>& c) -> std::string {
    if (c.at(0) == "sha1") return go<hibp::pawned_pw_sha1>(c);
    if (c.at(0) == "ntlm") return go<hibp::pawned_pw_ntlm>(c);
    return go<hibp::pawned_pw_sha1t64>(c);
  });
}
