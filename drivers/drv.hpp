#pragma once
// common parts of the drivers: one command per line on stdin, one answer per line on stdout
#include <functional>
#include <iostream>
#include <sstream>
#include <string>
#include <vector>
#include <exception>

namespace drv {
inline std::vector<std::string> split(const std::string& s, char sep = '\t') {
  std::vector<std::string> r;
  std::string              cur;
  for (char c: s) {
    if (c == sep) {
      r.push_back(cur);
      cur.clear();
    } else {
      cur += c;
    }
  }
  r.push_back(cur);
  return r;
}
inline std::string oneline(std::string s) {
  for (auto& c: s)
    if (c == '\n' || c == '\t' || c == '\r') c = ' ';
  return s;
}
inline std::string unhex(const std::string& s) {
  std::string r;
  for (std::size_t i = 0; i + 1 < s.size(); i += 2)
    r.push_back(static_cast<char>(std::stoi(s.substr(i, 2), nullptr, 16)));
  return r;
}
inline std::string hex(const char* p, std::size_t n) {
  static const char* d = "0123456789abcdef";
  std::string        r;
  for (std::size_t i = 0; i < n; i++) {
    r += d[(static_cast<unsigned char>(p[i]) >> 4) & 15];
    r += d[static_cast<unsigned char>(p[i]) & 15];
  }
  return r;
}
inline int serve(const std::function<std::string(const std::vector<std::string>&)>& f) {
  std::ostream answers(std::cout.rdbuf()); // std::cout's own buffer may be redirected by a command
  for (std::string line; std::getline(std::cin, line);) {
    std::string a;
    try {
      a = f(split(line));
    } catch (const std::exception& e) {
      a = std::string("ex\t") + oneline(e.what());
    } catch (...) {
      a = "ex\tunknown exception";
    }
    answers << a << std::endl;
  }
  return 0;
}
} // namespace drv
