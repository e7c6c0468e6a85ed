// run_diff of src/diffutils.cpp: diff <type> <old> <new>; answers with the diff, lines joined by '|'
#include "drv.hpp"
#include "diffutils.hpp"
#include "hibp.hpp"

int main() {
  return drv::serve([](const std::vector<std::string>& c) -> std::string {
    std::stringstream ss;
    std::string       status = "ok";
    try {
      if (c.at(0) == "sha1")
        hibp::diffutils::run_diff<hibp::pawned_pw_sha1>(c.at(1), c.at(2), ss);
      else
        hibp::diffutils::run_diff<hibp::pawned_pw_ntlm>(c.at(1), c.at(2), ss);
    } catch (const std::exception& e) {
      status = "ex";
    }
    std::string s = ss.str();
    for (auto& ch: s)
      if (ch == '\n') ch = '|';
    return status + "\t" + s;
  });
}
