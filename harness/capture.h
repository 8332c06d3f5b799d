// Running a program's entry point in this process with its streams replaced.
#pragma once

#include <iostream>
#include <sstream>
#include <string>
#include <vector>

namespace run {

struct Result {
  int code;
  std::string out, err;
};

// call 'f' with std::cin reading 'in' and std::cout/std::cerr captured (file
// descriptor 0 must have been redirected by the check if the code reads it)
template <typename F> Result captured(const std::string& in, F f) {
  std::istringstream is{in};
  std::ostringstream os, es;
  std::cin.clear();
  std::cout.clear();
  std::cerr.clear();
  auto *a{std::cin.rdbuf(is.rdbuf())}, *b{std::cout.rdbuf(os.rdbuf())},
      *c{std::cerr.rdbuf(es.rdbuf())};
  const std::ios fmt{nullptr};
  std::cout.copyfmt(fmt);
  struct Restore {
    decltype(a) i, o, e;
    ~Restore() {
      std::cin.rdbuf(i);
      std::cout.rdbuf(o);
      std::cerr.rdbuf(e);
    }
  } r{a, b, c};
  const auto code{f()};
  return {code, os.str(), es.str()};
}

inline Result main(int (*app)(int, const char**),
    const std::vector<std::string>& args, const std::string& in = {}) {
  std::vector<const char*> argv{"program"};
  for (auto& i : args) argv.push_back(i.c_str());
  const int argc{static_cast<int>(argv.size())};
  argv.push_back(nullptr);
  return captured(in, [&] { return app(argc, argv.data()); });
}

} // namespace run
