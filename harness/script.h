// Running one of the repository's shell scripts. 'iconv' and 'xxd' aren't
// installed everywhere, so two stand-ins with the same result are put in PATH.
#pragma once

#include "pbt.h"

#include <cstdlib>
#include <filesystem>
#include <fstream>
#include <sstream>
#include <string>
#include <vector>

#include <fcntl.h>
#include <spawn.h>
#include <sys/stat.h>
#include <sys/wait.h>

namespace script {

namespace fs = std::filesystem;
using S = std::string;
using V = std::vector<S>;

inline void write(const fs::path& p, const S& s) {
  std::ofstream{p, std::ios::binary} << s;
}

inline S read(const fs::path& p) {
  std::ifstream f{p, std::ios::binary};
  std::ostringstream o;
  o << f.rdbuf();
  return o.str();
}

inline V lines(const S& s) {
  V r;
  for (size_t i{}; i < s.size();) {
    const auto e{std::min(s.find('\n', i), s.size())};
    r.push_back(s.substr(i, e - i));
    i = e + 1;
  }
  return r;
}

// directory for the files of a case (emptied by 'fresh')
inline const fs::path& dir() {
  static const fs::path d{fs::path{pbt::scratch()} / ("script" + std::to_string(getpid()))};
  return d;
}

inline void fresh() {
  std::error_code e;
  fs::remove_all(dir(), e);
  fs::create_directories(dir() / "bin");
  const auto tool{[](const char* name, const S& text) {
    const auto p{dir() / "bin" / name};
    write(p, text);
    ::chmod(p.c_str(), 0755);
  }};
  tool("iconv", "#!/usr/bin/perl\nlocal $/; binmode STDIN; binmode STDOUT; $_ = <STDIN>;\n"
                "utf8::decode($_) or exit 1;\nprint pack('N*', map { ord } split //);\n");
  tool("xxd", "#!/usr/bin/perl\nlocal $/; binmode STDIN; $_ = <STDIN>; print unpack('H*', $_), \"\\n\";\n");
}

struct Result {
  int code;
  S out, err;
};

// run 'name' (of the 'scripts' directory) in the case's directory
inline Result run(const S& name, const V& args) {
  const char* repo{std::getenv("PBT_REPO")};
  const S path{S{repo && *repo ? repo : "/repo"} + "/scripts/" + name}, out{(dir() / "out.txt").string()},
      err{(dir() / "err.txt").string()};
  V words{"timeout", "-k", "5", "240", "bash", path};
  words.insert(words.end(), args.begin(), args.end());
  std::vector<char*> argv, env;
  for (auto& i : words) argv.push_back(i.data());
  argv.push_back(nullptr);
  V vars{"PATH=" + (dir() / "bin").string() + ":/usr/local/bin:/usr/bin:/bin", "LANG=C.UTF-8", "HOME=" + dir().string()};
  for (auto& i : vars) env.push_back(i.data());
  env.push_back(nullptr);
  posix_spawn_file_actions_t a;
  posix_spawn_file_actions_init(&a);
  posix_spawn_file_actions_addopen(&a, 0, "/dev/null", O_RDONLY, 0);
  posix_spawn_file_actions_addopen(&a, 1, out.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
  posix_spawn_file_actions_addopen(&a, 2, err.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
  posix_spawn_file_actions_addchdir_np(&a, dir().c_str());
  pid_t pid{};
  const auto e{posix_spawnp(&pid, "timeout", &a, nullptr, argv.data(), env.data())};
  posix_spawn_file_actions_destroy(&a);
  PBT_CHECK(!e, "failed to start ", name, ": ", e);
  int status{};
  while (::waitpid(pid, &status, 0) < 0 && errno == EINTR)
    ;
  const auto code{WIFEXITED(status) ? WEXITSTATUS(status) : 1000 + WTERMSIG(status)};
  PBT_CHECK(code != 124 && code != 137, name, " didn't end");
  return {code, read(out), read(err)};
}

} // namespace script
