// libs: quiz stats kanji
#include "quiz.h"

#include <kt_quiz/QuizLauncher.h>
#include <kt_stats/Stats.h>

#include <filesystem>
#include <fstream>

using namespace kanji_tools;
using dict::S, dict::V;
namespace fs = std::filesystem;

const pbt::Info pbt::info{"P30",
    "generated argument lists and generated directory trees (data directories "
    "with the right and wrong number of '.txt' files at several levels above "
    "the current directory and the program, files and links in place of "
    "directories) compared with a separate search over the same tree; whole "
    "runs with the shared options put anywhere compared with runs without "
    "them; non-trivial = at least one shared option and one other argument, or "
    "a tree with at least two candidates, distinct by arguments and tree"};

namespace {

struct Probe : KanjiData { // (functions are only for derived classes)
  using KanjiData::getDataDir, KanjiData::getDebugMode, KanjiData::DebugMode;
};

struct Arguments {
  V text;
  std::vector<const char*> p;
  explicit Arguments(const V& v) : text{v} {
    for (auto& i : text) p.push_back(i.c_str());
    p.push_back(nullptr);
  }
  [[nodiscard]] Args args() const { return Args{static_cast<Args::Size>(p.size() - 1), text.empty() ? nullptr : p.data()}; }
};

S show(const V& v) {
  S r;
  for (auto& i : v) r += pbt::show(i) + ' ';
  return r;
}

std::unique_ptr<quiz::World> shipped;
const pbt::InitHook hook{[] {
  shipped = quiz::shippedWorld("/repo/data");
  shipped->load();
}};

// result of 'f' or the message it failed with
template <typename F> std::pair<S, S> attempt(F f) {
  try {
    return {f(), S{}};
  } catch (const DomainError& e) {
    return {S{}, e.what()};
  } catch (const std::exception& e) {
    pbt::fail(pbt::cat("unexpected exception ", typeid(e).name(), ' ', e.what()));
  }
}

const S Modes{"can only specify one '-debug' or '-info' option"};

} // namespace

// which arguments are left for the program
PBT_SUB(arguments, 60000, 1000000) {
  auto& g{c.g};
  V v;
  if (!g.chance(1, 40)) v.push_back(g.pick<S>({"prog", "", "-data", "-info", "-debug", "./a/b"}));
  V rest; // expected
  std::vector<size_t> at;
  S error;
  Probe::DebugMode mode{Probe::DebugMode::None};
  size_t shared{};
  if (!v.empty())
    for (auto n{g.longSize(12)}; n; --n) switch (g.weighted({5, 2, 2, 4})) {
      case 1:
        v.push_back("-data");
        ++shared;
        if (n > 1 || g.boolean()) v.push_back(g.pick<S>({"dir", "", "/", "-", "--", "-data", "-h", "-data=x", "data"}));
        break;
      case 2: {
        const auto full{g.boolean()};
        ++shared;
        v.push_back(full ? "-debug" : "-info");
        if (mode != Probe::DebugMode::None) error = Modes;
        mode = full ? Probe::DebugMode::Full : Probe::DebugMode::Info;
        break;
      }
      default:
        at.push_back(v.size());
        v.push_back(g.chance(1, 3) ? g.pick<S>({"-Data", "-datax", "-dat", "data", "--data", "-data ", " -data", "-inf", "-infos", "-INFO", "info", "--debug", "-debu", "-debug=1", "debug", "-d", "-i", "-data=dir", "-"}) : g.pick<S>({"", "-h", "-b", "--", "一", "x", "-r1", "file.txt"}));
        if (v.back() == "-info" || v.back() == "-debug" || v.back() == "-data") throw pbt::Discard{};
        rest.push_back(v.back());
      }
  c.describe(show(v));
  const Arguments a{v};
  const auto args{a.args()};
  V seen;
  std::vector<size_t> seenAt;
  for (auto i{KanjiData::nextArg(args)}; i < args.size(); i = KanjiData::nextArg(args, i)) {
    seen.push_back(args[i]);
    seenAt.push_back(i);
    PBT_CHECK(seen.size() <= v.size(), "endless");
  }
  PBT_EQ(seen, rest, show(v));
  PBT_EQ(seenAt, at, show(v));
  // from every position
  for (size_t i{}; i <= v.size() + 2; ++i) {
    const auto cur{static_cast<Args::Size>(i)};
    if (i > v.size()) {
      PBT_EQ(attempt([&] { return std::to_string(KanjiData::nextArg(args, cur)); }).second,
          pbt::cat("current arg '", i, "' is greater than args size '", v.size(), "'"), show(v));
      continue;
    }
    const auto next{KanjiData::nextArg(args, cur)};
    if (v.empty())
      PBT_EQ(next, 0, "no arguments");
    else
      PBT_CHECK(next > i, "position ", i, " in ", show(v));
  }
  const auto got{attempt([&] {
    const auto m{Probe::getDebugMode(args)};
    return S{m == Probe::DebugMode::None ? "none" : m == Probe::DebugMode::Full ? "full" : "info"};
  })};
  PBT_EQ(got.second, error, show(v));
  if (error.empty()) PBT_EQ(got.first, S{mode == Probe::DebugMode::None ? "none" : mode == Probe::DebugMode::Full ? "full" : "info"}, show(v));
  if (shared && !rest.empty()) c.nontrivial(show(v));
}

namespace {

// Tree of directories that hold a 'data' of some kind.
struct Tree {
  pbt::Gen& g;
  fs::path root;
  S desc;
  std::vector<fs::path> dirs{}, data{};
  size_t good{}, bad{};

  static void put(const fs::path& p) { std::ofstream{p} << "x\n"; }

  // a directory with some number of '.txt' files
  void fill(const fs::path& p) {
    fs::create_directories(p);
    data.push_back(p);
    const auto n{static_cast<unsigned>(g.weighted({6, 2, 2, 1, 1, 1}))};
    const unsigned count[]{10, 9, 11, 0, 1, 20};
    desc += pbt::cat(p.lexically_relative(root).string(), '=', count[n]);
    for (unsigned i{}; i < count[n]; ++i) put(p / (g.chance(1, 8) ? pbt::cat(i, ".a.txt") : pbt::cat("f", i, ".txt")));
    ++(count[n] == 10 ? good : bad);
    for (auto k{g.size(4)}; k; --k) { // don't count
      const auto name{g.pick<S>({"a.TXT", "b.txt~", ".txt", "c.text", "txt", "d.tx", "e.txt.bak", "README.md", "f.txt2", "sub"})};
      desc += '+' + name;
      if (name == "sub") {
        fs::create_directories(p / name);
        put(p / name / "in-sub.txt");
      } else
        put(p / name);
    }
    desc += ' ';
  }

  void make(const fs::path& at, unsigned depth) {
    fs::create_directories(at);
    dirs.push_back(at);
    switch (g.weighted({6, 5, 1, 1, 1})) {
    case 1: fill(at / "data"); break;
    case 2:
      put(at / "data");
      desc += at.lexically_relative(root).string() + "/data=file ";
      break;
    case 3:
      if (data.empty()) break;
      fs::create_directory_symlink(data.back(), at / "data");
      desc += at.lexically_relative(root).string() + "/data->" + data.back().lexically_relative(root).string() + ' ';
      break;
    case 4: fill(at / g.pick<S>({"Data", "data2", "dat", "datas"})); break;
    default: break;
    }
    if (depth)
      for (auto n{1 + g.below(2)}; n; --n) {
        const auto sub{at / g.pick<S>({"a", "b", "x y", "bin", "日本", "data.d", "..d"})};
        if (!fs::exists(sub)) make(sub, depth - 1);
      }
  }

  [[nodiscard]] static bool valid(const fs::path& p) {
    std::error_code e;
    if (!fs::is_directory(p, e)) return false;
    unsigned n{};
    for (auto& i : fs::directory_iterator{p, e}) {
      const auto s{i.path().filename().string()};
      n += s.size() > 4 && s.ends_with(".txt");
    }
    return n == 10;
  }

  [[nodiscard]] static std::optional<S> up(S s) { // from an absolute path
    for (;;) {
      const auto p{s == "/" ? s + "data" : s + "/data"};
      if (valid(p)) return p;
      if (s == "/") return {};
      s = s.substr(0, s.rfind('/'));
      if (s.empty()) s = "/";
    }
  }
};

struct Cd { // change the current directory for a while
  fs::path old{fs::current_path()};
  explicit Cd(const fs::path& p) { fs::current_path(p); }
  ~Cd() { fs::current_path(old); }
};

} // namespace

// where the data is taken from
PBT_SUB(directory, 4000, 100000) {
  auto& g{c.g};
  const auto root{fs::canonical(pbt::scratch()) / "tree"};
  fs::remove_all(root);
  Tree t{g, root, {}};
  auto cwd{root}, bin{root};
  if (g.chance(1, 3)) { // nothing above the current directory
    fs::create_directories(root / "cur" / "rent");
    t.make(root / "opt", g.below(4));
    cwd /= g.boolean() ? "cur" : "cur/rent";
    // at, above or below one of the candidates
    bin = t.data.empty() ? g.pick(t.dirs) : g.pick(t.data).parent_path() / g.pick({"bin", "a/b", "a/data", ".", "a"});
    std::error_code e;
    fs::create_directories(bin, e);
    if (e) throw pbt::Discard{};
    bin = bin.lexically_normal();
    if (!bin.has_filename()) bin = bin.parent_path();
  } else {
    t.make(root, g.below(5));
    cwd = g.pick(t.dirs);
    bin = g.pick(t.dirs);
  }
  V v;
  S first; // directory of the program
  switch (g.weighted({6, 2, 2, 1, 1})) {
  case 0: v.push_back((bin / "prog").string()); break;
  case 1: v.push_back("prog"); break;
  case 2: // relative (anything above it is also above the current directory)
    v.push_back("./prog");
    break;
  case 3: v.push_back((bin / "nothing" / "prog").string()); break;
  default: break; // no arguments at all
  }
  if (!v.empty() && v[0].starts_with('/') && fs::is_directory(fs::path{v[0]}.parent_path())) first = fs::path{v[0]}.parent_path().string();
  std::optional<S> given;
  bool last{};
  if (!v.empty()) {
    const auto other{[&] {
      for (auto n{g.size(3)}; n; --n) v.push_back(g.pick<S>({"-h", "x", "-info", "data", "-dat", ""}));
    }};
    other();
    if (g.chance(1, 3)) {
      v.push_back("-data");
      last = g.chance(1, 10);
      if (!last) {
        switch (g.weighted({8, 2, 2, 1})) {
        case 0:
          if (!t.data.empty()) {
            given = g.pick(t.data).string();
            break;
          }
          [[fallthrough]];
        case 1: given = g.pick(t.dirs).string(); break;
        case 2: given = g.pick<S>({"", "data", "./data", "../data", "nothing", ".", "..", "data/", "-h"}); break;
        default: given = (g.pick(t.dirs) / "data").string();
        }
        if (!t.data.empty() && !given->empty() && given->front() == '/' && g.chance(1, 4)) // the same from here
          given = fs::path{*given}.lexically_relative(cwd).string();
        if (g.chance(1, 8) && given->size()) *given += '/';
        v.push_back(*given);
        other();
        if (g.chance(1, 6)) { // only the first one counts
          v.push_back("-data");
          v.push_back(t.data.empty() ? "x" : g.pick(t.data).string());
        }
      }
    }
  }
  t.desc += "cwd: " + cwd.lexically_relative(root).string() + " args: " + show(v);
  c.describe(t.desc);
  const Cd cd{cwd};
  const Arguments a{v};
  const auto got{attempt([&] { return Probe::getDataDir(a.args()).string(); })};
  const S expected10{"10 expected '.txt' files"};
  S dir, error;
  if (last)
    error = "'-data' must be followed by a directory name";
  else if (given) {
    std::error_code e;
    if (!fs::is_directory(*given, e))
      error = "'" + *given + "' is not a valid directory";
    else if (!Tree::valid(*given))
      error = "'" + *given + "' does not contain " + expected10;
    else
      dir = *given;
  } else if (const auto i{Tree::up(cwd.string())}; i)
    dir = *i;
  else {
    error = "couldn't find 'data' directory with " + expected10 + ":\n- searched up from current: " + cwd.string();
    if (!first.empty()) {
      if (const auto j{Tree::up(fs::path{first}.parent_path().string())}; j)
        dir = *j, error.clear();
      else
        error += "\n- searched up from arg0: " + v[0];
    } else if (!v.empty() && v[0] == "./prog")
      error += "\n- searched up from arg0: " + v[0];
    if (!error.empty()) error += "\nrun in a directory where 'data' can be found or use '-data <dir>'";
  }
  PBT_EQ(got.second, error, t.desc);
  PBT_EQ(got.first, dir, t.desc);
  if (t.data.size() > 1) c.nontrivial(t.desc);
  c.label(given ? "given" : !error.empty() ? "not found" : dir.starts_with(cwd.string() + "/data") ? "here" : "above");
  fs::remove_all(root);
}

namespace {

// run 'f' on arguments with and without the shared options
template <typename F> void same(pbt::Ctx& c, const V& plain, F f) {
  auto& g{c.g};
  V v;
  bool any{}, mode{};
  for (size_t i{}; i <= plain.size(); ++i) {
    // (the name of the program has to stay first)
    if (i)
      while (g.chance(1, 3)) {
        any = true;
        switch (g.below(2)) {
        case 0:
          if (!mode) {
            v.push_back(g.pick<S>({"-info", "-debug"}));
            mode = true;
            break;
          }
          [[fallthrough]];
        default:
          v.push_back("-data");
          v.push_back(g.pick<S>({"dir", "-h", "一", "", "-data", "-b", "--"}));
        }
      }
    if (i < plain.size()) v.push_back(plain[i]);
  }
  c.describe(show(plain) + " and " + show(v));
  const auto run{[&](const V& x) {
    const Arguments a{x};
    shipped->l->out.str({});
    shipped->l->err.str({});
    const auto r{attempt([&] {
      f(a.args());
      return S{};
    })};
    return shipped->l->out.str() + "|" + shipped->l->err.str() + "|" + r.second;
  }};
  const auto expected{run(plain)}, actual{run(v)};
  PBT_EQ(actual, expected, show(plain), " and ", show(v));
  if (any && plain.size() > 1) c.nontrivial(show(v));
}

} // namespace

// the shared options don't change what the programs do with the others
PBT_SUB(stats_options, 1500, 30000) {
  auto& g{c.g};
  const auto file{pbt::scratch() + "/in.txt"};
  std::ofstream{file} << "日本語（にほんご）のテキスト、一二三\n";
  V v{"prog"};
  for (auto n{g.size(5)}; n; --n) v.push_back(g.pick<S>({file, file, "-b", "-v", "-h", "--", "-x", "nothing", "-", "", "-infox", "-dat"}));
  same(c, v, [](const Args& a) { const Stats s{a, shipped->l->data}; });
}

PBT_SUB(quiz_options, 4000, 100000) {
  auto& g{c.g};
  V v{"prog"};
  // (a random order would differ from run to run, so only reviews are started)
  const auto start{g.boolean()};
  for (auto n{g.size(4)}; n; --n)
    v.push_back(g.pick<S>({"-s", "-h", "--", "-x", "奉", "1624", "m5894", "n212", "u5949", "nothing", "-", "", "-infox", "-dat", start ? "-r7" : "-t5", start ? "-s" : "-r", start ? "-s" : "-t"}));
  if (start) {
    const auto put{[&](const S& s) { v.insert(v.begin() + 1 + g.below(static_cast<uint32_t>(v.size())), s); }};
    put(g.pick<S>({"-r1", "-r-3", "-r+20", "-r9999"}));
    put(g.pick<S>({"-f1", "-f", "-g2", "-k3", "-l4", "-m1", "-p2", "-gs"}));
  }
  const auto in{g.pick<S>({"", "/\n", ".\n.\n/\n", "x\ny\n/\n", "1\n.\n-\n/\n"})};
  same(c, v, [&in](const Args& a) {
    std::istringstream is{in};
    const QuizLauncher q{a, shipped->l->data, shipped->groups, shipped->jukugo, &is};
  });
}
