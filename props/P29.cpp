// libs: quiz stats kanji
// apps: convertMain formatMain quizMain statsMain
#include "capture.h"
#include "fixed_random.h"
#include "quiz.h"

#include <kt_kanji/ListFile.h>

#include <fcntl.h>
#include <filesystem>
#include <fstream>
#include <termios.h>
#include <unistd.h>

int app_main_convertMain(int, const char**);
int app_main_formatMain(int, const char**);
int app_main_quizMain(int, const char**);
int app_main_statsMain(int, const char**);

using namespace kanji_tools;
using dict::S, dict::V, quiz::World;
namespace fs = std::filesystem;

const pbt::Info pbt::info{"P29",
    "whole runs of the four programs on generated arguments, generated and "
    "damaged data directories, any bytes as input and interactive sessions cut "
    "off anywhere; every run must end with status 0 or with status 1 and a "
    "message, leave the terminal as it was and (review sessions) print the same "
    "as the library; non-trivial = a run that got past its arguments and "
    "printed something, distinct by arguments and input"};

// stand-in for the terminal, to check that its mode is restored
namespace {
struct Terminal {
  termios mode{};
  bool present{true}, wait{true};
  Terminal() { mode.c_lflag = ICANON | ECHO | ISIG; }
} terminal;
} // namespace

extern "C" int tcgetattr(int, termios* t) noexcept {
  if (!terminal.present) return errno = ENOTTY, -1;
  *t = terminal.mode;
  return 0;
}
extern "C" int tcsetattr(int, int, const termios* t) noexcept {
  if (!terminal.present) return errno = ENOTTY, -1;
  // one key at a time
  if (!(t->c_lflag & ICANON)) terminal.wait &= t->c_cc[VMIN] == 1 && t->c_cc[VTIME] == 0;
  terminal.mode = *t;
  return 0;
}

namespace {

void setInput(const S& s) {
  const auto file{pbt::scratch() + "/stdin"};
  std::ofstream{file, std::ios::binary} << s;
  const auto fd{open(file.c_str(), O_RDONLY)};
  dup2(fd, 0);
  close(fd);
}

using App = int (*)(int, const char**);

run::Result start(App app, const V& args, const S& in = {}) {
  setInput(in);
  ListFile::clearUniqueCheckData(); // (kept when loading failed)
  terminal = Terminal{};
  const auto r{run::main(app, args, in)};
  PBT_EQ(terminal.mode.c_lflag, tcflag_t(ICANON | ECHO | ISIG), "terminal mode");
  PBT_CHECK(terminal.wait, "terminal doesn't wait for exactly one key");
  PBT_CHECK(r.code == 0 || r.code == 1, "exit status ", r.code);
  if (r.code) {
    PBT_CHECK(r.err.size() > 1 && r.err.ends_with('\n'), "status 1, but the message is ", pbt::show(r.err));
  } else
    for (auto& i : dict::split(r.err, '\n')) PBT_CHECK(i.empty() || i.starts_with("ERROR["), "status 0, but printed ", pbt::show(r.err));
  return r;
}

S noNul(S s) { return s.substr(0, s.find('\0')); }

void mutate(pbt::Gen& g, dict::Files& f) {
  auto& x{const_cast<S&>(g.pick(f).second)};
  const auto lineAt{[&](size_t at) {
    const auto b{x.rfind('\n', at)};
    return b == S::npos ? 0 : b + 1;
  }};
  const auto at{x.empty() ? 0 : g.below(static_cast<uint32_t>(x.size()))};
  switch (g.below(12)) {
  case 0: x.clear(); break;
  case 1: x.resize(at); break;
  case 2: { // a line twice
    const auto b{lineAt(at)};
    const auto e{std::min(x.find('\n', at), x.size())};
    x.insert(b, x.substr(b, e - b) + '\n');
    break;
  }
  case 3: { // without a line
    const auto b{lineAt(at)};
    x.erase(b, std::min(x.find('\n', at), x.size()) - b + 1);
    break;
  }
  case 4:
    if (!x.empty()) x[at] = static_cast<char>(g.below(256));
    break;
  case 5: x.insert(at, g.dictString()); break;
  case 6: x.insert(at, gen::anyBytes(g, 3)); break;
  case 7: x.insert(at, g.pick({"\t", "\n", "\n\n", "、", "一", "99999999999", "-1", "0", "U+", ":", ","})); break;
  case 8: x = g.pick(f).second; break;
  case 9: { // cut out
    const auto n{1 + g.below(8)};
    x.erase(at, n);
    break;
  }
  case 10: f.erase(std::next(f.begin(), g.below(static_cast<uint32_t>(f.size())))); break;
  default: { // swap fields of two tables' lines
    const auto a{x.find('\t', at)};
    if (a != S::npos) x[a] = g.pick({' ', '\n', 'x', '\t'});
  }
  }
}

// writes a data directory and returns its options
V dataArgs(pbt::Gen& g, S& desc, bool good = {}) {
  const auto w{quiz::make(g, good ? dict::Options{40, 25, 10, 30} : g.boolean() ? dict::Options{6, 3, 3, 6} : dict::Options{20, 10, 8, 15}, 4, 6)};
  auto f{w->f};
  if (good) {
    dict::write(f, dict::dataDir());
    return {"-data", dict::dataDir()};
  }
  if (g.boolean()) {
    for (auto n{1 + g.below(3)}; n; --n) mutate(g, f);
    desc += "(damaged) ";
  }
  dict::write(f, dict::dataDir());
  switch (g.weighted({30, 1, 1, 1})) {
  case 1: return {"-data"};
  case 2: return {"-data", g.pick<S>({"", "nothing", S(300, 'x'), S(5000, 'x'), ".", "/dev/null", pbt::scratch(), dict::dataDir() + "/jlpt", dict::dataDir() + "/ucd.txt"})};
  case 3: return {"-data", dict::dataDir() + "/", "-data", "x"};
  default: return {"-data", dict::dataDir()};
  }
}

S keys(pbt::Gen& g, uint32_t max) {
  S s;
  for (auto n{g.longSize(max)}; n; --n) s += g.chance(1, 12) ? static_cast<char>(g.below(256)) : g.pick(S{"rtbefgklmps0123456789.,-/*'\n\n.1.1.2"});
  return s;
}

S quizOption(pbt::Gen& g) {
  switch (g.weighted({4, 6, 1, 1, 1, 2, 3, 1})) {
  case 0: return S{g.pick({"-r", "-t"})} + g.pick({"", "", "0", "1", "+1", "-1", "5", "-3", "00", "65535", "65536", "x", "99999999999999999999", "-"});
  case 1: {
    S s{"-"};
    s += g.pick({'f', 'g', 'k', 'l', 'm', 'p'});
    if (g.chance(2, 3)) s += g.pick({'1', '2', '3', '4', '5', '0', '6', '9', 's', 'a', 'b', 'c', '~'});
    return s;
  }
  case 2: return "-s";
  case 3: return g.pick({"--", "-h", "-", ""});
  case 4: return g.pick({"-debug", "-info"});
  case 5: return noNul(g.dictString());
  case 6: {
    S s{g.pick({"m", "n", "u", "", "", "mH"})};
    switch (g.below(5)) {
    case 0: return s + std::to_string(g.number(70000));
    case 1: return s + g.pick({"4e00", "20000", "P", "PP", "1P", "ffff", "12345"});
    case 2: return s + noNul(gen::anyBytes(g, 3));
    default: return ref::enc(0x4e00 + g.below(0x5200)) + g.pick({"", "", "︀", "一"});
    }
  }
  default: return noNul(gen::anyBytes(g, 4));
  }
}

S shown(const V& v) {
  V r;
  for (auto& i : v) r.push_back(pbt::show(i));
  return dict::join(r, " ");
}

S tree(pbt::Gen& g, V& args) { // files to count, and arguments for them
  const fs::path top{pbt::scratch() + "/tree"};
  fs::remove_all(top);
  fs::create_directories(top / "a" / "b");
  S desc;
  for (auto n{g.below(5)}; n; --n) {
    static const V names{"x.txt", "a/y.txt", "a/b/z.txt", "一.txt", "a/あ", "a/-b", "q", "a/b/\xff"};
    const auto name{g.pick(names)};
    const auto text{g.boolean() ? gen::anyBytes(g, 12) : gen::validText(g, 20)};
    std::ofstream{top / name, std::ios::binary} << text;
    desc += name + '=' + pbt::show(text) + ' ';
    if (g.boolean()) args.push_back((top / name).string());
  }
  if (g.boolean()) args.push_back(g.pick<S>({top.string(), top.string() + "/", (top / "a").string(), (top / "a/b").string(), (top / "none").string(), (top / S(300, 'x')).string(), S(5000, 'y')}));
  if (g.chance(1, 6)) args.push_back(g.pick<S>({"-b", "-v", "-h", "--", "", "-", "-x", "/dev/null", "-debug", "-info", "-bv"}));
  if (g.boolean()) args.push_back("-b");
  if (g.boolean()) args.push_back("-v");
  g.shuffle(args);
  return desc;
}

} // namespace

// review sessions: program and library print the same, wherever the input ends
PBT_SUB(reviewSession, 1500, 30000) {
  auto& g{c.g};
  const auto w{quiz::make(g, dict::Options{15, 8, 6, 10}, 6, 6)};
  w->load();
  V args;
  QuizLauncher::Question number{};
  if (g.chance(3, 4)) {
    number = static_cast<QuizLauncher::Question>(1 + g.below(2));
    args.push_back(S{"-r"} + g.pick({"", "-", "+", "+0"}) + std::to_string(number));
  }
  const bool mode{args.empty()};
  const bool type{g.chance(3, 4)};
  if (type) args.push_back(S{"-"} + g.pick({"f", "g", "g1", "g6", "gs", "k", "k2", "ka", "l", "l5", "m", "m4", "p", "p4", "f0"}));
  if (g.chance(1, 4)) args.push_back("-s");
  if (args.empty()) args.push_back("--");
  const auto in{(mode ? S{"r"} + g.pick({"b", "e"}) : S{}) + keys(g, 60)};
  c.describe(shown(args) + " input " + pbt::show(in));
  // library
  S expected;
  size_t at{};
  std::optional<S> error;
  bool ended{};
  {
    quiz::Player player{w->l->out, [&](const S& s) -> std::optional<S> {
                          if (!ended) expected += s;
                          if (at == in.size()) {
                            ended = true;
                            return {};
                          }
                          expected += '\n';
                          const auto k{in[at++]};
                          return k == '\n' ? S{} : S(1, k);
                        }};
    std::vector<const char*> argv{"program"};
    for (auto& i : args) argv.push_back(i.c_str());
    error = player.play([&] {
      QuizLauncher l{Args{static_cast<Args::Size>(argv.size()), argv.data()}, w->l->data, w->groups, w->jukugo, &player.stream};
      // (the library doesn't start without a type, but the program asks for it)
      if (!type) l.start({}, {}, number, args.back() == "-s");
    });
    if (!ended) expected += player.tail();
  }
  auto all{args};
  all.insert(all.end(), {"-data", dict::dataDir()});
  const auto r{start(app_main_quizMain, all, in)};
  PBT_EQ(r.out, expected, "printed by the program");
  PBT_EQ(r.code, ended || error ? 1 : 0, "exit status, message ", r.err);
  PBT_EQ(r.err, ended ? "no more input to get a choice from\n" : error ? *error + '\n' : S{}, "message");
  c.label(ended ? "cut off" : error ? "error" : "finished");
  if (r.out.find("1/") != S::npos) c.nontrivial(shown(args) + in);
}

PBT_SUB(quiz, 6000, 100000) {
  auto& g{c.g};
  S desc;
  const bool good{g.boolean()};
  auto args{dataArgs(g, desc, good)};
  if (good) {
    if (g.chance(3, 4)) args.push_back(S{g.pick({"-r", "-t"})} + g.pick({"", "", "0", "1", "-1", "+2"}));
    args.push_back(S{"-"} + g.pick({"g1", "g2", "g3", "g4", "g5", "g6", "gs", "g", "m", "m1", "m2", "m3", "m4", "p", "p1", "p3", "p4"}));
    if (g.chance(1, 4)) args.push_back("-s");
  } else for (auto n{g.below(4)}; n; --n) {
    const auto o{quizOption(g)};
    // (not between '-data' and its directory)
    args.insert(g.boolean() ? args.begin() : args.end(), o);
  }
  const auto in{(good ? S{g.pick({"\n\n\n\n", "\n\n\n", "b1\n", "r\n\n"})} : S{}) + keys(g, 120)};
  desc += shown(args) + " input " + pbt::show(in);
  c.describe(desc);
  terminal.present = true;
  const auto r{start(app_main_quizMain, args, in)};
  c.label(r.code ? "status 1" : "status 0");
  if (r.out.find("Question") != S::npos || r.out.find("1/") != S::npos) c.label("session");
  if (r.out.find("Final score: ") != S::npos) c.label("score");
  if (!r.out.empty()) c.nontrivial(desc);
}

PBT_SUB(stats, 1500, 30000) {
  auto& g{c.g};
  S desc;
  V files;
  desc += tree(g, files);
  auto args{dataArgs(g, desc)};
  args.insert(g.boolean() ? args.begin() : args.end(), files.begin(), files.end());
  desc += shown(args);
  c.describe(desc);
  const auto r{start(app_main_statsMain, args)};
  c.label(r.code ? "status 1" : "status 0");
  if (r.out.find(">>> Stats for") != S::npos) {
    c.label("report");
    c.nontrivial(desc);
    const auto again{start(app_main_statsMain, args)};
    PBT_EQ(again.out, r.out, "printed again");
    PBT_EQ(again.code, r.code, "status of another run");
  }
}

PBT_SUB(convert, 6000, 100000) {
  auto& g{c.g};
  V args;
  const auto text{[&] {
    switch (g.below(5)) {
    case 0: return g.dictString();
    case 1: return gen::anyBytes(g, 8);
    case 2: return gen::validText(g, 8);
    default: {
      S s;
      for (auto n{g.size(8)}; n; --n) s += g.pick({"ka", "kyo", "n", "n'", "nn", "-", "ー", "ッ", "っ", "か", "ガ", "ヽ", "ゞ", "ゝ", "あ", "lya", "xtu", " ", "　", "tch", "A", "・", "/", "ā", "ō", "g"});
      return s;
    }
    }
  }};
  for (auto n{g.below(5)}; n; --n)
    args.push_back(noNul(g.chance(2, 3) ? S{g.pick({"-i", "-n", "-m", "-p", "-?", "--", "-f", "-f", "h", "k", "n", "r", "-h", "-k", "-r", "-H", "-K", "-R", "-x", "-"})} : text()));
  S in;
  for (auto n{g.size(8)}; n; --n) in += (g.boolean() ? S{g.pick({"f", "h", "k", "n", "r", "c", "-k", "-R", "-r", "-H", "q", "", "-", "-x", "ff"})} : text()) + '\n';
  if (g.chance(1, 4)) in += text();
  const auto desc{shown(args) + " input " + pbt::show(in)};
  c.describe(desc);
  const auto r{start(app_main_convertMain, args, in)};
  c.label(r.code ? "status 1" : "status 0");
  if (!r.out.empty()) c.nontrivial(desc);
}

PBT_SUB(format, 3000, 50000) {
  auto& g{c.g};
  const auto file{pbt::scratch() + "/format.txt"};
  S text;
  for (auto n{g.size(8)}; n; --n) {
    switch (g.below(6)) {
    case 0: text += gen::anyBytes(g, 8); break;
    case 1: text += gen::validText(g, 12); break;
    case 2: text += g.dictString(); break;
    case 3: // long
      for (auto k{g.number(20000)}; k; --k) text += "あ";
      break;
    default: text += g.pick({"漢", "漢字", "かんじ", "カ", "ー", "", "漢\r", "一︀"});
    }
    if (!g.chance(1, 8)) text += '\n';
  }
  std::ofstream{file, std::ios::binary} << text;
  const auto link{pbt::scratch() + "/itself"};
  if (!fs::is_symlink(link)) fs::create_symlink(link, link);
  V args;
  if (!g.chance(1, 10)) args.push_back(g.chance(1, 6) ? g.pick<S>({"", pbt::scratch(), file + "x", "/dev/null", file + "/", "-", S(300, 'x'), pbt::scratch() + '/' + S(256, 'x'), S(5000, 'x'), file + "/x", link}) : file);
  if (g.chance(1, 10)) args.push_back(file);
  const auto desc{shown(args) + " text " + pbt::show(text.substr(0, 2000))};
  c.describe(desc);
  const auto r{start(app_main_formatMain, args)};
  c.label(r.code ? "status 1" : "status 0");
  const bool ok{!args.empty() && args[0] == file};
  PBT_EQ(r.code, ok ? 0 : 1, "exit status for ", shown(args));
  if (!ok) PBT_EQ(r.out, "", "printed for an error");
  if (!r.out.empty()) c.nontrivial(desc);
}
