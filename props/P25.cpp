// libs: utils kana
// apps: formatMain
#include "capture.h"
#include "furigana.h"

#include <filesystem>
#include <fstream>

#include <unistd.h>

int app_main_formatMain(int, const char**);

namespace fs = std::filesystem;

const pbt::Info pbt::info{"P25",
    "files of lines ending in Kanji (or look-alikes) followed by kana, nearly "
    "kana, empty and other lines, with and without a final newline, formatted "
    "by the program and compared with a separate formatter (no regular "
    "expressions); non-trivial = a joined reading and a line ending in Kanji "
    "that isn't joined, distinct by content"};

namespace {

using S = std::string;

bool endsWithKanji(const S& s) {
  const auto c{furi::codes(s)};
  return !c.empty() && (ref::in(c.back(), ref::CommonKanji) || ref::in(c.back(), ref::RareKanji) || ref::isVS(c.back()));
}
bool allKana(const S& s) {
  for (auto c : furi::codes(s))
    if (!furi::isReading(c)) return false;
  return !s.empty();
}

struct Formatted {
  S text;
  size_t joined{}, kept{};
};

Formatted format(const S& s) {
  std::vector<S> lines;
  for (size_t i{}; i < s.size();) {
    const auto e{std::min(s.find('\n', i), s.size())};
    lines.push_back(s.substr(i, e - i));
    i = e + 1;
  }
  Formatted r;
  for (size_t i{}; i < lines.size(); ++i)
    if (endsWithKanji(lines[i]) && i + 1 < lines.size() && allKana(lines[i + 1])) {
      r.text += lines[i] + "（" + lines[i + 1] + "）";
      ++r.joined;
      ++i;
    } else {
      r.text += lines[i] + '\n';
      r.kept += endsWithKanji(lines[i]);
    }
  return r;
}

S line(pbt::Gen& g) {
  S r;
  const auto some{[&](auto f, uint32_t n) {
    for (auto k{1 + g.longSize(n)}; k; --k) r += f();
  }};
  switch (g.weighted({6, 6, 2, 2, 2, 1, 1})) {
  case 0: // Kanji at the end
    if (g.boolean()) some([&] { return furi::other(g); }, 3);
    some([&] { return furi::base(g); }, 2);
    break;
  case 1: some([&] { return furi::kana(g, true); }, 5); break;
  case 2: // nearly kana
    some([&] { return furi::kana(g, true); }, 3);
    r.insert(g.boolean() ? r.size() : 0, g.pick({S{" "}, S{"\r"}, S{"。"}, S{"　"}, S{"漢"}, furi::other(g), gen::badPiece(g), S{"\xef\xb8\x80"}}));
    break;
  case 3: // something after the Kanji
    r += furi::base(g) + g.pick({S{" "}, S{"\r"}, S{"。"}, S{"　"}, S{"）"}, furi::other(g), gen::badPiece(g)});
    break;
  case 4: break;
  case 5: r = gen::validText(g, 10); break;
  default: r = gen::anyBytes(g, 6);
  }
  std::erase(r, '\n');
  std::erase(r, '\0');
  return r;
}

void check(pbt::Ctx& c, const S& content, const S& d) {
  const auto file{pbt::scratch() + "/format漢.txt"};
  std::ofstream{file} << content;
  const auto e{format(content)};
  c.describe(d);
  if (e.joined && e.kept) c.nontrivial(content);
  if (e.joined) c.label("joined");
  std::vector<S> args{file};
  if (c.g.chance(1, 10)) args.push_back("other");
  const auto r{run::main(app_main_formatMain, args)};
  PBT_EQ(r.out, e.text, d);
  PBT_EQ(r.err, "", d);
  PBT_EQ(r.code, 0, d);
}

} // namespace

PBT_SUB(files, 200000, 3000000) {
  auto& g{c.g};
  S s;
  for (auto k{g.longSize(12)}; k; --k) s += line(g) + '\n';
  if (!s.empty() && g.boolean()) s.pop_back();
  check(c, s, pbt::show(s));
}

// long lines
PBT_SUB(long_lines, 300, 5000) {
  auto& g{c.g};
  S s, d;
  for (auto k{1 + g.below(4)}; k; --k) {
    const auto x{furi::kana(g, false)}, y{furi::base(g)};
    const auto n{g.number(g.chance(1, 8) ? 60000 : 2000)}, m{g.number(100)}, o{g.number(3)};
    d += pbt::cat(n, "*", x, "+", m, "*", y, "+", o, "\\n;");
    for (uint32_t i{}; i < n; ++i) s += x;
    for (uint32_t i{}; i < m; ++i) s += y;
    for (uint32_t i{}; i < o; ++i) s += '\n';
  }
  check(c, s, d);
}

PBT_SUB(arguments, 300, 1000) {
  auto& g{c.g};
  std::vector<S> args;
  S error;
  const auto dir{pbt::scratch() + "/dir"};
  fs::create_directories(dir);
  switch (g.below(4)) {
  case 0: error = "specify a file to format\n"; break;
  case 1: args = {dir}; break;
  case 2: args = {pbt::scratch() + "/missing" + std::to_string(g.below(100))}; break;
  default: args = {g.pick({"", "-h", "/", "漢"})};
  }
  if (error.empty()) error = "file not found: " + args[0] + '\n';
  c.describe(args.empty() ? S{"no arguments"} : args[0]);
  c.nontrivial(args.empty() ? S{} : args[0]);
  const auto r{run::main(app_main_formatMain, args)};
  PBT_EQ(r.out, "", "");
  PBT_EQ(r.err, error, "");
  PBT_EQ(r.code, 1, "");
}

// a file that can only be read
PBT_SUB(read_only, 200, 2000) {
  auto& g{c.g};
  const auto s{line(g) + "\n" + line(g) + "漢"};
  const auto file{pbt::scratch() + "/readonly"};
  std::ofstream{file} << s;
  fs::permissions(file, fs::perms{0444});
  fs::permissions(pbt::scratch(), fs::perms{0755});
  c.describe(pbt::show(s));
  const bool root{!geteuid()};
  if (root && seteuid(65534)) throw pbt::Discard{};
  struct Back {
    bool root;
    ~Back() {
      if (root && seteuid(0)) _exit(3);
    }
  };
  run::Result r;
  {
    Back b{root};
    if (euidaccess(file.c_str(), R_OK)) throw pbt::Discard{};
    r = run::main(app_main_formatMain, {file});
  }
  fs::remove(file);
  c.nontrivial(s);
  PBT_EQ(r.out, format(s).text, "");
  PBT_EQ(r.code, 0, "");
}
