// libs: stats
#include "furigana.h"

#include <kt_stats/Utf8Count.h>

#include <fstream>

using namespace kanji_tools;
namespace fs = std::filesystem;

const pbt::Info pbt::info{"P23",
    "lines and files with Kanji, bracketed kana readings, look-alikes of such "
    "readings (other brackets, other content, nothing before them), line breaks "
    "at any place of a reading and malformed bytes, counted with the furigana "
    "option and compared with a separate scanner and counter (no regular "
    "expressions); non-trivial = at least one reading is removed and at least "
    "one bracket stays, distinct by text"};

namespace {

using furi::S, furi::Codes, furi::Open, furi::Close, furi::Removed, furi::codes,
    furi::bytes, furi::joins, furi::removeReadings, furi::text;

void compare(const Utf8Count& u, const ref::Counter& m) {
  PBT_EQ(u.map(), m.chars, "counts");
  PBT_EQ(u.errors(), m.errors, "errors");
  PBT_EQ(u.variants(), m.variants, "variants");
  PBT_EQ(u.combiningMarks(), m.marks, "combining marks");
}

void classify(pbt::Ctx& c, const S& s, const Removed& r) {
  if (r.readings && r.text.find_first_of(Codes{Open, Close}) != Codes::npos) c.nontrivial(s);
  if (r.readings) c.label("removed");
  if (r.spanning) c.label("spanning");
}

} // namespace

// single texts (lines)
PBT_SUB(texts, 150000, 2000000) {
  auto& g{c.g};
  Utf8Count u{Utf8Count::RemoveFurigana}, plain;
  ref::Counter m, p;
  size_t replaced{};
  S all;
  for (auto k{1 + g.below(4)}; k; --k) {
    const auto s{text(g, 12, false)};
    all += pbt::show(s) + "|";
    c.describe(all);
    const auto r{removeReadings(codes(s), 0)};
    classify(c, all, r);
    const auto e{bytes(r.text)};
    PBT_EQ(u.add(s), m.add(e), "added by ", pbt::show(s), " -> ", pbt::show(e));
    replaced += r.readings != 0;
    compare(u, m);
    PBT_EQ(u.replacements(), replaced, "replacements after ", pbt::show(s));
    // without the option everything is counted
    PBT_EQ(plain.add(s), p.add(s), "");
    compare(plain, p);
    PBT_EQ(plain.replacements(), 0U, "");
  }
}

// files with several lines
PBT_SUB(files, 60000, 1000000) {
  auto& g{c.g};
  std::ostringstream debug;
  Utf8Count u{Utf8Count::RemoveFurigana, Utf8Count::DefaultReplace, g.boolean() ? &debug : nullptr}, plain;
  ref::Counter m, p;
  const auto dir{fs::path(pbt::scratch()) / "files"};
  fs::create_directories(dir);
  size_t replaced{};
  S d, lastTag, expectedDebug;
  for (auto k{1 + g.below(3)}; k; --k) {
    auto s{text(g, 25, true)};
    if (g.boolean()) s += '\n';
    d += pbt::show(s) + "|";
    c.describe(d);
    const auto tag{std::string(g.pick({"a", "漢", "x"}))};
    const auto file{dir / tag};
    std::ofstream{file} << s;
    const auto r{removeReadings(codes(s), 1)};
    classify(c, d, r);
    const auto e{bytes(r.text)};
    const auto before{u.replacements()};
    const bool names{g.chance(1, 3)};
    const auto tags{g.chance(2, 3)};
    auto expected{m.addLines(e, tags ? std::optional(tag) : std::nullopt)};
    if (names) expected += m.add(tag, tags ? std::optional(tag) : std::nullopt);
    PBT_EQ(u.addFile(file, tags, names), expected, "added by ", pbt::show(s), " -> ", pbt::show(e));
    compare(u, m);
    for (auto& i : m.tags) {
      const auto t{u.tags(i.first)};
      PBT_CHECK(t && *t == i.second, "tags of ", i.first);
    }
    if (joins(codes(s)))
      PBT_CHECK(u.replacements() - before >= (r.readings != 0) && u.replacements() - before <= r.readings, u.replacements() - before, " replacements for ", r.readings, " readings in ", pbt::show(s));
    else
      PBT_EQ(u.replacements() - before, r.lines.size(), "replacements in ", pbt::show(s));
    replaced = u.replacements();
    if (tags && r.readings) {
      if (tag != lastTag) expectedDebug += "Tag '" + tag + "'\n";
      lastTag = tag;
    }
    PBT_EQ(u.lastReplaceTag(), lastTag, "");
    PBT_EQ(plain.addFile(file, false, false), p.addLines(s), "");
    compare(plain, p);
  }
  // the debug output has the changed lines
  if (u.debug()) {
    std::istringstream is{debug.str()};
    S line, tags;
    size_t n{};
    while (std::getline(is, line))
      if (line.starts_with("Tag '"))
        tags += line + '\n';
      else {
        ++n;
        const auto start{"  " + std::to_string(n) + " : "};
        PBT_CHECK(line.starts_with(start), "line '", line, "' doesn't start with '", start, "'");
        const auto before{line.substr(start.size())};
        PBT_CHECK(std::getline(is, line), "no second line");
        const auto indent{S(start.size() - 2, ' ') + ": "};
        PBT_CHECK(line.starts_with(indent), "line '", line, "' isn't indented by ", indent.size());
        const auto r{removeReadings(codes(before), 0)};
        PBT_CHECK(r.readings, "not changed: ", pbt::show(before));
        PBT_EQ(line.substr(indent.size()), bytes(r.text), pbt::show(before));
      }
    PBT_EQ(n, replaced, "replacements in debug output");
    PBT_EQ(tags, expectedDebug, "");
  }
}

// other patterns and replacements: each match is replaced in what is counted
// and only texts that really change are counted as replacements
PBT_SUB(patterns, 60000, 800000) {
  auto& g{c.g};
  struct To {
    const wchar_t* format;
    size_t copies; // of the match
    Codes text;    // instead of the match
  };
  static const std::vector<To> to{{L"", 0, {}}, {L"$&", 1, {}}, {L"$&$&", 2, {}}, {L"犬", 0, {U'犬'}}, {L"か", 0, {U'か'}}, {L"犬$&", 1, {U'犬'}}, {L"𠮟", 0, {0x20b9f}}};
  auto& t{g.pick(to)};
  const bool run{g.boolean()};
  std::ostringstream debug;
  Utf8Count u{std::wregex{run ? L"[か-こ]+" : L"[か-こ]"}, t.format, &debug};
  ref::Counter m;
  size_t changed{};
  S all{pbt::cat(run, t.copies, bytes(t.text), ':')};
  for (auto k{1 + g.below(4)}; k; --k) {
    const auto s{text(g, 12, false)};
    all += pbt::show(s) + "|";
    c.describe(all);
    const auto in{codes(s)};
    Codes out;
    for (size_t i{}; i < in.size();) {
      const auto match{[&](size_t x) { return x < in.size() && in[x] >= U'か' && in[x] <= U'こ'; }};
      if (!match(i)) {
        out += in[i++];
        continue;
      }
      auto e{i + 1};
      while (run && match(e)) ++e;
      out += t.text;
      for (auto n{t.copies}; n; --n) out += in.substr(i, e - i);
      i = e;
    }
    PBT_EQ(u.add(s), m.add(bytes(out)), "added by ", pbt::show(s), " -> ", pbt::show(bytes(out)));
    changed += out != in;
    compare(u, m);
    PBT_EQ(u.replacements(), changed, "replacements after ", pbt::show(s));
    if (out != in && out.size() == in.size()) c.nontrivial(all);
  }
  const auto shown{debug.str()};
  PBT_EQ(std::count(shown.begin(), shown.end(), '\n'), static_cast<long>(2 * changed), "lines of debug output");
}
