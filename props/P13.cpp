// libs: kanji
#include "text.h"

#include <kt_kanji/ListFile.h>

#include <algorithm>
#include <filesystem>
#include <fstream>
#include <map>
#include <set>

using namespace kanji_tools;
namespace fs = std::filesystem;

const pbt::Info pbt::info{"P13",
    "histories of list files (one or several entries per line, plain, level "
    "and Kyū lists) loaded one after another with shared, repeated, malformed "
    "and misplaced entries, with resets in between, compared with a model of "
    "entries and of each uniqueness group; non-trivial = at least two files of "
    "which one shares a group with an earlier one, or a rejected file, "
    "distinct by contents"};

namespace {

using Strings = std::vector<std::string>;

std::string entry(pbt::Gen& g) {
  // few characters, so that files often share some
  if (g.chance(3, 4)) return ref::enc(0x4e00 + g.below(40));
  switch (g.below(3)) {
  case 0: return ref::enc(gen::fromRanges(g, ref::CommonKanji));
  case 1: return g.pick({"é", "あ", "。", "𠮟", "😀", "\xc2\x80", "\xf4\x8f\xbf\xbf"});
  default: return ref::enc(0x80 + g.below(0xd000));
  }
}

std::string badEntry(pbt::Gen& g) {
  switch (g.below(4)) {
  case 0: return g.pick({"a", "1", "-", "\t", "\x7f"});
  case 1: return entry(g) + entry(g);
  case 2: return g.pick({"逸︁", "か\xe3\x82\x99", "犬a", "a犬", "犬\r", "犬\t"});
  default: {
    auto s{gen::badPiece(g)};
    for (auto& i : s)
      if (i == '\n' || i == ' ') i = '\x80';
    return s;
  }
  }
}

bool validEntry(const std::string& s) {
  if (!ref::isValid(s)) return false;
  const auto d{ref::decode(s)};
  return d.size() == 1 && d[0] >= 0x80;
}

enum Kind { Plain, Level, Kyu };

} // namespace

PBT_SUB(histories, 100000, 2000000) {
  auto& g{c.g};
  ListFile::clearUniqueCheckData();
  std::map<Kind, std::set<std::string>> seen;
  std::string description;
  bool shared{}, rejected{};
  const auto dir{pbt::scratch() + "/lists"};
  fs::remove_all(dir);
  fs::create_directory(dir);
  for (auto n{g.below(5) + 1}; n; --n) {
    if (g.chance(1, 10)) {
      ListFile::clearUniqueCheckData();
      seen.clear();
      description += "clear\n";
    }
    const auto kind{static_cast<Kind>(g.below(3))};
    const auto onePerLine{kind == Plain && g.boolean()};
    // content
    std::vector<Strings> lines;
    const auto distinct{g.chance(2, 3)}; // mostly avoid repeats
    std::set<std::string> used;
    for (auto l{g.longSize(6)}; l; --l) {
      Strings line;
      for (auto k{onePerLine ? 1U : g.below(5)}; k; --k) {
        auto e{entry(g)};
        for (auto t{distinct ? 20U : 0U}; t && (used.contains(e) || seen[kind].contains(e)); --t) e = entry(g);
        used.insert(e);
        line.push_back(e);
      }
      lines.push_back(line);
    }
    std::string content;
    for (auto& l : lines) {
      for (size_t i{}; i < l.size(); ++i) content += (i ? " " : "") + l[i];
      content += '\n';
    }
    if (g.chance(1, 2) && !content.empty()) content.pop_back();
    if (g.chance(1, 6)) { // disturb
      const auto extra{g.pick(std::vector<std::string>{badEntry(g), " ", "  ", "\n", entry(g), " " + entry(g), entry(g) + " ", "\n" + badEntry(g) + "\n", " " + badEntry(g)})};
      auto at{content.empty() ? 0 : g.below(content.size() + 1)};
      // mostly between characters
      if (g.chance(7, 8))
        while (at < content.size() && (content[at] & 0xc0) == 0x80) ++at;
      content.insert(at, extra);
    }
    // reference
    Strings list;
    bool ok{true};
    std::set<std::string> dups;
    {
      size_t start{};
      while (start < content.size()) {
        auto end{content.find('\n', start)};
        if (end == std::string::npos) end = content.size();
        const auto line{content.substr(start, end - start)};
        start = end + 1;
        if (line.empty()) continue;
        if (onePerLine && !validEntry(line)) ok = false;
        size_t p{};
        while (p < line.size()) { // an ending space is allowed
          auto q{line.find(' ', p)};
          if (q == std::string::npos) q = line.size();
          const auto token{line.substr(p, q - p)};
          p = q + 1;
          if (!validEntry(token) || std::find(list.begin(), list.end(), token) != list.end()) ok = false;
          if (seen[kind].contains(token)) ok = false;
          list.push_back(token);
        }
      }
    }
    const std::string stem{g.pick({"list", "Upper", "漢字", "n5", "x.y"})};
    const auto ext{g.pick({"", ".txt", ".dat"})};
    const fs::path file{dir + "/" + stem + ext};
    fs::remove(dir + "/" + stem);
    fs::remove(dir + "/" + stem + ".txt");
    std::ofstream{file, std::ios::binary} << content;
    // a missing extension is found
    auto path{file};
    if (std::string{ext} == ".txt" && stem != "x.y" && g.boolean()) path = dir + "/" + stem;
    const auto level{static_cast<JlptLevels>(g.below(5))};
    const auto kyu{static_cast<KenteiKyus>(g.below(12))};
    description += pbt::cat(kind == Plain ? (onePerLine ? "one per line" : "plain") : kind == Level ? "level" : "kyu", " ", path.filename().string(), ": ", pbt::show(content), "\n");
    c.describe(description);
    const auto check{[&](const ListFile& f) {
      PBT_CHECK(ok, "accepted: ", description);
      PBT_EQ(f.list(), list, description);
      PBT_EQ(f.size(), list.size(), description);
      std::string all;
      for (size_t i{}; i < list.size(); ++i) {
        PBT_EQ(f.getIndex(list[i]), i + 1, list[i]);
        PBT_CHECK(f.exists(list[i]), list[i]);
        all += list[i];
      }
      PBT_EQ(f.toString(), all, description);
      for (int i{}; i < 4; ++i) {
        const auto e{i ? entry(g) : badEntry(g)};
        if (std::find(list.begin(), list.end(), e) == list.end()) {
          PBT_EQ(f.getIndex(e), 0, e);
          PBT_CHECK(!f.exists(e), e);
        }
      }
      PBT_CHECK(!f.exists(""), "empty name");
      PBT_EQ(f.level(), kind == Level ? level : JlptLevels::None, description);
      PBT_EQ(f.kyu(), kind == Kyu ? kyu : KenteiKyus::None, description);
      auto name{file.stem().string()};
      if (path != file) name = path.stem().string();
      if (name[0] >= 'a' && name[0] <= 'z') name[0] = static_cast<char>(name[0] - 32);
      if (kind == Level) name = toString(level);
      if (kind == Kyu) name = toString(kyu);
      PBT_EQ(f.name(), name, description);
    }};
    try {
      if (kind == Level)
        check(LevelListFile{path, level});
      else if (kind == Kyu)
        check(KyuListFile{path, kyu});
      else if (onePerLine)
        check(ListFile{path});
      else
        check(ListFile{path, ListFile::FileType::MultiplePerLine});
      if (!list.empty() && !seen[kind].empty()) shared = true;
      seen[kind].insert(list.begin(), list.end());
    } catch (const DomainError& e) {
      PBT_CHECK(!ok, "rejected with ", e.what(), ": ", description);
      PBT_CHECK(std::string{e.what()}.find(file.filename().string()) != std::string::npos, e.what(), " doesn't name ", file.string());
      rejected = true;
      // programs stop here; start again with nothing loaded
      ListFile::clearUniqueCheckData();
      seen.clear();
    }
  }
  if (shared || rejected) c.nontrivial(description);
}

// finding and opening files
PBT_SUB(paths, 8000, 200000) {
  auto& g{c.g};
  const auto dir{fs::path{pbt::scratch()} / "paths"};
  fs::remove_all(dir);
  if (g.chance(9, 10))
    fs::create_directory(dir);
  else
    std::ofstream{dir} << "x";
  static const Strings names{"a", "a.txt", "b", "b.txt", "c.d", "c.d.txt", "e.txt.txt"};
  enum What { None, File, Dir };
  std::map<std::string, What> have;
  std::string desc;
  if (fs::is_directory(dir))
    for (auto& i : names) {
      have[i] = static_cast<What>(g.weighted({2, 3, 1}));
      if (have[i] == File) std::ofstream{dir / i} << "犬\n";
      if (have[i] == Dir) fs::create_directory(dir / i);
      desc += pbt::cat(i, "=", have[i], " ");
    }
  const auto is{[&](const std::string& s, What w) { const auto i{have.find(s)}; return i != have.end() && i->second == w; }};
  const auto name{g.pick(names)};
  c.describe(desc + "find " + name);
  std::string expected;
  const auto hasExt{name.find('.') != std::string::npos};
  if (is(name, File))
    expected = name;
  else if (!hasExt && is(name + ".txt", File))
    expected = name + ".txt";
  c.nontrivial(desc + name);
  try {
    const auto p{ListFile::getFile(dir, name)};
    PBT_EQ(p.string(), (dir / expected).string(), desc);
    PBT_CHECK(!expected.empty(), desc);
  } catch (const DomainError& e) {
    PBT_EQ(expected, "", e.what(), " ", desc);
    const auto any{[&](const std::string& s) { return is(s, File) || is(s, Dir); }};
    const auto file{hasExt ? name : name + ".txt"};
    PBT_EQ(std::string{e.what()},
        !fs::is_directory(dir) ? dir.string() + " is not a directory"
        : any(file)            ? name + " must be a regular file"
                               : dir.string() + " must contain '" + name + (hasExt ? "'" : "' (also tried '.txt' extension)"),
        desc);
  }
  ListFile::clearUniqueCheckData();
  try {
    const ListFile f{dir / name};
    PBT_CHECK(!expected.empty(), "loaded; ", desc);
    PBT_EQ(f.list(), Strings{"犬"}, desc);
  } catch (const DomainError& e) {
    PBT_EQ(expected, "", e.what(), " ", desc);
  }
  std::ostringstream os;
  Strings l;
  for (auto n{g.longSize(5)}; n; --n) l.push_back(entry(g));
  const std::string type{g.pick({"items", ""})}, group{g.pick({"", "bag"})};
  std::string e;
  for (auto& i : l) e += " " + i;
  ListFile::print(os, l, type, group);
  PBT_EQ(os.str(), l.empty() ? "" : ">>> Found " + std::to_string(l.size()) + " " + type + (group.empty() ? "" : " in " + group) + ":" + e + "\n", desc);
}

// the number of entries is limited, and up to there all are kept
PBT_ENUM(limit, 4) {
  const auto n{ListFile::MaxEntries - 2 + c.g.below(4)};
  c.describe(pbt::cat(n, " entries"));
  const auto file{pbt::scratch() + "/big.txt"};
  std::ofstream f{file};
  Strings list;
  for (uint32_t i{}; i < n; ++i) {
    list.push_back(ref::enc(0x20000 + i));
    f << list.back() << (i % 7 ? ' ' : '\n');
  }
  f.close();
  ListFile::clearUniqueCheckData();
  try {
    const ListFile l{file, ListFile::FileType::MultiplePerLine};
    PBT_CHECK(n <= ListFile::MaxEntries, "loaded ", n);
    PBT_EQ(l.list(), list, n);
    PBT_EQ(l.getIndex(list.back()), n, "last");
    PBT_EQ(l.getIndex(list.front()), 1, "first");
  } catch (const DomainError& e) {
    PBT_CHECK(n > ListFile::MaxEntries, e.what());
  }
  c.nontrivial(std::to_string(n));
}
