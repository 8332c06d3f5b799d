// A model of a Kanji data directory: generated (or read from /repo/data),
// written as files, and turned into the Kanji the files define. The expected
// side ('Model') is built from 'Dict' only, it uses no code from the libraries.
#pragma once

#include "kana_ref.h"
#include "text.h"

#include <algorithm>
#include <array>
#include <filesystem>
#include <fstream>
#include <map>
#include <optional>
#include <set>
#include <string>
#include <vector>

namespace dict {

using S = std::string;
using V = std::vector<S>;

enum Type { Jouyou, Jinmei, LinkedJinmei, LinkedOld, Frequency, Extra, Kentei, Ucd, NoType };

inline const V TypeNames{"Jouyou", "Jinmei", "LinkedJinmei", "LinkedOld", "Frequency", "Extra", "Kentei", "Ucd"};
inline const V GradeNames{"G1", "G2", "G3", "G4", "G5", "G6", "S"};
inline const V LevelNames{"N5", "N4", "N3", "N2", "N1"};
inline const V KyuNames{"K10", "K9", "K8", "K7", "K6", "K5", "K4", "K3", "KJ2", "K2", "KJ1", "K1"};
inline const V KyuFiles{"k10", "k9", "k8", "k7", "k6", "k5", "k4", "k3", "kJ2", "k2", "kJ1", "k1"};
inline const V LevelFiles{"n5", "n4", "n3", "n2", "n1"};
inline const V ReasonNames{"Names", "Print", "Variant", "Moved", "Simple", "Other"};
inline const V LinkTypeNames{"Compatibility*", "Definition*", "Jinmei*", "Semantic*", "Simplified*", "Traditional*",
    "Compatibility", "Definition", "Jinmei", "Simplified", "Traditional"};

struct UcdRow {
  S name, block, version, pinyin, morohashi, nelson, sources, jsource, linkType, meaning, on, kun, japanese;
  unsigned radical{1}, strokes{1}, vstrokes{};
  bool joyo{}, jinmei{};
  V links;
};

struct Row { // jouyou, jinmei and extra
  unsigned number{};
  S name, radical;
  V old;
  unsigned year{}, strokes{};
  S grade, meaning, reading, reason; // 'grade' is 1..6 or S
};

struct Rad {
  S name;
  V alt;
  S longName, reading;
};

struct Dict {
  std::vector<UcdRow> ucd;
  std::vector<Rad> radicals;
  std::vector<std::pair<S, S>> freqReadings, linked;
  std::vector<Row> jouyou, jinmei, extra;
  std::array<V, 5> levels;
  V freq;
  std::array<V, 12> kyus;
  S meaningGroups{"Number\tName\tMembers\n"}, patternGroups{"Number\tName\tMembers\n"};
  std::map<S, S> jukugo; // file name -> content
};

inline S join(const V& v, const S& sep) {
  S r;
  for (size_t i{}; i < v.size(); ++i) r += (i ? sep : S{}) + v[i];
  return r;
}

inline V split(const S& s, char sep) {
  V r;
  S t;
  std::istringstream is{s};
  while (std::getline(is, t, sep)) r.push_back(t);
  return r;
}

inline unsigned codeOf(const S& name) { return ref::decode(name).at(0); }

inline S hex(unsigned c) {
  char b[16];
  std::snprintf(b, sizeof b, "%04X", c);
  return b;
}

// name with a variation selector?
inline bool hasVS(const S& s) {
  const auto c{ref::decode(s)};
  return c.size() == 2 && ref::isVS(c[1]);
}
inline S base(const S& s) { return hasVS(s) ? ref::enc(codeOf(s)) : s; }

// ---- files

using Files = std::map<S, S>; // path below the directory -> content

// 'columnOrder' gives the order of columns in each tab separated file (seeded
// by 'g' if not null)
inline S table(const V& header, const std::vector<V>& rows, pbt::Gen* g) {
  std::vector<size_t> order;
  for (size_t i{}; i < header.size(); ++i) order.push_back(i);
  if (g && g->chance(1, 4)) g->shuffle(order);
  S r;
  const auto line{[&](const V& v) {
    for (size_t i{}; i < order.size(); ++i) r += (i ? "\t" : "") + v[order[i]];
    r += '\n';
  }};
  line(header);
  for (auto& i : rows) line(i);
  return r;
}

inline S listText(const V& v, bool onePerLine, unsigned perLine = 10) {
  S r;
  for (size_t i{}; i < v.size(); ++i) {
    r += v[i];
    if (onePerLine || i % perLine == perLine - 1 || i + 1 == v.size())
      r += '\n';
    else
      r += ' ';
  }
  return r;
}

inline S num(unsigned n) { return std::to_string(n); }

inline Files files(const Dict& d, pbt::Gen* g = {}) {
  Files f;
  std::vector<V> t;
  const auto flag{[&](bool b) { return S{b ? "Y" : g && g->chance(1, 4) ? "N" : ""}; }};
  for (auto& i : d.ucd) {
    V codes;
    for (auto& j : i.links) codes.push_back(hex(codeOf(j)));
    t.push_back({hex(codeOf(i.name)), i.name, i.block, i.version, num(i.radical), num(i.strokes),
        i.vstrokes ? num(i.vstrokes) : "", i.pinyin, i.morohashi, i.nelson, i.sources, i.jsource, flag(i.joyo),
        flag(i.jinmei), join(codes, ","), join(i.links, ","), i.linkType, i.meaning, i.on, i.kun, i.japanese});
  }
  f["ucd.txt"] = table({"Code", "Name", "Block", "Version", "Radical", "Strokes", "VStrokes", "Pinyin", "MorohashiId",
                           "NelsonIds", "Sources", "JSource", "Joyo", "Jinmei", "LinkCodes", "LinkNames", "LinkType",
                           "Meaning", "On", "Kun", "Japanese"},
      t, g);
  t.clear();
  for (size_t i{}; i < d.radicals.size(); ++i) {
    auto& r{d.radicals[i]};
    t.push_back({num(static_cast<unsigned>(i) + 1), r.name + (r.alt.empty() ? "" : " " + join(r.alt, " ")), r.longName,
        r.reading});
  }
  f["radicals.txt"] = table({"Number", "Name", "LongName", "Reading"}, t, g);
  t.clear();
  for (auto& i : d.freqReadings) t.push_back({i.first, i.second});
  f["frequency-readings.txt"] = table({"Name", "Reading"}, t, g);
  t.clear();
  for (auto& i : d.jouyou)
    t.push_back({num(i.number), i.name, i.radical, join(i.old, ","), i.year ? num(i.year) : "", num(i.strokes), i.grade,
        i.meaning, i.reading});
  f["jouyou.txt"] =
      table({"Number", "Name", "Radical", "OldNames", "Year", "Strokes", "Grade", "Meaning", "Reading"}, t, g);
  t.clear();
  for (auto& i : d.jinmei)
    t.push_back({num(i.number), i.name, i.radical, join(i.old, ","), i.year ? num(i.year) : "", i.reason, i.reading});
  f["jinmei.txt"] = table({"Number", "Name", "Radical", "OldNames", "Year", "Reason", "Reading"}, t, g);
  t.clear();
  for (auto& i : d.extra) t.push_back({num(i.number), i.name, i.radical, num(i.strokes), i.meaning, i.reading});
  f["extra.txt"] = table({"Number", "Name", "Radical", "Strokes", "Meaning", "Reading"}, t, g);
  S s;
  for (auto& i : d.linked) s += i.first + '\t' + i.second + '\n';
  f["linked-jinmei.txt"] = s;
  for (size_t i{}; i < 5; ++i) f["jlpt/" + LevelFiles[i] + ".txt"] = listText(d.levels[i], false);
  for (size_t i{}; i < 12; ++i) f["kentei/" + KyuFiles[i] + ".txt"] = listText(d.kyus[i], false);
  f["frequency.txt"] = listText(d.freq, true);
  f["meaning-groups.txt"] = d.meaningGroups;
  f["pattern-groups.txt"] = d.patternGroups;
  for (auto& i : {"g1", "g2", "g3", "g4", "g5", "g6", "other"}) {
    const auto j{d.jukugo.find(i)};
    f[S{"jukugo/"} + i + ".txt"] = j == d.jukugo.end() ? S{} : j->second;
  }
  return f;
}

// write files to 'dir', removing any other file left by an earlier case
inline void write(const Files& f, const std::filesystem::path& dir) {
  namespace fs = std::filesystem;
  for (auto i : {"", "jlpt", "kentei", "jukugo"}) fs::create_directories(dir / i);
  std::vector<fs::path> stale;
  for (auto& i : fs::recursive_directory_iterator(dir))
    if (!i.is_directory() && !f.contains(fs::relative(i.path(), dir).string())) stale.push_back(i.path());
  for (auto& i : stale) fs::remove(i);
  for (auto& i : f) {
    std::ofstream o{dir / i.first, std::ios::binary};
    o << i.second;
    if (!o) pbt::fail("harness: can't write " + (dir / i.first).string());
  }
}

// ---- expected Kanji

struct K {
  S name;
  Type type{NoType};
  unsigned radical{}, strokes{}, vstrokes{};
  S meaning, reading;
  unsigned freq{}, year{}, number{};
  int grade{-1}, level{-1}, kyu{-1}, reason{-1};
  V old;
  std::optional<S> newName;
  bool linkedReadings{};
  std::optional<S> extraInfo;
  S link; // name of the linked Kanji
  S pinyin, morohashi, compat;
  std::vector<unsigned> nelson;
};

struct Model {
  std::map<S, K> all;
  std::map<S, S> compat; // compatibility name -> name
  std::array<V, 8> types;
  std::array<V, 7> grades;
  std::array<V, 5> levels;
  std::array<V, 12> kyus;
  V freq;
  std::map<S, std::set<S>> morohashi;
  std::map<unsigned, std::set<S>> nelson;

  [[nodiscard]] const K* find(const S& s) const {
    const auto i{compat.find(s)};
    const auto j{all.find(i == compat.end() ? s : i->second)};
    return j == all.end() ? nullptr : &j->second;
  }
};

inline const UcdRow* findUcd(const Dict& d, const S& name) {
  static const Dict* last{};
  static size_t lastSize{};
  static std::map<S, size_t> byName, byLink;
  if (last != &d || lastSize != d.ucd.size() || name.empty()) {
    byName.clear();
    byLink.clear();
    for (size_t i{}; i < d.ucd.size(); ++i) {
      byName.emplace(d.ucd[i].name, i);
      if (d.ucd[i].jinmei)
        for (auto& j : d.ucd[i].links) byLink.emplace(j, i);
    }
    last = &d;
    lastSize = d.ucd.size();
  }
  if (name.empty()) return {};
  auto& m{hasVS(name) ? byLink : byName};
  const auto i{m.find(base(name))};
  return i == m.end() ? nullptr : &d.ucd[i->second];
}

inline S katakana(const S& s) {
  return s.empty() ? s : kref::convert(kref::Script::Roma, s, kref::Script::Kata, 0);
}
inline S hiragana(const S& s) {
  return s.empty() ? s : kref::convert(kref::Script::Roma, s, kref::Script::Hira, 0);
}

// space separated Rōmaji words -> kana separated by '、'
inline S ucdReading(const UcdRow& u) {
  V r;
  for (auto& i : split(u.on, ' ')) r.push_back(katakana(i));
  for (auto& i : split(u.kun, ' ')) r.push_back(hiragana(i));
  return join(r, "、");
}

inline bool traditional(const UcdRow& u) { return u.linkType.starts_with("Traditional"); }

inline int index(const V& v, const S& s) {
  const auto i{std::find(v.begin(), v.end(), s)};
  return i == v.end() ? -1 : static_cast<int>(i - v.begin());
}

inline Model model(const Dict& d) {
  Model m;
  findUcd(d, ""); // refresh
  std::map<S, unsigned> freq;
  std::map<S, int> level, kyu;
  std::map<S, unsigned> radical;
  for (size_t i{}; i < d.freq.size(); ++i) freq[d.freq[i]] = static_cast<unsigned>(i) + 1;
  for (size_t i{}; i < 5; ++i)
    for (auto& j : d.levels[i]) level[j] = static_cast<int>(i);
  for (size_t i{}; i < 12; ++i)
    for (auto& j : d.kyus[i]) kyu[j] = static_cast<int>(i);
  for (size_t i{}; i < d.radicals.size(); ++i) radical[d.radicals[i].name] = static_cast<unsigned>(i) + 1;
  const auto get{[](auto& map, const S& n, auto none) {
    const auto i{map.find(n)};
    return i == map.end() ? none : i->second;
  }};
  const auto add{[&](K k) {
    if (const auto* u{findUcd(d, k.name)}; u) {
      k.pinyin = u->pinyin;
      k.morohashi = u->morohashi;
      std::istringstream is{u->nelson};
      for (S t; std::getline(is, t, ',');) k.nelson.push_back(static_cast<unsigned>(std::stoul(t)));
      k.compat = u->name;
      if (!k.radical) k.radical = u->radical;
      if (!k.strokes) {
        k.strokes = u->strokes;
        k.vstrokes = u->vstrokes;
      }
    } else
      k.compat = k.name;
    if (k.type != Ucd) k.kyu = get(kyu, k.name, -1);
    m.types[k.type].push_back(k.name);
    if (k.grade >= 0) m.grades[static_cast<size_t>(k.grade)].push_back(k.name);
    if (!k.morohashi.empty() && k.morohashi.find_first_not_of('0') != S::npos) m.morohashi[k.morohashi].insert(k.name);
    for (auto i : k.nelson) m.nelson[i].insert(k.name);
    if (hasVS(k.name)) m.compat[k.compat] = k.name;
    m.all[k.name] = std::move(k);
  }};
  const auto official{[&](const Row& r, K& k) {
    k.name = r.name;
    k.radical = get(radical, r.radical, 0U);
    k.reading = r.reading;
    k.number = r.number;
    k.extraInfo = "#" + num(r.number);
    if (r.year) *k.extraInfo += " " + num(r.year);
    k.year = r.year;
    k.old = r.old;
    k.freq = get(freq, r.name, 0U);
    k.level = get(level, r.name, -1);
  }};
  const auto linked{[&](const S& name, Type t, const S& link) {
    K k;
    k.name = name;
    k.type = t;
    k.link = link;
    k.newName = link;
    k.reading = m.all[link].reading;
    k.meaning = m.all[link].meaning;
    k.linkedReadings = true;
    k.freq = get(freq, name, 0U);
    add(k);
  }};
  for (auto& i : d.jouyou) {
    K k;
    official(i, k);
    k.type = Jouyou;
    k.strokes = i.strokes;
    k.meaning = i.meaning;
    k.grade = i.grade == "S" ? 6 : static_cast<int>(std::stoul(i.grade)) - 1;
    add(k);
  }
  for (auto& i : d.linked) linked(i.second, LinkedJinmei, i.first);
  {
    // an old name shared by several Jouyou belongs to the one that sorts first
    std::map<S, V> byName;
    for (auto& i : d.jouyou) byName[i.name] = i.old;
    for (auto& i : byName)
      for (auto& j : i.second)
        if (!m.find(j)) linked(j, LinkedOld, i.first);
  }
  for (auto& i : d.jinmei) {
    K k;
    official(i, k);
    k.type = Jinmei;
    k.reason = index(ReasonNames, i.reason);
    *k.extraInfo += " [" + i.reason + "]";
    if (const auto* u{findUcd(d, i.name)}; u) k.meaning = u->meaning;
    add(k);
    for (auto& j : i.old) linked(j, LinkedJinmei, i.name);
  }
  for (auto& i : d.extra) {
    K k;
    k.name = i.name;
    k.type = Extra;
    k.radical = get(radical, i.radical, 0U);
    k.strokes = i.strokes;
    k.meaning = i.meaning;
    k.reading = i.reading;
    k.number = i.number;
    k.extraInfo = "#" + num(i.number);
    if (const auto* u{findUcd(d, i.name)}; u && !u->links.empty()) {
      if (traditional(*u))
        k.old = u->links;
      else
        k.newName = u->links[0];
    }
    add(k);
  }
  const auto other{[&](const S& name, Type t, const UcdRow* u) {
    K k;
    k.name = name;
    k.type = t;
    if (u) {
      k.meaning = u->meaning;
      k.reading = ucdReading(*u);
      if (traditional(*u))
        k.old = u->links;
      else if (!u->links.empty())
        k.newName = u->links[0];
      k.linkedReadings = u->linkType.ends_with("*");
    }
    if (t == Frequency) {
      k.freq = get(freq, name, 0U);
      for (auto& i : d.freqReadings)
        if (i.first == name) k.reading = i.second;
    }
    add(k);
  }};
  for (size_t i{}; i < 5; ++i) m.levels[i] = d.levels[i];
  for (auto& i : d.freq)
    if (!m.find(i)) other(i, Frequency, findUcd(d, i));
  for (auto& i : d.freq) m.freq.push_back(m.find(i)->name);
  for (size_t i{}; i < 12; ++i)
    for (auto& j : d.kyus[i]) {
      if (!m.find(j)) other(j, Kentei, findUcd(d, j));
      m.kyus[i].push_back(m.find(j)->name);
    }
  for (auto& i : d.ucd)
    if (!m.find(i.name)) other(i.name, Ucd, &i);
  return m;
}

// ---- generation

struct Options {
  unsigned maxJouyou{10}, maxJinmei{5}, maxExtra{5}, maxOther{12};
  bool many{}; // use a lot of 'Frequency' Kanji to fill all buckets
  bool manyOfficial{}; // more Jouyou than fit in a small list, most at one level
};

class Maker {
public:
  explicit Maker(pbt::Gen& x) : g{x} {}

  Dict make(const Options& o = {}) {
    Dict d;
    radicals(d);
    const auto nJ{o.manyOfficial ? 2100 + g.below(500) : g.size(o.maxJouyou)}, nN{g.size(o.maxJinmei)}, nX{g.size(o.maxExtra)};
    V officials, listable; // allowed in level lists, in frequency and Kyu lists
    for (uint32_t i{}; i < nJ; ++i) {
      auto r{row(d, i + 1, o.manyOfficial && i > 20 ? ref::enc(0x7000 + i) : S{})};
      r.grade = g.pick({"1", "2", "3", "4", "5", "6", "S"});
      ucd(d, r.name, [&](UcdRow& u) {
        u.joyo = true;
        if (u.meaning.empty()) u.meaning = "m";
      });
      officials.push_back(r.name);
      d.jouyou.push_back(r);
    }
    // names of all old forms (to be able to share them)
    V oldNames;
    for (auto& r : d.jouyou) {
      for (auto n{g.chance(1, 20) ? 3 + g.below(3) : g.weighted({4, 3, 1})}; n; --n) {
        if (!oldNames.empty() && g.chance(1, 12)) {
          auto& s{g.pick(oldNames)};
          if (std::find(r.old.begin(), r.old.end(), s) == r.old.end()) r.old.push_back(s);
          continue;
        }
        const auto s{g.chance(1, 4) ? variant(d, r.name) : fresh()};
        if (s.empty()) continue;
        const auto inLinked{g.boolean()};
        // the Jouyou file can use the compatibility name for a linked variant
        r.old.push_back(hasVS(s) && inLinked && g.boolean() ? d.ucd.back().name : s);
        oldNames.push_back(r.old.back());
        if (inLinked) d.linked.emplace_back(r.name, s);
        if (!hasVS(s)) {
          link(d, s, r.name, inLinked);
          listable.push_back(s);
        }
      }
    }
    // official variants that the Jouyou file doesn't list as 'old'
    if (nJ && g.chance(1, 3)) {
      const auto s{fresh()};
      auto& n{g.pick(d.jouyou).name};
      d.linked.emplace_back(n, s);
      link(d, s, n, true);
      listable.push_back(s);
    }
    g.shuffle(d.linked);
    for (uint32_t i{}; i < nN; ++i) {
      auto r{row(d, i + 1)};
      r.strokes = 0;
      r.meaning.clear();
      r.reason = g.pick(ReasonNames);
      ucd(d, r.name, [&](UcdRow& u) {
        u.jinmei = true;
        if (g.chance(1, 4)) setLinks(u, true);
      });
      officials.push_back(r.name);
      d.jinmei.push_back(r);
    }
    for (auto& r : d.jinmei)
      for (auto n{g.chance(1, 20) ? 2 + g.below(4) : g.below(4) == 0}; n; --n) {
        const auto s{g.chance(1, 4) ? variant(d, r.name) : fresh()};
        if (s.empty()) continue;
        r.old.push_back(s);
        if (!hasVS(s)) {
          link(d, s, r.name, true);
          listable.push_back(s);
        }
      }
    listable.insert(listable.end(), officials.begin(), officials.end());
    V kyuable{listable};
    for (uint32_t i{}; i < nX; ++i) {
      auto r{row(d, i + 1)};
      r.year = 0;
      other(d, r.name);
      d.extra.push_back(r);
      kyuable.push_back(r.name);
    }
    // level lists
    const auto most{g.below(5)}; // with many Kanji most are at this level
    for (auto& i : officials)
      if (o.manyOfficial)
        d.levels[g.chance(1, 20) ? g.below(5) : most].push_back(i);
      else if (g.chance(2, 3))
        d.levels[g.below(5)].push_back(i);
    for (auto& i : d.levels) g.shuffle(i);
    // frequency list
    const auto nF{o.many ? 2400 + g.below(500) : g.size(o.maxOther)};
    for (auto& i : listable)
      if (g.boolean()) d.freq.push_back(i);
    for (uint32_t i{}; i < nF; ++i) {
      const auto s{o.many ? ref::enc(0x6000 + i) : fresh()};
      if (o.many) {
        UcdRow u;
        u.name = s;
        u.block = "B1";
        u.version = "1.1";
        u.morohashi = "7";
        u.strokes = 1 + i % 20;
        if (!used.insert(s).second) continue;
        d.ucd.push_back(u);
      } else
        other(d, s);
      d.freq.push_back(s);
      kyuable.push_back(s);
      if (!o.many && g.chance(1, 3)) d.freqReadings.emplace_back(s, reading());
    }
    if (g.chance(1, 4)) d.freqReadings.emplace_back(fresh(), reading()); // not used
    if (!o.many) g.shuffle(d.freq);
    // Kyu lists
    for (auto n{g.size(o.maxOther)}; n; --n) {
      const auto s{fresh()};
      other(d, s);
      kyuable.push_back(s);
      d.kyus[g.below(12)].push_back(s);
      kyuable.pop_back();
    }
    for (size_t i{}; i < kyuable.size() && i < 200; ++i)
      if (g.chance(2, 3)) d.kyus[g.below(12)].push_back(kyuable[i]);
    for (auto& i : d.kyus) g.shuffle(i);
    // the rest
    for (auto n{g.size(o.maxOther)}; n; --n) other(d, fresh());
    if (g.boolean()) g.shuffle(d.ucd);
    return d;
  }

  S fresh() {
    for (int n{}; n < 50; ++n) {
      unsigned c{};
      switch (g.weighted({8, 2, 2, 1})) {
      case 0: c = 0x4e00 + g.below(0x5200); break;
      case 1: c = 0x3400 + g.below(0x1980); break;
      case 2: c = 0x20000 + g.below(0xa000); break;
      default: c = 0xfa0e + g.below(0x1a); break;
      }
      if (auto s{ref::enc(c)}; used.insert(s).second) return s;
    }
    throw pbt::Discard{};
  }

  S reading() {
    static const V parts{"ア", "イ", "カン", "シュウ", "あ-う", "つと-める", "ひと", "み", "コク", "え"};
    V v;
    for (auto n{1 + g.below(3)}; n; --n) v.push_back(g.pick(parts));
    return join(v, "、");
  }

  S meaning() {
    static const V parts{"one", "big", "sub-", "push open", "tree (old)", "to be, or not"};
    return g.pick(parts);
  }

  pbt::Gen& g;
  std::set<S> used, jinmeiLinks;

private:
  void radicals(Dict& d) {
    std::set<S> names;
    for (auto n{1 + g.size(g.chance(1, 10) ? 213 : 12)}; n; --n) {
      Rad r;
      const auto name{[&]() -> S {
        for (int i{}; i < 60; ++i) {
          const auto s{ref::enc(g.chance(1, 4) ? 0x2e9b + g.below(0x50) : 0x4e00 + g.below(0x400))};
          if (names.insert(s).second) return s;
        }
        throw pbt::Discard{};
      }};
      r.name = name();
      for (auto i{g.weighted({4, 2, 1})}; i; --i) r.alt.push_back(name());
      r.longName = r.name + "部（" + g.pick({"いちぶ", "ぼうぶ", "ちゅぶ"}) + "）";
      r.reading = g.pick({"イチ", "ぼう たてぼう", "てん"});
      d.radicals.push_back(r);
    }
  }

  Row row(const Dict& d, unsigned number, const S& name = {}) {
    Row r;
    r.number = g.chance(1, 8) ? g.below(65536) : number;
    r.name = name.empty() || !used.insert(name).second ? fresh() : name;
    r.radical = g.pick(d.radicals).name;
    r.strokes = 1 + (g.chance(1, 8) ? g.below(64) : g.below(8));
    if (g.chance(1, 3)) r.year = g.chance(1, 5) ? 1 + g.below(65535) : 1950 + g.below(70);
    r.meaning = meaning();
    r.reading = reading();
    return r;
  }

  template <typename F> UcdRow& ucd(Dict& d, const S& name, F f) {
    UcdRow u;
    u.name = name;
    u.block = "B" + num(g.below(4));
    u.version = g.pick({"1.1", "3.0", "13.0"});
    u.radical = 1 + g.below(static_cast<uint32_t>(d.radicals.size()));
    u.strokes = 1 + (g.chance(1, 8) ? g.below(64) : g.below(8));
    if (g.chance(1, 5)) {
      u.strokes = 2 + g.below(8);
      u.vstrokes = 3 + (g.chance(1, 6) ? g.below(31) : g.below(9));
      if (u.strokes == u.vstrokes) ++u.strokes;
    }
    if (g.chance(2, 3)) u.pinyin = g.pick({"yī", "dīng", "kǎo", "shàng", "xià", "bù", "lǜ", "zhuàng", "ń", "e"});
    if (g.chance(1, 2))
      u.morohashi = num(1 + g.below(g.boolean() ? 6 : 49964));
    if (!u.morohashi.empty() && g.chance(1, 4))
      u.morohashi += g.pick({"P", "PP"});
    else if (!u.morohashi.empty() && g.chance(1, 6))
      u.morohashi = "H" + u.morohashi;
    if (g.chance(1, 2)) {
      u.nelson = num(1 + g.below(g.boolean() ? 5 : 7107));
      while (g.chance(1, 3)) {
        const auto s{num(1 + g.below(7107))};
        if (("," + u.nelson + ",").find("," + s + ",") == S::npos) u.nelson += "," + s;
      }
    }
    for (auto c : S{"GHJKTV"})
      if (g.boolean()) u.sources.insert(g.chance(1, 4) ? 0 : u.sources.size(), 1, c);
    u.jsource = g.chance(1, 2) ? "J0-3021" : "";
    if (g.chance(3, 4)) u.meaning = meaning();
    u.on = words({"ichi", "kan", "shuu", "kyou", "a", "tetsu", "jiku", "en'i"});
    u.kun = words({"hito", "tomaru", "yonbun", "atsui", "a", "shimo", "on'yomi", "matto"});
    f(u);
    if (u.on.empty() && u.kun.empty() && u.morohashi.empty() && u.jsource.empty()) u.jsource = "J1-3021";
    d.ucd.push_back(u);
    return d.ucd.back();
  }

  S words(std::initializer_list<const char*> l) {
    V v;
    for (auto n{g.weighted({2, 4, 2})}; n; --n) {
      S s{g.pick(l)};
      if (g.boolean())
        for (auto& c : s)
          if (c >= 'a' && c <= 'z') c = static_cast<char>(c - 32);
      v.push_back(s);
    }
    return join(v, " ");
  }

  void setLinks(UcdRow& u, bool jinmei) {
    for (auto n{1 + g.below(3)}; n; --n) {
      const auto s{target()};
      if (!jinmei || jinmeiLinks.insert(s).second) u.links.push_back(s);
    }
    if (!u.links.empty()) u.linkType = g.pick(LinkTypeNames);
  }

  // something a link can point to, need not be loaded
  S target() {
    if (!used.empty() && g.boolean()) {
      const auto s{g.pick(used)};
      if (!hasVS(s)) return s;
    }
    return ref::enc(0x4e00 + g.below(0x5200));
  }

  void other(Dict& d, const S& name) {
    ucd(d, name, [&](UcdRow& u) {
      if (g.chance(1, 3))
        setLinks(u, false);
      else if (g.chance(1, 10)) {
        u.jinmei = true;
        if (g.boolean()) setLinks(u, true);
      }
    });
  }

  // UCD entry for 'name' which is an old form of 'to'
  void link(Dict& d, const S& name, const S& to, bool jinmei) {
    ucd(d, name, [&](UcdRow& u) {
      u.jinmei = jinmei || g.chance(1, 5);
      S t{to};
      if (u.jinmei)
        for (int n{}; !jinmeiLinks.insert(t).second; t = target())
          if (++n > 50) throw pbt::Discard{};
      if (jinmei || g.boolean()) {
        u.links = {t};
        u.linkType = g.pick(LinkTypeNames);
      }
    });
  }

  // a form of 'name' with a variation selector, empty if not possible
  S variant(Dict& d, const S& name) {
    if (jinmeiLinks.contains(name) || hasVS(name)) return {};
    for (int n{}; n < 20; ++n) {
      const auto c{ref::enc(0xfa30 + g.below(0x3b))};
      if (!used.insert(c).second) continue;
      const auto s{name + ref::enc(0xfe00 + (g.boolean() ? 0 : g.below(16)))};
      if (!used.insert(s).second) return {};
      jinmeiLinks.insert(name);
      ucd(d, c, [&](UcdRow& u) {
        u.jinmei = true;
        u.links = {name};
        u.linkType = g.pick({"Jinmei*", "Compatibility", "Jinmei"});
      });
      return s;
    }
    return {};
  }
};

// ---- the data in the repository, with UCD rows made up for what it needs

inline S slurp(const std::filesystem::path& p) {
  std::ifstream f{p, std::ios::binary};
  if (!f) pbt::fail("harness: can't read " + p.string());
  std::ostringstream o;
  o << f.rdbuf();
  return o.str();
}

inline std::vector<std::map<S, S>> readTable(const std::filesystem::path& p) {
  std::vector<std::map<S, S>> r;
  V header;
  for (auto& line : split(slurp(p), '\n')) {
    auto v{split(line, '\t')};
    if (header.empty()) {
      header = v;
      continue;
    }
    v.resize(header.size());
    std::map<S, S> m;
    for (size_t i{}; i < v.size(); ++i) m[header[i]] = v[i];
    r.push_back(m);
  }
  return r;
}

inline V readList(const std::filesystem::path& p) {
  V r;
  std::istringstream is{slurp(p)};
  for (S s; is >> s;) r.push_back(s);
  return r;
}

inline Dict shipped(const std::filesystem::path& dir) {
  Dict d;
  const auto number{[](const S& s) { return s.empty() ? 0U : static_cast<unsigned>(std::stoul(s)); }};
  for (auto& i : readTable(dir / "radicals.txt")) {
    auto v{split(i["Name"], ' ')};
    d.radicals.push_back({v[0], V(v.begin() + 1, v.end()), i["LongName"], i["Reading"]});
  }
  std::map<S, unsigned> radical;
  for (size_t i{}; i < d.radicals.size(); ++i) radical[d.radicals[i].name] = static_cast<unsigned>(i) + 1;
  const auto rows{[&](const S& f) {
    std::vector<Row> r;
    for (auto& i : readTable(dir / f))
      r.push_back({number(i["Number"]), i["Name"], i["Radical"], split(i["OldNames"], ','), number(i["Year"]),
          number(i["Strokes"]), i["Grade"], i["Meaning"], i["Reading"], i["Reason"]});
    return r;
  }};
  d.jouyou = rows("jouyou.txt");
  d.jinmei = rows("jinmei.txt");
  d.extra = rows("extra.txt");
  for (auto& i : readTable(dir / "frequency-readings.txt")) d.freqReadings.emplace_back(i["Name"], i["Reading"]);
  for (auto& i : split(slurp(dir / "linked-jinmei.txt"), '\n')) {
    const auto v{split(i, '\t')};
    d.linked.emplace_back(v.at(0), v.at(1));
  }
  for (size_t i{}; i < 5; ++i) d.levels[i] = readList(dir / "jlpt" / (LevelFiles[i] + ".txt"));
  for (size_t i{}; i < 12; ++i) d.kyus[i] = readList(dir / "kentei" / (KyuFiles[i] + ".txt"));
  d.freq = readList(dir / "frequency.txt");
  d.meaningGroups = slurp(dir / "meaning-groups.txt");
  d.patternGroups = slurp(dir / "pattern-groups.txt");
  for (auto i : {"g1", "g2", "g3", "g4", "g5", "g6", "other"})
    d.jukugo[i] = slurp(dir / "jukugo" / (S{i} + ".txt"));
  // UCD
  std::set<S> done, links;
  unsigned seed{1};
  // compatibility name for a name with a variation selector: the old name in
  // the same row if it is a compatibility character, else any unused one
  std::set<unsigned> usedCompat;
  const auto isCompat{[](unsigned c) { return c >= 0xf900 && c <= 0xfaff; }};
  for (auto* rows : {&d.jouyou, &d.jinmei})
    for (auto& i : *rows)
      for (auto& j : i.old)
        if (isCompat(codeOf(j))) usedCompat.insert(codeOf(j));
  unsigned nextCompat{0xf900};
  const auto compatName{[&](const S& to) {
    for (auto& i : d.jouyou)
      if (i.name == to)
        for (auto& j : i.old)
          if (isCompat(codeOf(j))) return j;
    while (usedCompat.contains(nextCompat)) ++nextCompat;
    return ref::enc(nextCompat++);
  }};
  const auto row{[&](const S& name) -> UcdRow& {
    UcdRow u;
    u.name = name;
    u.block = "B";
    u.version = "1.1";
    seed = seed * 1103515245U + 12345U;
    const auto r{seed >> 8};
    u.radical = 1 + r % 214;
    u.strokes = 1 + (r >> 8) % 30;
    u.morohashi = num(static_cast<unsigned>(d.ucd.size()) + 1);
    if (r % 3 == 0) u.nelson = num(1 + r % 5446);
    u.sources = "J";
    u.pinyin = r % 2 ? "yī" : "èr";
    u.meaning = "meaning" + num(r % 100);
    u.on = r % 5 ? "KAN" : "";
    u.kun = r % 7 ? "hito" : "";
    d.ucd.push_back(u);
    return d.ucd.back();
  }};
  const auto linkedRow{[&](const S& name, const S& to) {
    if (!done.insert(name).second) return;
    const auto n{hasVS(name) ? compatName(to) : name};
    if (hasVS(name)) done.insert(n);
    auto& u{row(n)};
    u.jinmei = true;
    auto t{hasVS(name) ? base(name) : to};
    while (!links.insert(t).second) t = ref::enc(codeOf(t) + 1);
    u.links = {t};
    u.linkType = "Jinmei*";
  }};
  // forms with variation selectors come first since they depend on the link
  for (int pass{}; pass < 2; ++pass) {
    const auto todo{[&](const S& s) { return hasVS(s) == !pass; }};
    for (auto& i : d.linked)
      if (todo(i.second)) linkedRow(i.second, i.first);
    for (auto& i : d.jinmei)
      for (auto& j : i.old)
        if (todo(j)) linkedRow(j, i.name);
    for (auto& i : d.jouyou)
      for (auto& j : i.old)
        if (todo(j)) linkedRow(j, i.name);
  }
  for (auto& i : d.jouyou)
    if (done.insert(i.name).second) row(i.name).joyo = true;
  for (auto& i : d.jinmei)
    if (done.insert(i.name).second) row(i.name).jinmei = true;
  const auto rest{[&](const S& s) {
    if (hasVS(s) || !done.insert(s).second) return;
    auto& u{row(s)};
    if (u.strokes % 6 == 0) {
      u.links = {ref::enc(0x4e00 + u.strokes * 7)};
      u.linkType = LinkTypeNames[u.strokes % LinkTypeNames.size()];
    }
  }};
  for (auto& i : d.extra) rest(i.name);
  for (auto& i : d.freq) rest(i);
  for (auto& i : d.levels)
    for (auto& j : i) rest(j);
  for (auto& i : d.kyus)
    for (auto& j : i) rest(j);
  // group members (with parents of families)
  for (auto* file : {&d.meaningGroups, &d.patternGroups})
    for (auto& line : split(*file, '\n')) {
      const auto v{split(line, '\t')};
      if (v.size() < 3 || v[0] == "Number") continue;
      if (const auto i{v[1].find("：")}; file == &d.patternGroups && i != S::npos && i) rest(v[1].substr(0, i));
      for (auto& i : split(v[2], ',')) rest(i);
    }
  for (unsigned i{0x20000}; i < 0x20080; ++i) rest(ref::enc(i));
  return d;
}

} // namespace dict
