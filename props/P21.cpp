// libs: quiz
#include "kload.h"

#include <kt_quiz/JukugoData.h>

using namespace kanji_tools;
using dict::S, dict::V;

const pbt::Info pbt::info{"P21",
    "compound-word files (all grades and 'other', few Kanji so that they "
    "repeat within and across words, kana, other letters and variation "
    "selectors in names, duplicates) compared with the generated words "
    "through find, the debug report of the same, files with one faulty entry "
    "and the shipped files; non-trivial = a Kanji with two words or a fault, "
    "distinct by files"};

namespace {

const V Files{"g1", "g2", "g3", "g4", "g5", "g6", "other"};

struct Word {
  S name, reading;
  size_t file{};
  bool operator==(const Word&) const = default;
};

std::ostream& operator<<(std::ostream& o, const Word& w) {
  return o << w.name << '(' << w.reading << ") " << Files[w.file];
}

bool kanji(ref::Code c) { return ref::in(c, ref::CommonKanji) || ref::in(c, ref::RareKanji); }

// distinct Kanji of a name (with variation selectors)
V kanjiOf(const S& name) {
  V r;
  const auto c{ref::decode(name)};
  for (size_t i{}; i < c.size(); ++i)
    if (kanji(c[i])) {
      auto s{ref::enc(c[i])};
      if (i + 1 < c.size() && ref::isVS(c[i + 1])) s += ref::enc(c[i + 1]);
      if (std::find(r.begin(), r.end(), s) == r.end()) r.push_back(s);
    }
  return r;
}

size_t kanjiCount(const S& name) {
  size_t r{};
  for (auto c : ref::decode(name)) r += kanji(c);
  return r;
}

struct Maker {
  pbt::Gen& g;
  V pool;

  explicit Maker(pbt::Gen& x) : g{x} {
    static const V some{"日", "本", "人", "一", "大", "㐂", "𠮟", "侮︀", "侮", "﨑", "⺩"};
    for (auto n{2 + g.longSize(6)}; n; --n)
      pool.push_back(g.boolean() ? g.pick(some) : ref::enc(0x4e00 + g.below(0x5200)));
  }
  S name(size_t kanji) {
    static const V other{"の", "り", "カ", "ー", "々", "ヶ", "ａ", "x", "7", "...", "。。。。。。。"};
    S r;
    if (g.chance(1, 8)) r += g.pick(other);
    for (; kanji; --kanji) {
      r += g.pick(pool);
      while (g.chance(1, 5)) r += g.pick(other);
    }
    return r;
  }
  S reading() {
    S r;
    for (auto n{1 + g.below(3)}; n; --n) r += g.pick({"あ", "にち", "ほん", "じゃ", "っ", "ー", "ぷ", "ゐ", "ん", "ゔ"});
    return r;
  }
};

struct Data {
  std::vector<Word> lines[7]; // in order, with duplicates
  std::vector<Word> unique;   // in order of files
  S text[7];
  std::map<S, std::vector<Word>> index;

  void finish(pbt::Gen& g, const V& pool) {
    for (size_t f{}; f < 7; ++f) {
      text[f].clear();
      for (size_t i{}; i < lines[f].size(); ++i) {
        auto& w{lines[f][i]};
        if (f < 6)
          text[f] += w.name + " (" + w.reading + ")\n";
        else {
          text[f] += (i && g.boolean() ? "" : (i ? "\n" : "") + g.pick(pool) + g.pick({"", "", " 12", " (ア)", " ..", " x)"}) + " ...") + ' ' + w.name + '(' + w.reading + ')';
          if (i + 1 == lines[f].size()) text[f] += '\n';
        }
      }
      for (auto& w : lines[f]) {
        if (std::find(unique.begin(), unique.end(), w) != unique.end()) continue;
        unique.push_back(w);
        for (auto& k : kanjiOf(w.name)) index[k].push_back(w);
      }
    }
  }
};

Data make(pbt::Gen& g, Maker& m, uint32_t max) {
  Data d;
  std::map<std::pair<S, S>, size_t> file;
  V readings;
  for (int n{}; n < 4; ++n) readings.push_back(m.reading());
  for (auto n{g.longSize(max)}; n; --n) {
    Word w{m.name(2 + g.weighted({6, 3, 1})), g.boolean() ? g.pick(readings) : m.reading(), g.below(7)};
    if (g.chance(1, 5) && !file.empty()) { // same name again
      const auto& [k, f]{g.pick(file)};
      w.name = k.first;
      if (g.boolean()) w.reading = k.second;
    }
    // the same word must be in the same file
    const auto i{file.emplace(std::pair{w.name, w.reading}, w.file)};
    w.file = i.first->second;
    d.lines[w.file].push_back(w);
  }
  d.finish(g, m.pool);
  return d;
}

std::vector<Word> words(const JukugoData::List& l) {
  std::vector<Word> r;
  for (auto& i : l)
    r.push_back({i->name(), i->reading(), i->grade() == KanjiGrades::S ? 6 : static_cast<size_t>(i->grade())});
  return r;
}

void check(const JukugoData& j, const Data& d) {
  for (auto& i : d.index) {
    const auto& l{j.find(i.first)};
    PBT_EQ(words(l), i.second, "words for ", i.first);
    for (auto& w : l) PBT_EQ(w->nameAndReading(), w->name() + "（" + w->reading() + "）", i.first);
  }
}

// words are the same object for each of their Kanji
void identity(const JukugoData& j, const Data& d) {
  std::map<std::pair<S, S>, const Jukugo*> seen;
  for (auto& i : d.index)
    for (auto& w : j.find(i.first)) {
      const auto s{seen.emplace(std::pair{w->name(), w->reading()}, w.get())};
      PBT_CHECK(s.first->second == w.get(), "two objects for ", w->name());
    }
  PBT_EQ(seen.size(), d.unique.size(), "number of words");
}

S show(const Data& d) {
  S r;
  for (size_t f{}; f < 7; ++f) r += "--- " + Files[f] + '\n' + d.text[f];
  return r;
}

// a small fixed dictionary: the words don't depend on it
const dict::Dict& base() {
  static const dict::Dict d{[] {
    dict::Dict r;
    r.radicals.push_back({"一", {}, "一部", "いち"});
    for (auto s : {"日", "本", "人"}) {
      dict::UcdRow u;
      u.name = s;
      u.block = u.version = u.jsource = u.meaning = "x";
      u.joyo = true;
      r.ucd.push_back(u);
      dict::Row row;
      row.name = s;
      row.radical = "一";
      row.strokes = 3;
      row.grade = "1";
      row.meaning = row.reading = "m";
      r.jouyou.push_back(row);
    }
    return r;
  }()};
  return d;
}

void write(const Data& x) {
  auto d{base()};
  for (size_t f{}; f < 7; ++f) d.jukugo[Files[f]] = x.text[f];
  dict::write(dict::files(d), dict::dataDir());
}

} // namespace

PBT_SUB(generated, 6000, 100000) {
  auto& g{c.g};
  Maker m{g};
  const auto d{make(g, m, g.chance(1, 10) ? 80 : 14)};
  c.describe(show(d));
  write(d);
  dict::Loaded l;
  const JukugoData j{l.data};
  PBT_EQ(l.err.str(), "", "no errors expected");
  check(j, d);
  identity(j, d);
  // nothing else is found
  for (int n{}; n < 8; ++n) {
    S s;
    switch (g.below(5)) {
    case 0: s = ref::enc(0x4e00 + g.below(0x5200)); break;
    case 1: s = g.pick({"", "の", "ー", "々", "x", "7", "ヶ", "ａ", " ", "("}); break;
    case 2: s = g.pick(m.pool) + g.pick(m.pool); break;
    case 3: s = g.pick(m.pool) + ref::enc(0xfe00 + g.below(16)); break;
    default: s = d.unique.empty() ? "" : g.pick(d.unique).name; break;
    }
    const auto i{d.index.find(s)};
    PBT_EQ(words(j.find(s)), i == d.index.end() ? std::vector<Word>{} : i->second, "words for ", pbt::show(s));
  }
  bool two{};
  for (auto& i : d.index) two = two || i.second.size() > 1;
  for (auto& i : d.unique)
    if (kanjiOf(i.name).size() < kanjiCount(i.name)) c.label("repeated Kanji");
  size_t lines{};
  for (auto& i : d.lines) lines += i.size();
  if (lines > d.unique.size()) c.label("duplicate lines");
  if (two) c.nontrivial(show(d));
}

PBT_SUB(report, 1500, 25000) {
  auto& g{c.g};
  Maker m{g};
  const auto d{make(g, m, 40)};
  const S option{g.pick({"-info", "-debug"})};
  c.describe(option + '\n' + show(d));
  write(d);
  dict::Loaded l{V{option}};
  l.out.str("");
  const JukugoData j{l.data};
  check(j, d);
  const auto out{l.out.str()};
  for (size_t f{}; f < 7; ++f) {
    const auto n{std::count_if(d.unique.begin(), d.unique.end(), [&](auto& i) { return i.file == f; })};
    const auto s{">>> Loaded " + std::to_string(n) + " for Grade: " + dict::GradeNames[f] + "\n"};
    PBT_CHECK(out.find(s) != S::npos, "'", s, "' not in: ", out);
  }
  const auto s{"Total Kanji with Jukugo: " + std::to_string(d.index.size()) + ", unique jukugo: " +
               std::to_string(d.unique.size()) + "\n"};
  PBT_CHECK(out.find(s) != S::npos, "'", s, "' not in: ", out);
  // per type: count and up to 12 examples
  std::map<S, V> types;
  for (auto& i : d.index) types[l->findByName(i.first) ? "Jouyou" : "None"].push_back(i.first);
  for (auto& i : types) {
    auto e{i.second};
    if (e.size() > 12) e.resize(12);
    const auto t{i.first + ": " + std::to_string(i.second.size()) + " (" + dict::join(e, " ") + ")\n"};
    PBT_CHECK(out.find(t) != S::npos, "'", t, "' not in: ", out);
  }
  if (d.unique.size() > 2) c.nontrivial(show(d));
}

// one bad entry
PBT_SUB(faults, 4000, 60000) {
  auto& g{c.g};
  Maker m{g};
  auto d{make(g, m, 10)};
  const auto f{g.below(7)};
  const bool other{f == 6};
  const S open{other ? "(" : " ("};
  auto name{m.name(2)};
  const auto reading{m.reading()};
  // not the same as an existing one
  for (auto& i : d.unique)
    if (i.name == name) throw pbt::Discard{};
  S what, msg, entry;
  switch (const auto n{g.below(other ? 11 : 12)}; n < 9 || !other ? n : n + 3) {
  case 0: {
    what = "no Kanji";
    const S n{g.pick({"あい", "カナ", "x", "ー", "Ａ", "。"})};
    entry = n + open + reading + ")";
    msg = "'" + n + "' contains no Kanji";
    break;
  }
  case 1: {
    what = "one Kanji";
    const auto n{m.name(1)};
    entry = n + open + reading + ")";
    msg = "'" + n + "' must contain two or more Kanji";
    break;
  }
  case 2: {
    what = "reading not Hiragana";
    auto r{reading};
    if (g.boolean()) r = "";
    r += g.pick({"カ", "漢", "Ａ", "。", "（", "ａ"});
    if (g.boolean()) r += "い";
    entry = name + open + r + ")";
    msg = "'" + name + "' reading must be all Hiragana";
    break;
  }
  case 3:
    what = "no open bracket";
    entry = name + (other ? "" : " ") + reading + ")";
    msg = "failed to find open bracket";
    break;
  case 4:
    what = "no close bracket";
    entry = name + open + reading;
    msg = "failed to find close bracket";
    break;
  case 5:
    what = "wide brackets";
    entry = name + (other ? "" : " ") + "（" + reading + "）";
    msg = "failed to find open bracket";
    break;
  case 6:
    what = "brackets swapped";
    entry = other ? ")" + name + "(" + reading : name + " )" + reading + "(";
    msg = "bracket should"; // either way of saying that
    break;
  case 7: {
    what = "in another file";
    if (d.unique.empty()) throw pbt::Discard{};
    const auto w{g.pick(d.unique)};
    if (w.file == f) throw pbt::Discard{};
    entry = w.name + open + w.reading + ")";
    msg = "'" + w.name + "' found in more than one file";
    break;
  }
  case 8:
    if (other) {
      what = "no dots";
      entry = "";
      msg = "line is missing '...'";
    } else {
      what = "empty line";
      entry = "";
      msg = "failed to find open bracket";
    }
    break;
  case 9:
    what = "no space";
    entry = name + '(' + reading + ')';
    msg = "open bracket should follow a space";
    break;
  case 11:
    what = "no name";
    entry = g.pick({"(", " ("}) + reading + ')';
    msg = "open bracket should follow a space";
    break;
  case 12:
    what = "no name in line";
    entry = '(' + reading + ')';
    msg = "contains no Kanji";
    break;
  case 13:
    what = "two spaces";
    entry = " " + name + '(' + reading + ')';
    msg = "failed to find open bracket";
    break;
  default:
    what = "text after bracket";
    entry = name + " (" + reading + ")" + g.pick({" ", "x", "、", " (あ)", "\r"});
    msg = "close bracket should be the last";
  }
  auto lines{dict::split(d.text[f], '\n')};
  const auto at{g.below(static_cast<uint32_t>(lines.size()) + 1)};
  S line{entry};
  if (other) {
    if (what == "no dots")
      line = g.pick(m.pool) + g.pick({" ..", "", " . . .", " …"}) + ' ' + name + '(' + reading + ')';
    else {
      const auto ok{m.name(2)};
      line = g.pick(m.pool) + " ... " + (g.boolean() ? ok + "(ん) " : "") + entry;
      for (auto& i : d.unique)
        if (i.name == ok) throw pbt::Discard{};
      if (ok == name) throw pbt::Discard{};
      if (g.boolean()) line += " " + ok + "(んん)";
    }
  }
  if (what == "no dots" && line.find("...") != S::npos) throw pbt::Discard{};
  lines.insert(lines.begin() + at, line);
  d.text[f].clear();
  for (auto& i : lines) d.text[f] += i + '\n';
  c.describe(what + " in " + Files[f] + "\n" + show(d));
  write(d);
  dict::Loaded l;
  S error;
  try {
    const JukugoData j{l.data};
  } catch (const DomainError& e) {
    error = e.what();
  }
  PBT_CHECK(!error.empty(), what, ": no error");
  PBT_CHECK(error.find(msg) != S::npos, what, ": '", error, "' doesn't contain '", msg, "'");
  // a word in two files is found when the second is loaded
  auto where{"line: " + std::to_string(at + 1) + ", file: " + Files[f] + ".txt"};
  if (what != "in another file") PBT_CHECK(error.find(where) != S::npos, what, ": '", error, "' doesn't contain '", where, "'");
  c.label(what);
  c.nontrivial(what + show(d));
}

// all words of the repository
PBT_ENUM(shipped, 1) {
  c.g.below(1);
  Data d;
  auto b{base()};
  for (size_t f{}; f < 7; ++f) {
    const auto text{dict::slurp("/repo/data/jukugo/" + Files[f] + ".txt")};
    b.jukugo[Files[f]] = text;
    for (auto line : dict::split(text, '\n')) {
      if (f == 6) line = line.substr(line.find("... ") + 4);
      // words of a line of 'other' are separated by spaces, others have one
      size_t i{};
      while (i < line.size()) {
        const auto o{line.find('(', i)}, e{line.find(')', i)};
        auto name{line.substr(i, o - i)};
        if (f < 6) name.pop_back();
        d.lines[f].push_back({name, line.substr(o + 1, e - o - 1), f});
        i = e + 2;
      }
    }
  }
  std::set<std::tuple<S, S, size_t>> seen;
  for (size_t f{}; f < 7; ++f)
    for (auto& w : d.lines[f])
      if (seen.emplace(w.name, w.reading, f).second) {
        d.unique.push_back(w);
        for (auto& k : kanjiOf(w.name)) d.index[k].push_back(w);
      }
  c.describe("shipped files");
  dict::write(dict::files(b), dict::dataDir());
  dict::Loaded l;
  const JukugoData j{l.data};
  check(j, d);
  identity(j, d);
  PBT_CHECK(d.unique.size() > 10000, "only ", d.unique.size(), " words");
  c.nontrivial("shipped");
}
