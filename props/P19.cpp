// libs: kanji
#include "kload.h"

using namespace kanji_tools;
using dict::S, dict::V;

const pbt::Info pbt::info{"P19",
    "every Kanji of generated data directories (and of the shipped data) "
    "compared with a reference built from the files: all attributes, links to "
    "and from other forms, Unicode records, and 'info' under random and all "
    "field masks; readings from random Rōmaji compared with a reference "
    "converter; non-trivial = a Kanji with old or new forms or links, or "
    "Rōmaji readings, distinct by result"};

namespace {

enum Field : unsigned { Rad = 1, Strk = 2, Pin = 4, Grade = 8, Level = 16, Freq = 32, New = 64, Old = 128, Kyu = 256, All = 511 };

S expectedInfo(const dict::Dict& d, const dict::K& k, unsigned mask) {
  V r;
  const auto name{[](const V& v, int i) { return v[static_cast<size_t>(i)]; }};
  if (mask & Rad) r.push_back("Rad " + d.radicals[k.radical - 1].name + "(" + std::to_string(k.radical) + ")");
  if (mask & Strk) r.push_back("Strokes " + std::to_string(k.strokes));
  if (mask & Pin && !k.pinyin.empty()) r.push_back(k.pinyin);
  if (mask & Grade && k.grade >= 0) r.push_back(name(dict::GradeNames, k.grade));
  if (mask & Level && k.level >= 0) r.push_back(name(dict::LevelNames, k.level));
  if (mask & Freq && k.freq) r.push_back("Frq " + std::to_string(k.freq));
  const S star{k.linkedReadings ? "*" : ""};
  if (k.newName) {
    if (mask & New) r.push_back("New " + *k.newName + star);
  } else if (mask & Old && !k.old.empty()) {
    auto v{k.old};
    v[0] += star;
    r.push_back("Old " + dict::join(v, "／"));
  }
  if (mask & Kyu && k.kyu >= 0) r.push_back(name(dict::KyuNames, k.kyu));
  return dict::join(r, ", ");
}

S square(const S& name) { return "[" + dict::hex(dict::codeOf(name)) + "] " + name; }

void ucdRecord(const Ucd& u, const dict::UcdRow& e) {
  PBT_EQ(u.name(), e.name, "name");
  PBT_EQ(u.code(), dict::codeOf(e.name), e.name);
  PBT_EQ(u.codeAndName(), square(e.name), e.name);
  PBT_EQ(u.block().name(), e.block, e.name);
  PBT_EQ(u.version().name(), e.version, e.name);
  PBT_EQ(u.pinyin() ? u.pinyin().name() : "", e.pinyin, e.name);
  PBT_EQ(u.radical(), e.radical, e.name);
  PBT_EQ(u.strokes().value(), e.strokes, e.name);
  PBT_EQ(u.strokes().variant(), e.vstrokes, e.name);
  PBT_EQ(u.strokes().hasVariant(), e.vstrokes != 0, e.name);
  PBT_EQ(u.strokes().toString(true), std::to_string(e.strokes) + (e.vstrokes ? "/" + std::to_string(e.vstrokes) : ""), e.name);
  PBT_EQ(u.nelsonIds(), e.nelson, e.name);
  auto sources{e.sources};
  std::sort(sources.begin(), sources.end());
  PBT_EQ(u.sources(), sources, e.name);
  PBT_EQ(u.jSource(), e.jsource, e.name);
  PBT_EQ(u.joyo(), e.joyo, e.name);
  PBT_EQ(u.jinmei(), e.jinmei, e.name);
  PBT_EQ(u.meaning(), e.meaning, e.name);
  PBT_EQ(u.onReading(), e.on, e.name);
  PBT_EQ(u.kunReading(), e.kun, e.name);
  V links, text;
  for (auto& i : u.links()) {
    links.push_back(i.name());
    PBT_EQ(i.code(), dict::codeOf(i.name()), "link of ", e.name);
  }
  for (auto& i : e.links) text.push_back(square(i));
  PBT_EQ(links, e.links, e.name);
  PBT_EQ(u.linkCodeAndNames(), dict::join(text, ", "), e.name);
  PBT_EQ(u.hasLinks(), !e.links.empty(), e.name);
  const auto t{dict::traditional(e)};
  PBT_EQ(u.hasTraditionalLinks(), t, e.name);
  PBT_EQ(u.hasNonTraditionalLinks(), !t && !e.links.empty(), e.name);
  PBT_EQ(u.linkedReadings(), e.linkType.ends_with("*"), e.name);
  PBT_EQ(u.linkType() == Ucd::LinkTypes::None ? S{} : toString(u.linkType()), e.linkType, e.name);
}

void attributes(const KanjiData& data, const dict::Dict& d, const dict::Model& m, const dict::K& e) {
  const auto p{data.findByName(e.name)};
  PBT_CHECK(p, "not found: ", e.name);
  auto& k{*p};
  auto& n{e.name};
  PBT_EQ(k.reading(), e.reading, n);
  PBT_EQ(k.meaning(), e.meaning, n);
  PBT_EQ(k.hasReading(), !e.reading.empty(), n);
  PBT_EQ(k.hasMeaning(), !e.meaning.empty(), n);
  PBT_EQ(k.strokes().value(), e.strokes, n);
  PBT_EQ(k.strokes().variant(), e.vstrokes, n);
  auto& r{d.radicals.at(e.radical - 1)};
  PBT_EQ(k.radical().number(), e.radical, n);
  PBT_EQ(k.radical().name(), r.name, n);
  PBT_EQ(k.radical().altForms(), r.alt, n);
  PBT_EQ(k.radical().longName(), r.longName, n);
  PBT_EQ(k.radical().reading(), r.reading, n);
  PBT_EQ(k.pinyin() ? k.pinyin().name() : "", e.pinyin, n);
  PBT_EQ(k.frequency(), e.freq, n);
  PBT_EQ(k.frequencyOrMax(), e.freq ? e.freq : 65535U, n);
  PBT_EQ(k.frequencyOrDefault(7), e.freq ? e.freq : 7U, n);
  PBT_EQ(k.year(), e.year, n);
  PBT_EQ(k.reason() == JinmeiReasons::None ? -1 : static_cast<int>(k.reason()), e.reason, n);
  PBT_EQ(k.extraTypeInfo().value_or("none"), e.extraInfo.value_or("none"), n);
  PBT_EQ(k.oldNames(), e.old, n);
  PBT_EQ(k.newName().value_or("none"), e.newName.value_or("none"), n);
  PBT_EQ(k.linkedReadings(), e.linkedReadings, n);
  PBT_EQ(k.hasGrade(), e.grade >= 0, n);
  PBT_EQ(k.hasLevel(), e.level >= 0, n);
  PBT_EQ(k.hasKyu(), e.kyu >= 0, n);
  PBT_EQ(k.hasNelsonIds(), !e.nelson.empty(), n);
  // official forms: relations are mutual
  if (e.link.empty()) {
    PBT_CHECK(!k.link(), n, " has a link");
  } else {
    PBT_CHECK(k.link(), n, " has no link");
    PBT_CHECK(k.link() == data.findByName(e.link), n, " links to ", k.link()->name());
    PBT_EQ(k.newName().value_or("none"), k.link()->name(), n);
    if (e.type == dict::LinkedOld) {
      auto& o{k.link()->oldNames()};
      PBT_CHECK(std::any_of(o.begin(), o.end(), [&](auto& i) { return data.findByName(i) == p; }), n,
          " isn't an old form of ", e.link);
    }
  }
  if (e.type == dict::Jouyou || e.type == dict::Jinmei)
    for (auto& i : k.oldNames()) {
      const auto o{data.findByName(i)};
      PBT_CHECK(o && o->link(), "old form ", i, " of ", n);
      // shared old forms belong to one of their owners
      const auto& owner{m.find(i)->link};
      PBT_EQ(o->link()->name(), owner, "old form ", i, " of ", n);
      PBT_CHECK(owner == n || dict::index(m.all.at(owner).old, i) >= 0 || o->is(KanjiTypes::LinkedJinmei), i);
    }
  // the Unicode record
  const auto* eu{dict::findUcd(d, e.name)};
  const auto u{data.findUcd(e.name)};
  PBT_EQ(u != nullptr, eu != nullptr, n);
  if (u) ucdRecord(*u, *eu);
  // all masks
}

void masks(const KanjiData& data, const dict::Dict& d, const dict::K& e, unsigned mask) {
  PBT_EQ(data.findByName(e.name)->info(static_cast<Kanji::Info>(mask)), expectedInfo(d, e, mask), e.name, " mask ", mask);
}

void check(pbt::Ctx& c, const KanjiData& data, const dict::Dict& d, const dict::Model& m, unsigned perKanji) {
  if (m.all.empty()) return;
  dict::findUcd(d, "");
  S result;
  bool forms{};
  for (auto& i : m.all) {
    auto& e{i.second};
    attributes(data, d, m, e);
    PBT_EQ(data.findByName(i.first)->info(), expectedInfo(d, e, All), i.first);
    for (unsigned n{}; n < perKanji; ++n) masks(data, d, e, c.g.below(512));
    for (unsigned n{1}; n < 512; n *= 2) masks(data, d, e, n);
    forms = forms || e.newName || !e.old.empty();
    result += expectedInfo(d, e, All);
    if (e.newName) c.label("new form");
    if (!e.old.empty()) c.label("old form");
    if (e.linkedReadings) c.label("linked readings");
    if (e.type >= dict::Frequency && !e.reading.empty()) c.label("kana reading");
  }
  auto& one{c.g.pick(m.all).second};
  for (unsigned n{}; n < 512; ++n) masks(data, d, one, n);
  // Unicode records of everything in the file and nothing else
  PBT_EQ(data.ucd().map().size(), d.ucd.size(), "Unicode records");
  for (auto& i : d.ucd) {
    const auto u{data.ucd().find(i.name)};
    PBT_CHECK(u, "no record for ", i.name);
    ucdRecord(*u, i);
    PBT_EQ(data.ucd().getReadingsAsKana(u), dict::ucdReading(i), i.name);
    PBT_EQ(UcdData::getMeaning(u), i.meaning, i.name);
  }
  PBT_EQ(data.ucd().getReadingsAsKana(nullptr), "", "no record");
  PBT_EQ(UcdData::getMeaning(nullptr), "", "no record");
  for (int n{}; n < 5; ++n) {
    const auto s{ref::enc(0x4e00 + c.g.below(0x5200)) + (c.g.boolean() ? ref::enc(0xfe00 + c.g.below(16)) : "")};
    PBT_EQ(data.findUcd(s) != nullptr, dict::findUcd(d, s) != nullptr, s);
  }
  if (forms) c.nontrivial(result);
}

void generated(pbt::Ctx& c, const dict::Options& o) {
  dict::Maker maker{c.g};
  const auto d{maker.make(o)};
  const auto f{dict::files(d, &c.g)};
  c.describe(dict::describe(f));
  const auto m{dict::model(d)};
  dict::Loaded l{f};
  check(c, *l, d, m, 4);
}

S letters(pbt::Gen& g) {
  S r;
  for (auto ch : gen::romajiText(g, 4, g.chance(1, 6)))
    if ((ch >= 'a' && ch <= 'z') || (ch >= 'A' && ch <= 'Z') || (!r.empty() && (ch == '\'' || ch == '-'))) r += ch;
  return r;
}

} // namespace

PBT_SUB(details, 4000, 60000) { generated(c, {}); }
PBT_SUB(large, 500, 8000) { generated(c, {40, 20, 20, 40}); }

PBT_ENUM(shipped, 1) {
  c.g.below(1);
  const auto d{dict::shipped("/repo/data")};
  const auto m{dict::model(d)};
  dict::Loaded l{dict::files(d)};
  c.describe("shipped data");
  check(c, *l, d, m, 3);
}

// readings from any Rōmaji
PBT_SUB(readings, 4000, 60000) {
  auto& g{c.g};
  dict::Maker maker{g};
  auto d{maker.make({3, 2, 2, 6})};
  S result;
  V before; // words used so far, so that readings can begin or end alike
  const auto alike{[&](V& v) {
    if (!before.empty() && g.chance(1, 3)) {
      S s{g.pick(before)};
      if (s.size() > 3 && g.boolean()) s.resize(3 + g.below(static_cast<uint32_t>(s.size()) - 2));
      if (g.boolean()) s += letters(g);
      v.insert(v.begin() + (g.boolean() ? 0 : static_cast<long>(v.size())), s);
    }
    before.insert(before.end(), v.begin(), v.end());
  }};
  for (auto& i : d.ucd) {
    V on, kun;
    for (auto n{g.below(4)}; n; --n)
      if (const auto s{letters(g)}; !s.empty()) on.push_back(g.boolean() ? kref::upper(s) : s);
    for (auto n{g.below(4)}; n; --n)
      if (const auto s{letters(g)}; !s.empty()) kun.push_back(g.boolean() ? kref::upper(s) : s);
    alike(on);
    if (g.boolean()) alike(kun);
    i.on = dict::join(on, " ");
    i.kun = dict::join(kun, " ");
    if (on.empty() && kun.empty() && i.morohashi.empty() && i.jsource.empty()) i.jsource = "J";
    result += i.on + '/' + i.kun + '\n';
  }
  const auto f{dict::files(d)};
  c.describe(result);
  dict::Loaded l{f};
  dict::findUcd(d, "");
  std::map<S, S> readings;
  for (auto& i : d.ucd) {
    const auto u{l->ucd().find(i.name)};
    PBT_CHECK(u, i.name);
    PBT_EQ(u->onReading(), i.on, i.name);
    PBT_EQ(u->kunReading(), i.kun, i.name);
    const auto kana{[](S s, kref::Script t) {
      std::replace(s.begin(), s.end(), ' ', ',');
      return s.empty() ? s : kref::convert(kref::Script::Roma, s, t, 0);
    }};
    const auto on{kana(i.on, kref::Script::Kata)}, kun{kana(i.kun, kref::Script::Hira)};
    const auto& expected{readings[i.name] = on + (on.empty() || kun.empty() ? "" : "、") + kun};
    PBT_EQ(l->ucd().getReadingsAsKana(u), expected, pbt::show(i.on), " / ", pbt::show(i.kun));
    if (const auto k{l->findByName(i.name)}; k->is(KanjiTypes::Ucd) || k->is(KanjiTypes::Kentei))
      PBT_EQ(k->reading(), expected, i.name);
  }
  // in any order, and again
  for (int n{}; n < 20 && !d.ucd.empty(); ++n) {
    auto& i{g.pick(d.ucd)};
    const auto expected{readings.at(i.name)};
    PBT_EQ(l->ucd().getReadingsAsKana(l->ucd().find(i.name)), expected, "again: ", i.name);
  }
  if (!result.empty()) c.nontrivial(result);
}
