// libs: kanji
#include "kload.h"

using namespace kanji_tools;
using dict::S, dict::V;

const pbt::Info pbt::info{"P16",
    "data directories (radicals, UCD rows, Jouyou/Jinmei/Extra files, links, "
    "JLPT, Kentei and frequency lists that agree with each other, in any "
    "column order) loaded and compared with a reference loader through every "
    "lookup, plus the data in the repository; non-trivial = Kanji of at least "
    "three types, distinct by files"};

namespace {

template <typename T, typename N> V enumList(const T& map, const N& all, const S& name) {
  const auto i{all.fromString(name)};
  return dict::names(map[i]);
}

void sameKanji(const S& key, const KanjiPtr& k, const dict::K& e) {
  PBT_CHECK(k, "not found: ", key);
  PBT_EQ(k->name(), e.name, key);
  PBT_EQ(toString(k->type()), dict::TypeNames[e.type], key);
  PBT_EQ(k->grade() == KanjiGrades::None ? -1 : static_cast<int>(k->grade()), e.grade, key);
  PBT_EQ(k->level() == JlptLevels::None ? -1 : static_cast<int>(k->level()), e.level, key);
  PBT_EQ(k->kyu() == KenteiKyus::None ? -1 : static_cast<int>(k->kyu()), e.kyu, key);
  PBT_EQ(k->frequency(), e.freq, key);
  PBT_EQ(k->radical().number(), e.radical, key);
  PBT_EQ(k->morohashiId().toString(), e.morohashi, key);
  PBT_EQ(V{}.size() + k->nelsonIds().size(), e.nelson.size(), key);
  for (size_t i{}; i < e.nelson.size(); ++i) PBT_EQ(k->nelsonIds()[i], e.nelson[i], key);
  PBT_EQ(k->compatibilityName(), e.compat, key);
  PBT_EQ(k->variant(), dict::hasVS(e.name), key);
  PBT_EQ(k->nonVariantName(), dict::base(e.name), key);
}

size_t maxSeen{};

void compare(const KanjiData& data, const dict::Dict& d, const dict::Model& m, pbt::Gen* g) {
  // types
  for (size_t i{}; i < m.types.size(); ++i) {
    const auto actual{enumList(data.types(), AllKanjiTypes, dict::TypeNames[i])};
    if (i == dict::LinkedOld || i == dict::Ucd) { // no order defined by a file
      PBT_EQ(dict::asSet(actual), dict::asSet(m.types[i]), "type ", dict::TypeNames[i]);
      PBT_EQ(actual.size(), m.types[i].size(), "type ", dict::TypeNames[i]);
    } else
      PBT_EQ(actual, m.types[i], "type ", dict::TypeNames[i]);
  }
  for (size_t i{}; i < m.grades.size(); ++i)
    PBT_EQ(enumList(data.grades(), AllKanjiGrades, dict::GradeNames[i]), m.grades[i], "grade ", dict::GradeNames[i]);
  for (size_t i{}; i < m.levels.size(); ++i)
    PBT_EQ(enumList(data.levels(), AllJlptLevels, dict::LevelNames[i]), m.levels[i], "level ", dict::LevelNames[i]);
  for (size_t i{}; i < m.kyus.size(); ++i)
    PBT_EQ(enumList(data.kyus(), AllKenteiKyus, dict::KyuNames[i]), m.kyus[i], "kyu ", dict::KyuNames[i]);
  // frequency
  for (size_t b{}; b < 10; ++b) {
    V expected;
    for (size_t i{b * 250}; i < m.freq.size() && (b == 9 || i < (b + 1) * 250); ++i) expected.push_back(m.freq[i]);
    PBT_EQ(dict::names(data.frequencyList(b)), expected, "frequency bucket ", b);
  }
  PBT_CHECK(data.frequencyList(10).empty(), "bucket 10");
  for (size_t i{}; i < m.freq.size(); ++i) {
    const auto k{data.findByFrequency(static_cast<Kanji::Frequency>(i + 1))};
    PBT_CHECK(k, "no Kanji with frequency ", i + 1);
    PBT_EQ(k->name(), m.freq[i], "frequency ", i + 1);
  }
  PBT_CHECK(!data.findByFrequency(0), "frequency 0");
  PBT_CHECK(!data.findByFrequency(static_cast<Kanji::Frequency>(m.freq.size() + 1)), "frequency ", m.freq.size() + 1);
  PBT_CHECK(!data.findByFrequency(65535), "frequency 65535");
  for (int n{}; g && n < 4; ++n) {
    const auto f{m.freq.size() + 1 + g->below(4000)};
    PBT_CHECK(!data.findByFrequency(static_cast<Kanji::Frequency>(f)), "frequency ", f);
  }
  // (the highest frequency is kept for the process, not for each set of data)
  if (m.freq.size() >= maxSeen) {
    maxSeen = m.freq.size();
    if (maxSeen) PBT_EQ(KanjiData::maxFrequency(), maxSeen + 1, "max frequency");
  }
  // names
  {
    V actual, expected;
    for (auto& i : data.nameMap()) {
      PBT_CHECK(i.second && i.second->name() == i.first, "entry for ", i.first);
      actual.push_back(i.first);
    }
    for (auto& i : m.all) expected.push_back(i.first);
    PBT_EQ(actual, expected, "names");
  }
  for (auto& i : m.all) {
    const auto k{data.findByName(i.first)};
    sameKanji(i.first, k, i.second);
    PBT_CHECK(k == data.nameMap().at(i.first), "different instance: ", i.first);
    PBT_EQ(toString(data.getType(i.first)), dict::TypeNames[i.second.type], i.first);
  }
  for (auto& i : m.compat) {
    const auto k{data.findByName(i.first)};
    PBT_CHECK(k && k->name() == i.second, "compatibility name ", i.first, " for ", i.second);
  }
  // lists contain the same instance as the map and agree with it
  for (auto t : AllKanjiTypes)
    for (auto& i : data.types()[t]) {
      PBT_CHECK(i == data.findByName(i->name()), "different instance: ", i->name());
      PBT_CHECK(i->is(t), "wrong type: ", i->name());
    }
  for (auto t : AllKanjiGrades)
    for (auto& i : data.grades()[t]) PBT_CHECK(i->grade() == t, "wrong grade: ", i->name());
  for (auto t : AllJlptLevels)
    for (auto& i : data.levels()[t]) PBT_CHECK(i->level() == t, "wrong level: ", i->name());
  for (auto t : AllKenteiKyus)
    for (auto& i : data.kyus()[t]) PBT_CHECK(i->kyu() == t, "wrong kyu: ", i->name());
  // dictionary numbers
  for (auto& i : m.morohashi) {
    const auto l{dict::names(data.findByMorohashiId(i.first))};
    PBT_EQ(dict::asSet(l), i.second, "Morohashi ", i.first);
    PBT_EQ(l.size(), i.second.size(), "Morohashi ", i.first);
    // the same id written in another form
    auto alt{i.first};
    std::replace(alt.begin(), alt.end(), 'P', '\'');
    PBT_EQ(dict::names(data.findByMorohashiId(alt)), l, "Morohashi ", alt);
  }
  for (auto& i : m.nelson) {
    const auto l{dict::names(data.findByNelsonId(static_cast<Kanji::NelsonId>(i.first)))};
    PBT_EQ(dict::asSet(l), i.second, "Nelson ", i.first);
    PBT_EQ(l.size(), i.second.size(), "Nelson ", i.first);
  }
  // raw list data
  for (auto& i : m.all) {
    const auto f{std::find(d.freq.begin(), d.freq.end(), i.first)};
    if (m.all.size() < 500) PBT_EQ(data.frequency(i.first), f == d.freq.end() ? 0U : unsigned(f - d.freq.begin()) + 1, i.first);
  }
  if (!g) return;
  // unknown keys
  for (int n{}; n < 10; ++n) {
    S s;
    switch (g->below(5)) {
    case 0: s = ref::enc(0x4e00 + g->below(0x5200)); break;
    case 1: s = ref::enc(0xfa30 + g->below(0x40)); break;
    case 2: s = g->pick({"", "a", "あ", "一一", "\xe4", "\xe4\xb8\x80\xef\xb8\x81"}); break;
    case 3: s = m.all.empty() ? "" : g->pick(m.all).first + ref::enc(0xfe00 + g->below(16)); break;
    default: s = m.all.empty() ? "" : g->pick(m.all).first.substr(0, 2); break;
    }
    const auto* e{m.find(s)};
    const auto k{data.findByName(s)};
    PBT_EQ(k ? k->name() : "", e ? e->name : "", "find ", pbt::show(s));
    PBT_EQ(data.getType(s) == KanjiTypes::None, !e, "type of ", pbt::show(s));
    const auto id{std::to_string(1 + g->below(20)) + g->pick({"", "", "P", "PP", "H"})};
    const auto key{id.ends_with('H') ? "H" + id.substr(0, id.size() - 1) : id};
    const auto j{m.morohashi.find(key)};
    PBT_EQ(dict::asSet(dict::names(data.findByMorohashiId(key))), j == m.morohashi.end() ? std::set<S>{} : j->second,
        "Morohashi ", key);
    const auto nid{g->boolean() ? g->below(12) : g->below(65536)};
    const auto ni{m.nelson.find(nid)};
    PBT_EQ(dict::asSet(dict::names(data.findByNelsonId(static_cast<Kanji::NelsonId>(nid)))),
        ni == m.nelson.end() ? std::set<S>{} : ni->second, "Nelson ", nid);
  }
  PBT_CHECK(data.findByMorohashiId("").empty(), "empty Morohashi id");
  PBT_CHECK(data.findByNelsonId(0).empty() || m.nelson.contains(0), "Nelson id 0");
}

void run(pbt::Ctx& c, const dict::Options& o) {
  dict::Maker maker{c.g};
  const auto d{maker.make(o)};
  auto f{dict::files(d, &c.g)};
  c.describe(dict::describe(f));
  const auto m{dict::model(d)};
  dict::Loaded l{f};
  PBT_EQ(l.err.str(), "", "no errors expected");
  compare(*l, d, m, &c.g);
  int types{};
  for (auto& i : m.types) types += !i.empty();
  S all;
  for (auto& i : f) all += i.second;
  if (types > 2) c.nontrivial(all);
  for (size_t i{}; i < m.types.size(); ++i)
    if (!m.types[i].empty()) c.label(dict::TypeNames[i]);
  if (!m.compat.empty()) c.label("variation selector");
}

} // namespace

PBT_SUB(generated, 5000, 80000) { run(c, {}); }
PBT_SUB(large, 800, 10000) { run(c, {40, 20, 20, 40}); }
// the summaries printed when loading with '-info' or '-debug' add up to the
// data that was loaded
PBT_SUB(report, 1200, 15000) {
  dict::Maker maker{c.g};
  const auto d{maker.make(c.g.boolean() ? dict::Options{} : dict::Options{30, 10, 10, 30})};
  auto f{dict::files(d, &c.g)};
  const bool full{c.g.boolean()};
  c.describe((full ? "-debug\n" : "-info\n") + dict::describe(f));
  const auto m{dict::model(d)};
  dict::Loaded l{f, {full ? "-debug" : "-info"}};
  PBT_EQ(l.err.str(), "", "no errors expected");
  auto lines{dict::split(l.out.str(), '\n')};
  // indentation doesn't matter
  for (auto& i : lines)
    if (i.starts_with(">>>")) i.erase(3, i.find_first_not_of(' ', 3) - 3);
  const auto clean{[](const S& x) { return ">>>" + x.substr(x.find_first_not_of(' ')); }};
  const auto expect{[&](const S& s) {
    PBT_CHECK(std::count(lines.begin(), lines.end(), clean(s)) == 1, "missing line '", s, "' in: ", l.out.str());
  }};
  const auto only{[&](const S& prefix, size_t n) {
    const auto a{std::count_if(lines.begin(), lines.end(), [&](auto& i) { return i.starts_with(clean(prefix)); })};
    PBT_EQ(static_cast<size_t>(a), n, "lines starting with '", prefix, "' in: ", l.out.str());
  }};
  const auto kanji{[&](auto pred) {
    std::vector<const dict::K*> r;
    for (auto& i : m.all)
      if (pred(i.second)) r.push_back(&i.second);
    return r;
  }};
  S s{"Loaded " + std::to_string(m.all.size()) + " Kanji ("};
  for (size_t i{}; i < 8; ++i)
    s += (i ? " " : "") + dict::TypeNames[i] + ' ' + std::to_string(m.types[i].size());
  expect(s + ")");
  // grades, each with numbers per level
  size_t grades{};
  for (int gr{}; gr < 7; ++gr) {
    const auto all{kanji([&](auto& k) { return k.grade == gr; })};
    if (all.empty()) continue;
    ++grades;
    s = "  Total for grade " + dict::GradeNames[static_cast<size_t>(gr)] + ": " + std::to_string(all.size());
    const auto nf{std::count_if(all.begin(), all.end(), [](auto i) { return !i->freq; })};
    if (nf) s += " (nf " + std::to_string(nf) + ")";
    V levels;
    for (int i{}; i <= 5; ++i) {
      const auto n{std::count_if(all.begin(), all.end(), [&](auto j) { return j->level == (i < 5 ? i : -1); })};
      if (n) levels.push_back((i < 5 ? dict::LevelNames[static_cast<size_t>(i)] : "None") + ' ' + std::to_string(n));
    }
    expect(s + " (" + dict::join(levels, ", ") + ")");
  }
  only("  Total for grade ", grades);
  expect("  Total for all grades: " + std::to_string(m.types[dict::Jouyou].size()));
  if (full) {
    const auto counts{[&](const S& title, auto pred) {
      size_t total{};
      V parts;
      for (int t{}; t < 8; ++t) {
        const auto n{kanji([&](auto& k) { return k.type == t && pred(k); }).size()};
        total += n;
        if (n) parts.push_back(dict::TypeNames[static_cast<size_t>(t)] + ' ' + std::to_string(n));
      }
      if (total)
        expect("  " + title + ' ' + std::to_string(total) + " (" + dict::join(parts, ", ") + ")");
      else
        only("  " + title + ' ', 0);
    }};
    counts("Has JLPT level", [](auto& k) { return k.level >= 0; });
    counts("Has frequency and not in Jouyou or JLPT",
        [](auto& k) { return k.freq && k.type != dict::Jouyou && k.level < 0; });
    counts("Jinmei with no frequency and not JLPT",
        [](auto& k) { return k.type == dict::Jinmei && !k.freq && k.level < 0; });
    counts("NF (no-frequency)", [](auto& k) { return !k.freq; });
    counts("Has Variant Strokes", [](auto& k) { return k.vstrokes != 0; });
    counts("Old Forms", [](auto& k) { return !k.old.empty(); });
    size_t inLevels{}, inKyus{};
    const auto breakdown{[&](const S& what, const S& name, auto in, bool nf) {
      V parts;
      size_t total{};
      for (int t{}; t < 8; ++t) {
        const auto l1{kanji([&](auto& k) { return k.type == t && in(k); })};
        if (l1.empty()) continue;
        total += l1.size();
        auto p{dict::TypeNames[static_cast<size_t>(t)] + ' ' + std::to_string(l1.size())};
        const auto n{std::count_if(l1.begin(), l1.end(), [](auto i) { return !i->freq; })};
        if (nf && n) p += " nf " + std::to_string(n);
        parts.push_back(p);
      }
      if (total)
        expect("  Total for " + what + ' ' + name + ": " + std::to_string(total) + " (" + dict::join(parts, ", ") + ")");
      else
        only("  Total for " + what + ' ' + name + ':', 0);
      return total;
    }};
    inLevels += breakdown("Level", "None", [&](auto& k) { return k.level < 0; }, true);
    inKyus += breakdown("Kyu", "None", [&](auto& k) { return k.kyu < 0; }, false);
    for (int i{}; i < 5; ++i)
      inLevels += breakdown("Level", dict::LevelNames[static_cast<size_t>(i)], [&](auto& k) { return k.level == i; }, true);
    for (int i{}; i < 12; ++i)
      inKyus += breakdown("Kyu", dict::KyuNames[static_cast<size_t>(i)], [&](auto& k) { return k.kyu == i; }, false);
    expect("  Total for all Levels: " + std::to_string(inLevels));
    expect("  Total for all Kyus: " + std::to_string(inKyus));
    // Kanji with a selector, up to 5 examples of each type
    {
      V parts;
      size_t total{};
      for (size_t t{}; t < 8; ++t) {
        size_t n{};
        S examples;
        for (auto& i : m.types[t])
          if (dict::hasVS(i) && ++n <= 5) examples += ' ' + i;
        total += n;
        if (n) parts.push_back(dict::TypeNames[t] + ' ' + std::to_string(n) + examples);
      }
      if (total)
        expect("Has Variation Selectors " + std::to_string(total) + " (" + dict::join(parts, ", ") + ")");
      else
        only("Has Variation Selectors", 0);
    }
    // strokes that differ from the Unicode data
    for (size_t t{}; t < 8; ++t) {
      S v;
      size_t n{};
      dict::findUcd(d, "");
      for (auto& i : m.types[t])
        if (const auto* u{dict::findUcd(d, i)}; u && u->strokes != m.all.at(i).strokes) v += ' ' + i, ++n;
      const S end{" Kanji with different strokes in _ucd:"};
      if (n)
        expect("Found " + std::to_string(n) + ' ' + dict::TypeNames[t] + end + v);
      else
        PBT_CHECK(l.out.str().find(dict::TypeNames[t] + end) == S::npos, dict::TypeNames[t], end, l.out.str());
    }
    // radicals: number, name, total and one count per type
    size_t used{};
    for (size_t r{}; r < d.radicals.size(); ++r) {
      const auto all{kanji([&](auto& k) {
        return k.radical == r + 1 && ref::in(dict::codeOf(k.name), ref::CommonKanji);
      })};
      char b[300];
      std::snprintf(b, sizeof b, "[%03zu] %s", r + 1, d.radicals[r].name.c_str());
      const S start{b + S{":"}};
      std::vector<S> found;
      for (auto& i : lines)
        if (i.starts_with(start)) found.push_back(i);
      PBT_EQ(found.size(), all.empty() ? 0U : 1U, "line '", start, "' in: ", l.out.str());
      if (all.empty()) continue;
      ++used;
      std::istringstream is{found[0].substr(start.size())};
      size_t n{};
      char ch{};
      is >> n >> ch;
      PBT_EQ(n, all.size(), found[0]);
      PBT_EQ(ch, '(', found[0]);
      for (int t{}; t < 8; ++t) {
        is >> n;
        PBT_EQ(n, static_cast<size_t>(std::count_if(all.begin(), all.end(), [&](auto i) { return i->type == t; })),
            "type ", dict::TypeNames[static_cast<size_t>(t)], " in ", found[0]);
      }
      const auto rest{found[0].find(") :")};
      PBT_CHECK(rest != S::npos, found[0]);
      std::istringstream ex{found[0].substr(rest + 3)};
      std::set<S> examples;
      S e;
      bool more{};
      while (ex >> e)
        if (e == "...")
          more = true;
        else
          PBT_CHECK(examples.insert(e).second && m.find(e) && m.find(e)->radical == r + 1, e, " in ", found[0]);
      PBT_EQ(examples.size(), all.size() > 12 ? 12U : all.size(), found[0]);
      PBT_EQ(more, all.size() > 12, found[0]);
    }
    {
      const auto common{kanji([](auto& k) { return ref::in(dict::codeOf(k.name), ref::CommonKanji); })};
      S total{std::to_string(common.size()) + " ("};
      for (int t{}; t < 8; ++t)
        total += (t ? " " : "") + std::to_string(std::count_if(common.begin(), common.end(), [&](auto i) { return i->type == t; }));
      const auto squeeze{[](const S& x) {
        S r2;
        for (auto ch : x)
          if (ch != ' ' || !r2.ends_with(' ')) r2 += ch;
        return r2;
      }};
      const auto e{squeeze(clean("Total for " + std::to_string(used) + " radicals: " + total + ")"))};
      PBT_CHECK(std::any_of(lines.begin(), lines.end(), [&](auto& i) { return squeeze(i) == e; }), "missing line '", e, "' in: ", l.out.str());
      S missing;
      for (size_t r{}; r < d.radicals.size(); ++r)
        if (std::none_of(common.begin(), common.end(), [&](auto i) { return i->radical == r + 1; })) {
          char b[300];
          std::snprintf(b, sizeof b, " [%03zu] %s", r + 1, d.radicals[r].name.c_str());
          missing += b;
        }
      const auto n{d.radicals.size() - used};
      if (n)
        expect("Found " + std::to_string(n) + " radical" + (n > 1 ? "s" : "") + " with no Kanji:" + missing);
      else
        PBT_CHECK(l.out.str().find("with no Kanji") == S::npos, l.out.str());
    }
    // links and selectors
    const auto square{[](const S& name) { return '[' + dict::hex(dict::codeOf(name)) + "] " + name; }};
    const auto linksOf{[&](const dict::UcdRow& u) {
      V v;
      for (auto& i : u.links) v.push_back(square(i));
      return dict::join(v, ", ");
    }};
    dict::findUcd(d, "");
    for (const auto t : {dict::Frequency, dict::Extra}) {
      V e;
      for (auto& i : m.types[static_cast<size_t>(t)])
        for (auto& u : d.ucd)
          if (u.name == i && !u.links.empty()) e.push_back("  " + square(i) + " -> " + linksOf(u) + ' ' + u.linkType);
      const auto title{clean(dict::TypeNames[static_cast<size_t>(t)] + " Kanji with links " + std::to_string(e.size()) + ':')};
      const auto at{std::find(lines.begin(), lines.end(), title)};
      PBT_CHECK(at != lines.end(), "missing line '", title, "' in: ", l.out.str());
      for (size_t i{}; i < e.size(); ++i) PBT_EQ(static_cast<size_t>(lines.end() - at) > i + 1 ? *(at + static_cast<long>(i) + 1) : "", e[i], "links of ", title);
    }
    size_t number{};
    for (auto& i : m.all)
      if (dict::hasVS(i.first)) {
        const auto* u{dict::findUcd(d, i.first)};
        PBT_CHECK(u, i.first);
        const auto c2{ref::decode(i.first)};
        auto e{clean(std::to_string(++number)) + "    [" + dict::hex(c2[0]) + ' ' + dict::hex(c2[1]) + "] " + i.first + " variant of " + ref::enc(c2[0]) + "    " + square(u->name)};
        if (!u->links.empty()) e += " variant of " + linksOf(*u);
        const auto noSpace{[](S x) {
          std::erase(x, ' ');
          return x;
        }};
        PBT_CHECK(std::any_of(lines.begin(), lines.end(), [&](auto& x) { return noSpace(x) == noSpace(e); }), "missing line '", e, "' in: ", l.out.str());
      }
    // UCD
    const auto ucd{[&](const S& title, auto pred) {
      size_t n[3]{};
      for (auto& i : d.ucd)
        if (pred(i)) ++n[i.joyo ? 0 : i.jinmei ? 1 : 2];
      expect("  " + title + ": " + std::to_string(n[0] + n[1] + n[2]) + " (Jouyou " + std::to_string(n[0]) +
             ", Jinmei " + std::to_string(n[1]) + ", Other " + std::to_string(n[2]) + ")");
    }};
    ucd("Total", [](auto&) { return true; });
    ucd("Links", [](auto& i) { return !i.links.empty(); });
    ucd("VStrokes", [](auto& i) { return i.vstrokes != 0; });
    ucd("Meanings", [](auto& i) { return !i.meaning.empty(); });
    ucd("On Readings", [](auto& i) { return !i.on.empty(); });
    ucd("Kun Readings", [](auto& i) { return !i.kun.empty(); });
    ucd("Morohashi Ids", [](auto& i) { return !i.morohashi.empty(); });
    ucd("Nelson Ids", [](auto& i) { return !i.nelson.empty(); });
  }
  if (m.all.size() > 5) c.nontrivial(l.out.str());
}

PBT_SUB(buckets, 16, 120) { run(c, {10, 5, 0, 0, true}); }
PBT_SUB(officials, 8, 60) { run(c, {10, 5, 5, 5, false, true}); }

// the data files that come with the programs, and what is documented about them
PBT_ENUM(shipped, 1) {
  c.g.below(1);
  c.describe("data directory of the repository");
  const auto d{dict::shipped("/repo/data")};
  const auto m{dict::model(d)};
  dict::Loaded l{dict::files(d)};
  PBT_EQ(l.err.str(), "", "no errors expected");
  compare(*l, d, m, {});
  const auto count{[&](const char* what, size_t a, size_t e) { PBT_EQ(a, e, what); }};
  count("Jouyou", l->types()[KanjiTypes::Jouyou].size(), 2136);
  count("Jinmei", l->types()[KanjiTypes::Jinmei].size(), 633);
  count("LinkedJinmei", l->types()[KanjiTypes::LinkedJinmei].size(), 230);
  count("LinkedOld", l->types()[KanjiTypes::LinkedOld].size(), 163);
  count("Frequency", l->types()[KanjiTypes::Frequency].size(), 124);
  const std::array<size_t, 7> grades{80, 160, 200, 200, 185, 181, 1130};
  for (size_t i{}; i < grades.size(); ++i) PBT_EQ(m.grades[i].size(), grades[i], dict::GradeNames[i]);
  const std::array<size_t, 5> levels{103, 181, 361, 415, 1162};
  for (size_t i{}; i < levels.size(); ++i) PBT_EQ(m.levels[i].size(), levels[i], dict::LevelNames[i]);
  const std::array<size_t, 12> kyus{80, 160, 200, 202, 193, 191, 313, 284, 328, 188, 940, 2780};
  for (size_t i{}; i < kyus.size(); ++i) PBT_EQ(m.kyus[i].size(), kyus[i], dict::KyuNames[i]);
  c.nontrivial("shipped");
}
