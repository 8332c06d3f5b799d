// libs: kanji
#include "kload.h"

#include <kt_kanji/MorohashiId.h>

#include <tuple>

using namespace kanji_tools;
using dict::S, dict::V;

const pbt::Info pbt::info{"P18",
    "all pairs of Kanji of generated data directories (many equal stroke "
    "counts, levels and frequencies) and of the shipped data compared with "
    "reference sort keys, sorting from random starting orders, examples per "
    "radical, and all pairs of Strokes, Morohashi ids and radicals; "
    "non-trivial = at least two Kanji of one rank and two ranks, distinct by "
    "sorted result"};

namespace {

const S Suffixes{".'\"^~%+@#*"};

size_t rank(const dict::K& k) {
  if (k.type == dict::Jouyou) return 0;
  if (k.level >= 0) return 1;
  if (k.freq) return 2;
  switch (k.type) {
  case dict::Jinmei: return 3;
  case dict::LinkedJinmei: return 4;
  case dict::LinkedOld: return 5;
  case dict::Extra: return 6;
  case dict::Ucd: return 9;
  default: return k.kyu == 11 ? 8 : 7;
  }
}

// Unicode of a name: hex codes separated by spaces
S unicode(const S& s) {
  S r;
  for (auto c : ref::decode(s)) r += (r.empty() ? "" : " ") + dict::hex(c);
  return r;
}

using Key = std::tuple<unsigned, unsigned, unsigned, S>;

Key strokesKey(const dict::K& k) { return {k.strokes, k.vstrokes, k.freq ? k.freq : 65535U, unicode(k.compat)}; }

// names with a different number of hex digits: only the other parts are defined
bool defined(const Key& a, const Key& b) {
  return std::get<3>(a).size() == std::get<3>(b).size() ||
         std::tie(std::get<0>(a), std::get<1>(a), std::get<2>(a)) !=
             std::tie(std::get<0>(b), std::get<1>(b), std::get<2>(b));
}

struct Item {
  KanjiPtr k;
  const dict::K* e;
  size_t rank;
  Key key;
};

std::vector<Item> items(const KanjiData& data, const dict::Model& m) {
  std::vector<Item> r;
  for (auto& i : m.all) {
    const auto k{data.findByName(i.first)};
    PBT_CHECK(k, "not found: ", i.first);
    r.push_back({k, &i.second, rank(i.second), strokesKey(i.second)});
    PBT_EQ(k->qualifiedName(), i.first + Suffixes[r.back().rank], "qualified name");
  }
  return r;
}

S str(const Item& i) { return i.k->qualifiedName() + ' ' + i.k->info(); }

void pair(const Item& a, const Item& b) {
  const bool s1{a.k->orderByStrokes(*b.k)}, s2{b.k->orderByStrokes(*a.k)};
  PBT_CHECK(s1 != s2, "by strokes: ", str(a), " and ", str(b));
  if (defined(a.key, b.key)) PBT_EQ(s1, a.key < b.key, "by strokes: ", str(a), " and ", str(b));
  const bool q1{a.k->orderByQualifiedName(*b.k)}, q2{b.k->orderByQualifiedName(*a.k)};
  PBT_CHECK(q1 != q2, "by qualified name: ", str(a), " and ", str(b));
  PBT_EQ(q1, a.rank == b.rank ? s1 : a.rank < b.rank, "by qualified name: ", str(a), " and ", str(b));
  PBT_EQ(KanjiData::OrderByStrokes(a.k, b.k), s1, "pointers");
  PBT_EQ(KanjiData::OrderByQualifiedName(a.k, b.k), q1, "pointers");
  PBT_CHECK(!(*a.k == *b.k), "equal: ", str(a), " and ", str(b));
}

S sorted(std::vector<Item> v, bool strokes) {
  std::sort(v.begin(), v.end(),
      [&](auto& a, auto& b) { return strokes ? a.k->orderByStrokes(*b.k) : a.k->orderByQualifiedName(*b.k); });
  S r;
  for (auto& i : v) r += i.k->qualifiedName();
  for (size_t i{1}; i < v.size(); ++i) {
    auto &a{v[i - 1]}, &b{v[i]};
    if (!strokes) PBT_CHECK(a.rank <= b.rank, "sorted: ", str(a), " before ", str(b));
    if ((strokes || a.rank == b.rank) && defined(a.key, b.key))
      PBT_CHECK(a.key < b.key, "sorted: ", str(a), " before ", str(b));
  }
  return r;
}

void check(pbt::Ctx& c, const KanjiData& data, const dict::Model& m, size_t maxPairs) {
  auto v{items(data, m)};
  if (v.size() * v.size() <= maxPairs) {
    for (auto& i : v)
      for (auto& j : v)
        if (&i != &j) pair(i, j);
  } else
    for (size_t n{}; n < maxPairs; ++n) {
      auto& a{v[c.g.below(static_cast<uint32_t>(v.size()))]};
      auto& b{v[c.g.below(static_cast<uint32_t>(v.size()))]};
      if (&a != &b) pair(a, b);
    }
  for (auto& i : v) {
    PBT_CHECK(!i.k->orderByStrokes(*i.k) && !i.k->orderByQualifiedName(*i.k), "not before itself: ", str(i));
    PBT_CHECK(*i.k == *i.k, str(i));
  }
  const auto s{sorted(v, true)}, q{sorted(v, false)};
  for (int n{}; n < 3; ++n) {
    c.g.shuffle(v);
    PBT_EQ(sorted(v, true), s, "by strokes from another order");
    PBT_EQ(sorted(v, false), q, "by qualified name from another order");
  }
  std::set<size_t> ranks;
  for (auto& i : v) {
    ranks.insert(i.rank);
    c.label(S{"rank "} + Suffixes[i.rank]);
  }
  if (ranks.size() > 1 && v.size() > ranks.size()) c.nontrivial(q);
}

void generated(pbt::Ctx& c, const dict::Options& o) {
  dict::Maker maker{c.g};
  auto d{maker.make(o)};
  // more ties
  if (c.g.boolean()) {
    for (auto& i : d.ucd) {
      i.strokes = 2 + c.g.below(2);
      i.vstrokes = c.g.chance(1, 4) ? 4 + c.g.below(2) : 0;
    }
    for (auto& i : d.jouyou) i.strokes = 1 + c.g.below(3);
    for (auto& i : d.extra) i.strokes = 1 + c.g.below(3);
  }
  const auto f{dict::files(d)};
  c.describe(dict::describe(f));
  const auto m{dict::model(d)};
  dict::Loaded l{f};
  check(c, *l, m, 4000);
}

} // namespace

PBT_SUB(pairs, 3000, 50000) { generated(c, {}); }
PBT_SUB(many, 600, 10000) { generated(c, {40, 20, 20, 40}); }

PBT_ENUM(shipped, 3) {
  c.g.below(3);
  const auto d{dict::shipped("/repo/data")};
  const auto m{dict::model(d)};
  dict::Loaded l{dict::files(d)};
  c.describe("shipped data");
  check(c, *l, m, 400000);
}

// examples per radical are the first ones in stroke order
PBT_SUB(radicals, 1000, 15000) {
  dict::Maker maker{c.g};
  auto d{maker.make({40, 10, 10, 30})};
  if (c.g.chance(2, 3)) { // few radicals
    const auto n{1 + c.g.below(2)};
    for (auto& i : d.ucd) i.radical = 1 + c.g.below(std::min(n, static_cast<uint32_t>(d.radicals.size())));
    for (auto* rows : {&d.jouyou, &d.jinmei, &d.extra})
      for (auto& i : *rows) i.radical = d.radicals[0].name;
  }
  const auto f{dict::files(d)};
  c.describe("-debug\n" + dict::describe(f));
  const auto m{dict::model(d)};
  dict::Loaded l{f, {"-debug"}};
  size_t cut{};
  std::map<size_t, std::vector<const dict::K*>> expected;
  for (auto& i : m.all)
    if (ref::in(dict::codeOf(i.first), ref::CommonKanji)) expected[i.second.radical].push_back(&i.second);
  std::vector<size_t> order;
  for (auto& line : dict::split(l.out.str(), '\n')) {
    size_t r{};
    if (line.size() < 6 || line[0] != '[' || line[4] != ']' || line.find(") :") == S::npos) continue;
    r = std::stoul(line.substr(1, 3));
    PBT_CHECK(expected.contains(r), "radical in ", line);
    order.push_back(r);
    auto& e{expected[r]};
    V names;
    std::istringstream is{line.substr(line.find(") :") + 3)};
    for (S s; is >> s;)
      if (s != "...") names.push_back(s);
    PBT_EQ(names.size(), e.size() > 12 ? 12U : e.size(), line);
    if (e.size() > 12) ++cut;
    for (size_t i{1}; i < names.size(); ++i) {
      const auto a{strokesKey(*m.find(names[i - 1]))}, b{strokesKey(*m.find(names[i]))};
      if (defined(a, b)) PBT_CHECK(a < b, names[i - 1], " before ", names[i], " in ", line);
    }
    // none of the others belongs before the last one shown
    const std::set<S> shown(names.begin(), names.end());
    if (!names.empty())
      for (auto* i : e)
        if (const auto a{strokesKey(*i)}, b{strokesKey(*m.find(names.back()))}; !shown.contains(i->name) && defined(a, b))
          PBT_CHECK(b < a, i->name, " missing in ", line);
  }
  PBT_CHECK(std::is_sorted(order.begin(), order.end()), "order of radicals");
  PBT_EQ(order.size(), expected.size(), "radicals");
  if (cut) c.label("more than shown");
  if (!order.empty()) c.nontrivial(l.out.str());
}

// the values the orderings are built from
PBT_SUB(values, 3000, 60000) {
  auto& g{c.g};
  const auto strokes{[&]() -> std::pair<unsigned, unsigned> {
    const auto v{1 + g.number(63)};
    if (v == 1 || g.boolean()) return {v, 0};
    auto x{3 + g.number(30)};
    if (x == v) x = x == 3 ? 4 : x - 1;
    return {v, x};
  }};
  const auto make{[](auto& p) {
    using U = Strokes::Size;
    return p.second ? Strokes{static_cast<U>(p.first), static_cast<U>(p.second)} : Strokes{static_cast<U>(p.first)};
  }};
  const auto a{strokes()}, b{g.chance(1, 4) ? a : strokes()};
  const auto x{make(a)}, y{make(b)};
  PBT_EQ(x < y, a < b, "strokes ", x.toString(true), " ", y.toString(true));
  PBT_EQ(x == y, a == b, "strokes ", x.toString(true), " ", y.toString(true));
  PBT_EQ(y < x, b < a, "strokes ", x.toString(true), " ", y.toString(true));
  const auto id{[&] { return std::pair{1 + g.number(65534), g.below(4)}; }};
  const auto makeId{[](auto& p) {
    const auto s{std::to_string(p.first)};
    return MorohashiId{p.second == 3 ? "H" + s : s + S(p.second, 'P')};
  }};
  const auto p{id()}, q{g.chance(1, 4) ? std::pair{p.first, g.below(4)} : id()};
  const auto i{makeId(p)}, j{makeId(q)};
  c.describe("Morohashi " + i.toString() + " and " + j.toString() + ", strokes " + x.toString(true) + " and " + y.toString(true));
  PBT_EQ(i < j, p < q, "Morohashi ", i.toString(), " ", j.toString());
  PBT_EQ(i == j, p == q, "Morohashi ", i.toString(), " ", j.toString());
  PBT_EQ(j < i, q < p, "Morohashi ", i.toString(), " ", j.toString());
  const auto r{1 + g.below(214)}, t{1 + g.below(214)};
  const Radical k{static_cast<Radical::Number>(r), "一", {}, "", ""}, n{static_cast<Radical::Number>(t), "丁", {}, "", ""};
  PBT_EQ(k < n, r < t, "radicals ", r, " ", t);
  PBT_EQ(k == n, r == t, "radicals ", r, " ", t);
  c.nontrivial(i.toString() + j.toString() + x.toString(true) + '-' + y.toString(true));
}
