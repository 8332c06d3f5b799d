// libs: quiz
#include "groups.h"
#include "kload.h"

#include <kt_quiz/GroupData.h>

using namespace kanji_tools;
using dict::S, dict::V, dict::Groups;

const pbt::Info pbt::info{"P20",
    "meaning and pattern group files over generated Kanji data (members also "
    "by compatibility name, sizes 2 to 58, families, peers and readings) "
    "compared with the lines that were generated, the debug report of the "
    "same, and files with one faulty line; non-trivial = at least two groups "
    "or a fault, distinct by files"};

namespace {

S str(const GroupPtr& g) {
  std::ostringstream o;
  o << *g;
  return o.str();
}

void same(const GroupData::List& actual, const Groups& expected, GroupType type) {
  PBT_EQ(actual.size(), expected.size(), "number of groups");
  for (size_t i{}; i < expected.size(); ++i) {
    auto& a{*actual[i]};
    auto& e{expected[i]};
    PBT_EQ(a.number(), e.number, e.line());
    PBT_EQ(a.name(), e.name, e.line());
    PBT_EQ(dict::names(a.members()), e.members, e.line());
    PBT_CHECK(a.type() == type, e.line());
    using P = Group::PatternType;
    const P p[]{P::Family, P::Peer, P::Reading, P::None};
    PBT_EQ(a.patternType(), p[e.pattern], e.line());
    PBT_EQ(a.toString(), "[" + std::to_string(e.number) + ' ' + e.name + "]", e.line());
    PBT_EQ(str(actual[i]), "[" + (e.pattern == dict::Peer ? "Peers " + e.members[0] : S{}) + e.name + "]", e.line());
  }
}

template <typename M> void index(const KanjiData& data, const M& map, const GroupData::List& list) {
  std::map<S, std::multiset<const Group*>> actual, expected;
  for (auto& i : map) actual[i.first].insert(i.second.get());
  for (auto& i : list)
    for (auto& j : i->members()) {
      expected[j->name()].insert(i.get());
      PBT_CHECK(j == data.findByName(j->name()), "other instance: ", j->name());
    }
  V a, e;
  for (auto& i : actual) a.push_back(i.first);
  for (auto& i : expected) e.push_back(i.first);
  PBT_EQ(a, e, "Kanji with a group");
  for (auto& i : expected) PBT_CHECK(actual[i.first] == i.second, "groups of ", i.first);
}

void check(const GroupData& data, const Groups& meaning, const Groups& pattern) {
  same(data.meaningGroups(), meaning, GroupType::Meaning);
  same(data.patternGroups(), pattern, GroupType::Pattern);
  index(data.data(), data.meaningMap(), data.meaningGroups());
  index(data.data(), data.patternMap(), data.patternGroups());
}

struct Made {
  dict::Dict d;
  dict::Model m;
  Groups meaning, pattern;
  dict::Files f;
};

Made make(pbt::Gen& g, const dict::Options& o, unsigned max) {
  Made r;
  dict::Maker maker{g};
  r.d = maker.make(o);
  r.m = dict::model(r.d);
  r.meaning = dict::meaningGroups(g, r.m, max);
  r.pattern = dict::patternGroups(g, r.m, max);
  r.d.meaningGroups = dict::groupFile(r.meaning);
  r.d.patternGroups = dict::groupFile(r.pattern);
  r.f = dict::files(r.d);
  return r;
}

S show(const dict::Files& f) {
  return "meaning: " + f.at("meaning-groups.txt") + "pattern: " + f.at("pattern-groups.txt") + dict::describe(f);
}

void run(pbt::Ctx& c, const dict::Options& o, unsigned max) {
  const auto x{make(c.g, o, max)};
  c.describe(show(x.f));
  dict::Loaded l{x.f};
  const GroupData data{l.data};
  PBT_EQ(l.err.str(), "", "no errors expected");
  check(data, x.meaning, x.pattern);
  for (auto& i : x.pattern) c.label(i.pattern == dict::Family ? "family" : i.pattern == dict::Peer ? "peer" : "reading");
  for (auto* v : {&x.meaning, &x.pattern})
    for (auto& i : *v) {
      if (i.members.size() == 58) c.label("58 members");
      for (auto& j : i.members)
        if (dict::hasVS(j)) c.label("variation selector");
    }
  if (x.meaning.size() + x.pattern.size() > 1)
    c.nontrivial(x.d.meaningGroups + x.d.patternGroups);
}

// line without spaces and without leading zeros of the numbers in it
S squeeze(const S& s) {
  S r;
  for (size_t i{}; i < s.size(); ++i) {
    if (s[i] == ' ') continue;
    if (s.compare(i, 3, "　") == 0) {
      i += 2;
      continue;
    }
    // padding can be zeros
    if (s[i] == '0' && (r.empty() || r.back() == '[' || r.back() == '(' || r.back() == ']')) continue;
    r += s[i];
  }
  return r;
}

} // namespace

PBT_SUB(generated, 2500, 40000) { run(c, {}, 6); }
PBT_SUB(large, 900, 15000) { run(c, {40, 20, 20, 60}, 30); }

PBT_ENUM(shipped, 1) {
  c.g.below(1);
  const auto d{dict::shipped("/repo/data")};
  const auto m{dict::model(d)};
  dict::Loaded l{dict::files(d)};
  const GroupData data{l.data};
  c.describe("shipped data");
  PBT_EQ(l.err.str(), "", "no errors expected");
  const auto meaning{dict::parseGroups(d.meaningGroups, m, false)}, pattern{dict::parseGroups(d.patternGroups, m, true)};
  check(data, meaning, pattern);
  c.nontrivial("shipped");
}

// report printed with -info and -debug
static void report(pbt::Ctx& c, const Made& x, bool full) {
  dict::Loaded l{x.f, {full ? "-debug" : "-info"}};
  l.out.str("");
  const GroupData data{l.data};
  PBT_EQ(l.err.str(), "", "no errors expected");
  check(data, x.meaning, x.pattern);
  const auto lines{dict::split(l.out.str(), '\n')};
  size_t at{};
  // next line (optionally squeezed) must be 's'
  const auto expect{[&](const S& s) {
    PBT_CHECK(at < lines.size(), "line '", s, "' missing after: ", l.out.str());
    PBT_EQ(squeeze(lines[at]), squeeze(s), "line ", at + 1, " of: ", l.out.str());
    ++at;
  }};
  const auto qualified{[&](const S& s) { return l->findByName(s)->qualifiedName(); }};
  for (auto* groups : {&x.meaning, &x.pattern}) {
    std::map<S, size_t> count;
    size_t total{};
    for (auto& i : *groups)
      for (auto& j : i.members) {
        ++count[j];
        ++total;
      }
    expect(">>> Loaded " + std::to_string(total) + " kanji into " + std::to_string(groups->size()) + " groups");
    if (full) {
      at += 2; // legend and heading
      for (auto& i : *groups) {
        S s{"[" + std::to_string(i.number) + "]" + i.name + "(" + std::to_string(i.members.size()) + ")"};
        if (i.pattern == dict::NoPattern || i.pattern == dict::Peer) s += ":";
        for (size_t j{}; j < i.members.size(); ++j)
          s += qualified(i.members[j]) + (i.pattern == dict::Family && !j ? ":" : "");
        expect(s);
      }
    }
    const auto multi{static_cast<size_t>(std::count_if(count.begin(), count.end(), [](auto& i) { return i.second > 1; }))};
    if (multi) {
      expect(">>> Unique kanji: " + std::to_string(count.size()) + " (once " + std::to_string(count.size() - multi) +
             ", multi " + std::to_string(multi) + ")");
      size_t max{};
      for (auto& i : count) max = std::max(max, i.second);
      for (size_t n{2}; n <= max; ++n) {
        S s{"Kanji in " + std::to_string(n) + " groups:"};
        for (auto& i : count)
          if (i.second == n) s += i.first;
        expect(s);
      }
    }
    ++at; // heading
    for (int t{}; t < 8; ++t) {
      size_t found{};
      for (auto& i : count) found += x.m.all.at(i.first).type == t;
      if (!found) continue;
      S s{dict::TypeNames[static_cast<size_t>(t)] + ": " + std::to_string(found) + " / " +
          std::to_string(x.m.types[static_cast<size_t>(t)].size())};
      size_t n{};
      for (auto& i : l->types()[static_cast<KanjiTypes>(t)])
        if (!count.contains(i->name()) && n++ < 12) s += (n == 1 ? " (" : " ") + i->name();
      expect(s + (n ? ")" : ""));
    }
  }
  PBT_EQ(at, lines.size(), "more lines than expected: ", l.out.str());
  if (x.meaning.size() + x.pattern.size() > 1) c.nontrivial(l.out.str());
}

PBT_SUB(report, 1200, 20000) {
  const auto x{make(c.g, c.g.boolean() ? dict::Options{} : dict::Options{30, 10, 10, 40}, 12)};
  const bool full{c.g.boolean()};
  c.describe((full ? "-debug\n" : "-info\n") + show(x.f));
  report(c, x, full);
}

PBT_ENUM(shipped_report, 2) {
  Made x;
  x.d = dict::shipped("/repo/data");
  x.m = dict::model(x.d);
  x.f = dict::files(x.d);
  x.meaning = dict::parseGroups(x.d.meaningGroups, x.m, false);
  x.pattern = dict::parseGroups(x.d.patternGroups, x.m, true);
  const bool full{c.g.below(2) == 1};
  c.describe("shipped data");
  report(c, x, full);
}

// one bad line
PBT_SUB(faults, 3000, 50000) {
  auto& g{c.g};
  auto x{make(g, g.chance(1, 4) ? dict::Options{30, 20, 20, 30} : dict::Options{}, 6)};
  const bool pattern{g.boolean()};
  auto& groups{pattern ? x.pattern : x.meaning};
  const S file{pattern ? "pattern-groups.txt" : "meaning-groups.txt"};
  if (x.m.all.size() < 4) throw pbt::Discard{};
  const auto free{[&] { // Kanji not in a group of this file
    std::set<S> used;
    for (auto& i : groups) used.insert(i.members.begin(), i.members.end());
    V r;
    for (auto& i : x.m.all)
      if (!used.contains(i.first)) r.push_back(i.first);
    return r;
  }()};
  auto lines{dict::split(dict::groupFile(groups), '\n')};
  const auto at{1 + g.below(static_cast<uint32_t>(lines.size()))}; // new line is inserted here
  V some;
  const size_t want{g.chance(1, 3) ? 5 + g.below(50) : 5};
  for (size_t i{}; i < free.size() && i < want; ++i) some.push_back(free[i]);
  if (some.size() < 2) throw pbt::Discard{};
  S number{std::to_string(at)}, name{"名"}, members{dict::join(some, ",")};
  V words{file, "row: " + std::to_string(at)};
  S printed, what;
  bool thrown{true};
  switch (const auto n{g.below(pattern ? 14 : 11)}; n) {
  case 0:
    what = "no name";
    name = "";
    words.push_back("must have a name");
    break;
  case 1:
    what = "name with a single byte char";
    name = g.pick({"a", "色a", "1：ア", "色 数", "(", "\x7f"});
    words.push_back("must be all MB");
    break;
  case 2:
    what = "comma at the end";
    members += ",";
    words.push_back("ends with ,");
    break;
  case 3:
    what = "no members";
    members = "";
    words.push_back("no members");
    break;
  case 4:
    what = "one member";
    members = some[0];
    words.push_back("only one member");
    break;
  case 5: {
    what = "duplicate member";
    auto v{some};
    const auto dup{g.pick(v)};
    v.insert(v.begin() + g.below(static_cast<uint32_t>(v.size()) + 1), dup);
    members = dict::join(v, ",");
    words.push_back("1 duplicate member: " + dup);
    break;
  }
  case 6: {
    what = "two duplicate members";
    auto v{some};
    v.insert(v.end(), {some[1], some[0]});
    if (g.boolean()) v.push_back(some[1]);
    members = dict::join(v, ",");
    words.push_back("2 duplicate members: " + some[0] + ' ' + some[1]);
    break;
  }
  case 7: {
    what = "unknown member";
    const S bad{g.pick({"𪜈", "あ", "x", "", "\xff"})};
    auto v{some};
    v.insert(v.begin() + g.below(static_cast<uint32_t>(v.size())), bad);
    members = dict::join(v, ",");
    words.push_back("failed to load all members");
    printed = "failed to find member " + bad + " in group: '" + name + "', number: " + number;
    break;
  }
  case 8:
    what = "number";
    number = g.pick({"", "x", "65536", "-1", "1 ", "1x"});
    words.push_back("Number");
    break;
  case 9:
    what = "columns";
    if (g.boolean()) {
      members += "\t一";
      words.push_back("too many columns");
    } else {
      name += '\n';
      words.push_back("not enough columns");
    }
    break;
  case 10: {
    what = "too many members";
    V v;
    for (auto& i : free) v.push_back(i);
    if (v.size() < 59) { // use all Kanji several times: still too many
      const auto base{v};
      while (v.size() < 59) v.insert(v.end(), base.begin(), base.end());
    }
    members = dict::join(v, ",");
    words.push_back("more than 58 members");
    break;
  }
  case 11:
    what = "family parent repeated";
    name = some[0] + "：ア";
    words.push_back("1 duplicate member: " + some[0]);
    break;
  case 12:
    what = "unknown family parent";
    name = S{g.pick({"𪜈", "あ", "。"})} + "：ア";
    words.push_back("failed to load all members");
    printed = "failed to find member " + name.substr(0, name.find("：")) + " in group";
    break;
  default: {
    what = "Kanji in two pattern groups";
    if (groups.empty()) throw pbt::Discard{};
    auto& other{g.pick(groups)};
    const auto s{g.pick(other.members)};
    dict::ModelGroup m;
    m.number = at;
    m.name = name;
    m.pattern = dict::ReadingGroup;
    m.members = some;
    m.members.insert(m.members.begin() + g.below(static_cast<uint32_t>(some.size()) + 1), s);
    members = dict::join(m.members, ",");
    const auto otherPos{static_cast<size_t>(&other - groups.data())};
    const bool first{at <= otherPos + 1}; // new group comes first
    const auto a{"[" + std::to_string(m.number) + ' ' + m.name + "]"},
        b{"[" + std::to_string(other.number) + ' ' + other.name + "]"};
    printed = s + " from " + (first ? b : a) + " already in " + (first ? a : b);
    groups.insert(groups.begin() + at - 1, m);
    thrown = false;
  }
  }
  lines.insert(lines.begin() + at, number + '\t' + name + '\t' + members);
  if (what == "columns" && name.ends_with('\n')) lines[at] = number + '\t' + name.substr(0, name.size() - 1);
  S text;
  for (auto& i : lines) text += i + '\n';
  x.f[file] = text;
  c.describe(what + "\n" + show(x.f));
  dict::Loaded l{x.f};
  try {
    const GroupData data{l.data};
    PBT_CHECK(!thrown, what, ": no error");
    const auto e{l.err.str()};
    PBT_CHECK(e.starts_with("ERROR[") && e.find(printed) != S::npos, what, ": '", e, "' instead of '", printed, "'");
    PBT_EQ(std::count(e.begin(), e.end(), '\n'), 1, what, ": ", e);
    // groups are all there, the Kanji is only found in the first of the two
    same(data.meaningGroups(), x.meaning, GroupType::Meaning);
    same(data.patternGroups(), groups, GroupType::Pattern);
    index(data.data(), data.meaningMap(), data.meaningGroups());
    std::map<S, const Group*> firsts;
    for (auto& i : data.patternGroups())
      for (auto& j : i->members()) firsts.emplace(j->name(), i.get());
    PBT_EQ(data.patternMap().size(), firsts.size(), what);
    for (auto& i : data.patternMap()) PBT_CHECK(firsts[i.first] == i.second.get(), what, ": ", i.first);
  } catch (const DomainError& e) {
    const S msg{e.what()};
    PBT_CHECK(thrown, what, ": ", msg);
    for (auto& i : words) PBT_CHECK(msg.find(i) != S::npos, what, ": '", msg, "' doesn't contain '", i, "'");
    const auto err{l.err.str()};
    if (printed.empty())
      PBT_EQ(err, "", what);
    else
      PBT_CHECK(err.find(printed) != S::npos, what, ": '", err, "' doesn't contain '", printed, "'");
  }
  c.label(what);
  c.nontrivial(what + text);
}
