// libs: kanji
#include "text.h"

#include <kt_kana/KanaEnums.h>
#include <kt_kanji/Kanji.h>
#include <kt_kanji/KanjiEnums.h>
#include <kt_kanji/Ucd.h>
#include <kt_utils/Args.h>
#include <kt_utils/Bitmask.h>
#include <kt_utils/EnumList.h>
#include <kt_utils/EnumMap.h>
#include <kt_utils/Exception.h>

#include <algorithm>
#include <limits>
#include <map>
#include <optional>
#include <set>

using namespace kanji_tools;

const pbt::Info pbt::info{"P14",
    "enums of 1 to 254 values given generated names (unique, repeated, empty, "
    "reserved), and histories of iterator and element operations on their "
    "lists and maps with operands around every boundary, compared with a "
    "model; bit mask expressions against integer arithmetic; argument views "
    "against the array; non-trivial = a history with an out-of-range operation "
    "that left the iterator where it was, a rejected list, or an expression "
    "of three or more operators, distinct by description"};

namespace {

enum class L1 : Enum::Size {};
enum class L3 : Enum::Size {};
enum class L130 : Enum::Size {};
enum class N1 : Enum::Size { None = 1 };
enum class N4 : Enum::Size { None = 4 };
enum class N50 : Enum::Size { None = 50 };
enum class N127 : Enum::Size { None = 127 };
enum class N200 : Enum::Size { None = 200 };
enum class N254 : Enum::Size { None = 254 };

enum class B8 : uint8_t {};
enum class B16 : uint16_t {};
enum class B32 : uint32_t {};
enum class B64 : uint64_t {};

} // namespace

namespace kanji_tools {
template <> inline constexpr auto is_enumlist<L1>{true};
template <> inline constexpr auto is_enumlist<L3>{true};
template <> inline constexpr auto is_enumlist<L130>{true};
template <> inline constexpr auto is_enumlist_with_none<N1>{true};
template <> inline constexpr auto is_enumlist_with_none<N4>{true};
template <> inline constexpr auto is_enumlist_with_none<N50>{true};
template <> inline constexpr auto is_bitmask<B8>{true};
template <> inline constexpr auto is_bitmask<B16>{true};
template <> inline constexpr auto is_bitmask<B32>{true};
template <> inline constexpr auto is_bitmask<B64>{true};
} // namespace kanji_tools

namespace {

// any offset that is interesting for a container of n elements
int64_t offset(pbt::Gen& g, int64_t n) {
  int64_t x{};
  switch (g.below(7)) {
  case 0: x = g.below(4); break;
  case 1: x = n + g.range(-2, 2); break;
  case 2: x = g.below(static_cast<uint32_t>(n) + 2); break;
  case 3: x = 256 * g.range(1, 4) + g.range(-3, n + 3); break;
  case 4: x = 65536 + g.range(-3, n + 3); break;
  case 5: x = (int64_t{1} << g.range(20, 62)) + g.range(-3, n + 3); break;
  default:
    x = std::numeric_limits<int64_t>::max() - g.below(3);
    break;
  }
  return g.boolean() ? -x : x;
}

enum class Err { None, Range, Domain, Other };

template <typename F> Err attempt(F f) {
  try {
    f();
  } catch (const RangeError&) {
    return Err::Range;
  } catch (const DomainError&) {
    return Err::Domain;
  } catch (const pbt::Failure&) {
    throw;
  } catch (...) {
    return Err::Other;
  }
  return Err::None;
}

// A history of operations on two iterators of one range, 'value' checks the
// element read at a position.
template <typename It, typename V>
bool iterators(pbt::Ctx& c, It begin, It end, int64_t n, V value,
    std::string& log) {
  auto& g{c.g};
  It it[]{begin, end};
  int64_t at[]{0, n};
  bool refused{};
  for (auto ops{g.below(20) + 1}; ops; --ops) {
    const auto w{g.below(2)};
    auto& i{it[w]};
    auto& a{at[w]};
    const auto k{offset(g, n)};
    const auto op{g.below(13)};
    log += pbt::cat(" ", w, ":", op, ",", k);
    const auto move{[&](int64_t by, auto f) {
      const auto target{static_cast<__int128>(a) + by};
      const auto ok{target >= 0 && target <= n};
      const auto e{attempt(f)};
      PBT_EQ(e, ok ? Err::None : Err::Range, "size ", n, log);
      if (ok)
        a = static_cast<int64_t>(target);
      else
        refused = true;
    }};
    switch (op) {
    case 0: move(1, [&] { PBT_CHECK(&++i == &i, log); }); break;
    case 1: move(-1, [&] { PBT_CHECK(&--i == &i, log); }); break;
    case 2: {
      const auto old{i};
      move(1, [&] {
        const auto r{i++};
        PBT_CHECK(r == old, "post increment", log);
      });
      break;
    }
    case 3: {
      const auto old{i};
      move(-1, [&] {
        const auto r{i--};
        PBT_CHECK(r == old, "post decrement", log);
      });
      break;
    }
    case 4: move(k, [&] { PBT_CHECK(&(i += k) == &i, log); }); break;
    case 5: move(-k, [&] { PBT_CHECK(&(i -= k) == &i, log); }); break;
    case 6: {
      const auto keep{i};
      std::optional<It> r;
      move(k, [&] { r = i + k; });
      PBT_CHECK(i == keep, "+ moved the iterator", log);
      if (r) i = *r;
      break;
    }
    case 7: {
      const auto keep{i};
      std::optional<It> r;
      move(-k, [&] { r = i - k; });
      PBT_CHECK(i == keep, "- moved the iterator", log);
      if (r) i = *r;
      break;
    }
    case 8: {
      const auto target{static_cast<__int128>(a) + k};
      const auto e{attempt([&] { value(i[k], static_cast<int64_t>(target)); })};
      const auto ok{target >= 0 && target < n};
      PBT_EQ(e, ok ? Err::None : Err::Range, "size ", n, log);
      refused |= !ok;
      break;
    }
    default: break;
    }
    // the iterator is where the model says
    const auto e{attempt([&] { value(*i, a); })};
    PBT_EQ(e, a < n ? Err::None : Err::Range, "size ", n, " at ", a, log);
    PBT_EQ(static_cast<int64_t>(i - begin), a, "size ", n, log);
    PBT_EQ(static_cast<int64_t>(it[0] - it[1]), at[0] - at[1], log);
    PBT_EQ(it[0] == it[1], at[0] == at[1], log);
    PBT_EQ(it[0] != it[1], at[0] != at[1], log);
    PBT_EQ(it[0] < it[1], at[0] < at[1], log);
    PBT_EQ(it[0] <= it[1], at[0] <= at[1], log);
    PBT_EQ(it[0] > it[1], at[0] > at[1], log);
    PBT_EQ(it[0] >= it[1], at[0] >= at[1], log);
  }
  return refused;
}

template <typename I, typename List>
void indexWith(const List& list, int64_t k, int64_t n) {
  const auto i{static_cast<I>(k)};
  const auto ok{static_cast<__int128>(i) >= 0 && static_cast<__int128>(i) < n};
  int got{};
  const auto e{attempt([&] { got = to_underlying(list[i]); })};
  PBT_EQ(e, ok ? Err::None : Err::Range, "index ", +i, " of ", n, ", size ",
      sizeof(I));
  if (ok) PBT_EQ(got, static_cast<int>(i), "index ", +i, " of ", n);
}

std::string name(pbt::Gen& g) {
  switch (g.below(8)) {
  case 0: return "";
  case 1: return g.pick({"none", "NONE", "None ", " None", "Non", "Nonee"});
  case 2: return g.dictString();
  case 3: return gen::validText(g, 4);
  default: return pbt::cat(g.pick({"a", "b", "K", "あ"}), g.below(40));
  }
}

template <typename T, size_t... Is>
auto make(const std::vector<std::string>& v, std::index_sequence<Is...>) {
  return BaseEnumList<T>::create(v[0], v[Is + 1].c_str()...);
}

template <typename T, size_t N, bool HasNone> void list(pbt::Ctx& c) {
  auto& g{c.g};
  std::vector<std::string> names;
  std::set<std::string> used;
  const auto clash{g.chance(1, 4)};
  for (size_t i{}; i < N; ++i) {
    auto s{N > 20 && g.chance(19, 20) ? pbt::cat("v", i) : name(g)};
    s = s.c_str(); // no NUL inside
    if (s == "None" && HasNone) s = "N";
    for (uint32_t x{}; !used.insert(s).second; ++x) s += std::to_string(x);
    names.push_back(s);
  }
  enum { Good, Duplicate, Reserved } kind{Good};
  if (clash) {
    if (N > 1 && (!HasNone || g.boolean())) {
      kind = Duplicate;
      const auto i{g.below(N)}, j{g.below(N - 1)};
      names[i] = names[j < i ? j : j + 1];
    } else if (HasNone) {
      kind = Reserved;
      names[g.below(N)] = "None";
    }
  }
  std::string log{pbt::cat(N, HasNone ? "+None" : "", " kind ", int{kind}, " ")};
  for (size_t i{}; i < N && i < 12; ++i) log += "'" + names[i] + "' ";
  c.describe(log);
  PBT_CHECK(!BaseEnumList<T>::isCreated(), log);
  PBT_EQ(attempt([&] { (void)BaseEnumList<T>::instance(); }), Err::Domain, log);
  if (kind != Good) {
    PBT_EQ(attempt([&] {
      const auto l{make<T>(names, std::make_index_sequence<N - 1>{})};
    }),
        Err::Domain, "duplicate or reserved name accepted: ", log);
    PBT_CHECK(!BaseEnumList<T>::isCreated(), "left over list: ", log);
    c.nontrivial(log);
    return;
  }
  {
    const auto l{make<T>(names, std::make_index_sequence<N - 1>{})};
    const BaseEnumList<T>& base{l};
    const int64_t size{N + (HasNone ? 1 : 0)};
    PBT_EQ(static_cast<int64_t>(l.size()), size, log);
    PBT_CHECK(BaseEnumList<T>::isCreated(), log);
    PBT_CHECK(&BaseEnumList<T>::instance() == &base, log);
    PBT_EQ(attempt([&] {
      const auto again{make<T>(names, std::make_index_sequence<N - 1>{})};
    }),
        Err::Domain, "created twice", log);
    PBT_CHECK(BaseEnumList<T>::isCreated(), log);
    PBT_CHECK(&BaseEnumList<T>::instance() == &base, log);
    // names <-> values, in order
    int64_t at{};
    for (const auto x : l) {
      PBT_EQ(static_cast<int64_t>(to_underlying(x)), at, log);
      const auto expected{at < static_cast<int64_t>(N)
                              ? names[static_cast<size_t>(at)]
                              : std::string{"None"}};
      PBT_EQ(l.toString(x), expected, log);
      PBT_EQ(toString(x), expected, log);
      std::ostringstream o;
      o << x;
      PBT_EQ(o.str(), expected, log);
      if (at < static_cast<int64_t>(N))
        PBT_CHECK(l.fromString(expected) == x, expected, " ", log);
      if constexpr (HasNone) {
        PBT_EQ(hasValue(x), at < static_cast<int64_t>(N), log);
        PBT_EQ(!x, at == static_cast<int64_t>(N), log);
        PBT_EQ(isNextNone(x), at + 1 == static_cast<int64_t>(N), log);
      }
      ++at;
    }
    PBT_EQ(at, size, log);
    // values that aren't in the list
    for (auto v{size}; v < 256; v += 1 + g.below(40))
      PBT_EQ(attempt([&] { (void)l.toString(to_enum<T>(static_cast<uint8_t>(v))); }),
          Err::Range, v, " ", log);
    // other names
    for (auto k{g.below(6)}; k; --k) {
      auto s{g.chance(1, 4)  ? std::string{"None"}
             : g.chance(1, 4) ? std::string{}
             : g.chance(1, 3) ? g.pick(names) + g.pick({" ", "x", "0"})
                              : name(g)};
      const auto pos{std::find(names.begin(), names.end(), s)};
      const auto expected{pos == names.end()
                              ? std::optional<int>{}
                              : static_cast<int>(pos - names.begin())};
      const auto check{[&](auto f, std::optional<int> e, const char* what) {
        std::optional<int> got;
        const auto err{attempt([&] { got = to_underlying(f(s)); })};
        PBT_EQ(err, e ? Err::None : Err::Domain, what, " '", s, "' ", log);
        if (e) PBT_EQ(*got, *e, what, " '", s, "' ", log);
      }};
      check([&](auto& x) { return l.fromString(x); }, expected, "fromString");
      if constexpr (HasNone) {
        const auto none{std::optional<int>{static_cast<int>(N)}};
        check([&](auto& x) { return l.fromStringAllowEmpty(x); },
            s.empty() ? none : expected, "AllowEmpty");
        check([&](auto& x) { return l.fromStringAllowNone(x); },
            s == "None" ? none : expected, "AllowNone");
        check([&](auto& x) { return l.fromStringAllowEmptyAndNone(x); },
            s.empty() || s == "None" ? none : expected, "AllowEmptyAndNone");
      }
    }
    // indexes of every integral type
    for (auto k{g.below(8)}; k; --k) {
      const auto x{offset(g, size)};
      indexWith<int8_t>(l, x, size);
      indexWith<uint8_t>(l, x, size);
      indexWith<int16_t>(l, x, size);
      indexWith<uint16_t>(l, x, size);
      indexWith<int>(l, x, size);
      indexWith<unsigned>(l, x, size);
      indexWith<int64_t>(l, x, size);
      indexWith<uint64_t>(l, x, size);
    }
    const auto refused{iterators(
        c, l.begin(), l.end(), size,
        [&](T x, int64_t i) {
          PBT_EQ(static_cast<int64_t>(to_underlying(x)), i, log);
        },
        log)};
    PBT_CHECK((typename std::decay_t<decltype(l)>::ConstIterator{}) == l.begin(), log);
    c.describe(log);
    if (refused) c.nontrivial(log);
  }
  PBT_CHECK(!BaseEnumList<T>::isCreated(), "list still set after its end: ", log);
}

template <typename T, size_t N> void map(pbt::Ctx& c) {
  auto& g{c.g};
  using M = EnumMap<T, int>;
  std::string log{pbt::cat("map of ", N)};
  M m, other;
  std::vector<int> model(N);
  const auto& cm{m};
  for (auto k{g.below(30)}; k; --k) {
    const auto key{g.chance(1, 5) ? g.below(256)
                                  : g.below(static_cast<uint32_t>(N) + 1)};
    const auto x{to_enum<T>(static_cast<uint8_t>(key))};
    const auto v{static_cast<int>(g.below(1000) * 1000 + k)};
    const auto good{key < N};
    log += pbt::cat(" [", key, "]=", v);
    PBT_EQ(attempt([&] { m[x] = v; }), good ? Err::None : Err::Range, log);
    if (good) model[key] = v;
    int got{-1};
    PBT_EQ(attempt([&] { got = cm[x]; }),
        key <= N ? Err::None : Err::Range, log);
    PBT_EQ(got, good ? v : key == N ? 0 : -1, log);
  }
  PBT_EQ(static_cast<size_t>(m.size()), N, log);
  std::vector<int> seen;
  for (const auto& i : m) seen.push_back(i);
  PBT_EQ(seen, model, "values seen by iteration: ", log);
  for (size_t i{}; i < N; ++i)
    PBT_EQ(cm[to_enum<T>(static_cast<uint8_t>(i))], model[i], i, log);
  for (auto& i : other) PBT_EQ(i, 0, "a different map changed: ", log);
  // iterators of different maps can't be mixed
  const auto b{m.begin()};
  const auto o{other.begin()};
  const typename M::ConstIterator none;
  for (const auto& i : {o, none}) {
    PBT_EQ(attempt([&] { (void)(b == i); }), Err::Domain, log);
    PBT_EQ(attempt([&] { (void)(b != i); }), Err::Domain, log);
    PBT_EQ(attempt([&] { (void)(b < i); }), Err::Domain, log);
    PBT_EQ(attempt([&] { (void)(b <= i); }), Err::Domain, log);
    PBT_EQ(attempt([&] { (void)(b > i); }), Err::Domain, log);
    PBT_EQ(attempt([&] { (void)(b >= i); }), Err::Domain, log);
    PBT_EQ(attempt([&] { (void)(b - i); }), Err::Domain, log);
  }
  PBT_EQ(attempt([&] { (void)*none; }), Err::Domain, log);
  const auto refused{iterators(
      c, m.begin(), m.end(), static_cast<int64_t>(N),
      [&](const int& x, int64_t i) {
        PBT_EQ(x, model[static_cast<size_t>(i)], log);
      },
      log)};
  c.describe(log);
  if (refused) c.nontrivial(log);
}

template <typename T> void bits(pbt::Ctx& c) {
  auto& g{c.g};
  using U = std::underlying_type_t<T>;
  const auto any{[&] {
    switch (g.below(4)) {
    case 0: return static_cast<U>(0);
    case 1: return static_cast<U>(~U{});
    case 2: return static_cast<U>(U{1} << g.below(sizeof(U) * 8));
    default:
      return static_cast<U>((uint64_t{g.below(0xffffffff)} << 32) |
                            g.below(0xffffffff));
    }
  }};
  const auto start{any()};
  auto x{to_enum<T>(start)};
  auto e{start};
  std::string log{pbt::cat(sizeof(U) * 8, " bits ", +start)};
  const auto ops{g.below(10)};
  for (auto i{ops}; i; --i) {
    const auto y{any()};
    const auto op{g.below(7)};
    log += pbt::cat(" ", op, ":", +y);
    const auto t{to_enum<T>(y)};
    switch (op) {
    case 0: x = x & t; e = static_cast<U>(e & y); break;
    case 1: x = x | t; e = static_cast<U>(e | y); break;
    case 2: x = x ^ t; e = static_cast<U>(e ^ y); break;
    case 3: x = ~x; e = static_cast<U>(~e); break;
    case 4: PBT_CHECK(&(x &= t) == &x, log); e = static_cast<U>(e & y); break;
    case 5: PBT_CHECK(&(x |= t) == &x, log); e = static_cast<U>(e | y); break;
    default: PBT_CHECK(&(x ^= t) == &x, log); e = static_cast<U>(e ^ y); break;
    }
    PBT_EQ(+to_underlying(x), +e, log);
    PBT_EQ(hasValue(x), e != 0, log);
    PBT_EQ(!x, e == 0, log);
  }
  c.describe(log);
  if (ops > 2) c.nontrivial(log);
}

// names and order of the enumerations users see in output and data files
template <typename T, typename L>
void real(const L& l, const std::vector<std::string>& names, bool none) {
  std::vector<std::string> got;
  for (auto i : l) got.push_back(toString(i));
  auto expected{names};
  if (none) expected.emplace_back("None");
  PBT_EQ(got, expected, "names");
  for (size_t i{}; i < names.size(); ++i)
    PBT_EQ(static_cast<size_t>(to_underlying(l.fromString(names[i]))), i, names[i]);
}

} // namespace

PBT_SUB(lists, 50000, 1000000) {
  switch (c.g.weighted({2, 6, 1, 2, 6, 1})) {
  case 0: return list<L1, 1, false>(c);
  case 1: return list<L3, 3, false>(c);
  case 2: return list<L130, 130, false>(c);
  case 3: return list<N1, 1, true>(c);
  case 4: return list<N4, 4, true>(c);
  default: return list<N50, 50, true>(c);
  }
}

PBT_SUB(maps, 150000, 2000000) {
  switch (c.g.below(5)) {
  case 0: return map<N1, 1>(c);
  case 1: return map<N4, 4>(c);
  case 2: return map<N127, 127>(c);
  case 3: return map<N200, 200>(c);
  default: return map<N254, 254>(c);
  }
}

PBT_SUB(bitmasks, 40000, 1000000) {
  switch (c.g.below(4)) {
  case 0: return bits<B8>(c);
  case 1: return bits<B16>(c);
  case 2: return bits<B32>(c);
  default: return bits<B64>(c);
  }
}

PBT_ENUM(declared, 1) {
  c.describe("enumerations used by the programs");
  real<CharType>(CharTypes, {"Hiragana", "Katakana", "Romaji"}, false);
  real<KanjiTypes>(AllKanjiTypes,
      {"Jouyou", "Jinmei", "LinkedJinmei", "LinkedOld", "Frequency", "Extra",
          "Kentei", "Ucd"},
      true);
  real<KanjiGrades>(
      AllKanjiGrades, {"G1", "G2", "G3", "G4", "G5", "G6", "S"}, true);
  real<JlptLevels>(AllJlptLevels, {"N5", "N4", "N3", "N2", "N1"}, true);
  real<KenteiKyus>(AllKenteiKyus,
      {"K10", "K9", "K8", "K7", "K6", "K5", "K4", "K3", "KJ2", "K2", "KJ1",
          "K1"},
      true);
  real<JinmeiReasons>(AllJinmeiReasons,
      {"Names", "Print", "Variant", "Moved", "Simple", "Other"}, true);
  real<Ucd::LinkTypes>(AllUcdLinkTypes,
      {"Compatibility*", "Definition*", "Jinmei*", "Semantic*", "Simplified*",
          "Traditional*", "Compatibility", "Definition", "Jinmei",
          "Simplified", "Traditional"},
      true);
  // flags have to be different bits
  unsigned all{};
  for (auto i : {ConvertFlags::Hepburn, ConvertFlags::Kunrei,
           ConvertFlags::NoProlongMark, ConvertFlags::RemoveSpaces}) {
    const unsigned x{to_underlying(i)};
    PBT_CHECK(x && !(x & (x - 1)) && !(all & x), "flag ", x);
    all |= x;
  }
  PBT_CHECK(!ConvertFlags::None, "no flags");
  c.nontrivial("declared");
}

PBT_SUB(args, 30000, 500000) {
  auto& g{c.g};
  static const char* strings[70000];
  static const bool once{[] {
    for (size_t i{}; i < 70000; ++i) strings[i] = reinterpret_cast<const char*>(i + 1);
    return true;
  }()};
  (void)once;
  const auto check{[&](const Args& a, uint32_t n, const std::string& log) {
    PBT_EQ(static_cast<uint32_t>(a.size()), n, log);
    PBT_EQ(static_cast<bool>(a), n != 0, log);
    for (auto k{g.below(6) + 1}; k; --k) {
      const auto i{std::min(65535U, g.chance(1, 3) ? n + g.below(3)
                   : g.boolean()  ? (n ? g.below(n) : 0)
                                  : g.number(65535))};
      const char* got{};
      PBT_EQ(attempt([&] { got = a[static_cast<Args::Size>(i)]; }),
          i < n ? Err::None : Err::Range, "arg ", i, " of ", log);
      if (i < n) PBT_CHECK(got == strings[i], "arg ", i, " of ", log);
    }
  }};
  const auto count{g.pick({-1, -65536, -65535, std::numeric_limits<int>::min(),
      0, 1, 2, 65534, 65535, 65536, 65537, 131072,
      std::numeric_limits<int>::max(), -2})};
  const auto n{g.boolean() ? count : static_cast<int>(g.number(70000))};
  const auto null{g.chance(1, 4)};
  const auto log{pbt::cat(n, null ? " null" : " strings")};
  c.describe(log);
  const auto list{null ? nullptr : strings};
  const auto expected{n < 0 || n > 65535 ? Err::Range
                      : (n == 0) != null ? Err::Domain
                                         : Err::None};
  PBT_EQ(attempt([&] {
    const Args a{n, list};
    check(a, static_cast<uint32_t>(n), log);
  }),
      expected, log);
  if (n >= 0 && n <= 65535)
    PBT_EQ(attempt([&] {
      const Args a{static_cast<Args::Size>(n), list};
      check(a, static_cast<uint32_t>(n), log);
    }),
        expected, log);
  const Args empty;
  check(empty, 0, "default");
  if (expected != Err::None) c.nontrivial(log);
}
