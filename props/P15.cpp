// libs: kanji
#include "text.h"

#include <kt_kanji/MorohashiId.h>
#include <kt_kanji/Strokes.h>
#include <kt_utils/Exception.h>
#include <kt_utils/String.h>
#include <kt_utils/Symbol.h>

#include <algorithm>
#include <limits>
#include <map>
#include <optional>

using namespace kanji_tools;

const pbt::Info pbt::info{"P15",
    "every Morohashi id of every kind in every spelling, every pair of stroke "
    "counts, generated (mostly nearly correct) id texts, numbers of every "
    "width in binary and hexadecimal, arbitrary texts for the case and byte "
    "helpers and histories of symbols, compared with models; non-trivial = a "
    "rejected id text of two or more characters, a valid id with prefix, "
    "suffix or leading zeroes, a number with several digits, or a text mixing "
    "letters and other bytes, distinct by input"};

namespace {

using Type = MorohashiId::IdType;

struct Id {
  uint32_t id;
  Type type;
};

// the documented format
std::optional<Id> parse(std::string s) {
  auto type{Type::Plain};
  if (s.empty()) return Id{0, type};
  const auto ends{[&s](std::string_view x) { return s.ends_with(x); }};
  if (ends("PP") || ends("''")) {
    type = Type::DoublePrime;
    s.resize(s.size() - 2);
  } else if (ends("P") || ends("'")) {
    type = Type::Prime;
    s.resize(s.size() - 1);
  } else if (s[0] == 'H') {
    type = Type::Supplemental;
    s.erase(0, 1);
  }
  if (s.empty()) return {};
  uint64_t id{};
  for (auto c : s) {
    if (c < '0' || c > '9') return {};
    if (id <= 65535) id = id * 10 + static_cast<uint64_t>(c - '0');
  }
  if (id > 65535 || (!id && type != Type::Plain)) return {};
  return Id{static_cast<uint32_t>(id), type};
}

std::string canonical(const Id& i) {
  if (!i.id) return {};
  const auto n{std::to_string(i.id)};
  switch (i.type) {
  case Type::Prime: return n + 'P';
  case Type::DoublePrime: return n + "PP";
  case Type::Supplemental: return 'H' + n;
  default: return n;
  }
}

void checkId(const std::string& s) {
  const auto e{parse(s)};
  std::optional<MorohashiId> got;
  try {
    got.emplace(s);
  } catch (const DomainError& x) {
    const std::string what{x.what()};
    // a message ends at an embedded NUL
    const auto expected{"Morohashi ID '" + s + "' "};
    PBT_CHECK(what.starts_with(expected.c_str()), what);
  }
  PBT_EQ(got.has_value(), e.has_value(), "accepted or not: ", pbt::show(s));
  if (!e) return;
  PBT_EQ(static_cast<uint32_t>(got->id()), e->id, pbt::show(s));
  PBT_EQ(got->idType(), e->type, pbt::show(s));
  PBT_EQ(static_cast<bool>(*got), e->id != 0, pbt::show(s));
  const auto text{canonical(*e)};
  PBT_EQ(got->toString(), text, pbt::show(s));
  std::ostringstream o;
  o << *got;
  PBT_EQ(o.str(), text, pbt::show(s));
  const MorohashiId again{text};
  PBT_CHECK(again == *got, "reads back differently: ", text);
}

std::string number(pbt::Gen& g) {
  switch (g.below(7)) {
  case 0: return std::to_string(g.below(20));
  case 1: return std::to_string(65520 + g.below(40));
  case 2: return std::to_string(65536 * g.range(1, 3) + g.below(70000));
  case 3: return std::to_string(6550 + g.below(10)) + std::to_string(g.below(1000));
  case 4: {
    std::string s;
    for (auto i{g.below(25)}; i; --i) s += static_cast<char>('0' + g.below(10));
    return s;
  }
  case 5: return std::to_string(uint64_t{0x100000000} + g.below(70000));
  default: return std::to_string(g.below(65536));
  }
}

std::string idText(pbt::Gen& g) {
  auto s{number(g)};
  if (g.chance(1, 3)) s = std::string(g.below(9), '0') + s;
  if (g.chance(1, 3)) s = g.pick({"H", "h", "HH", "P", "", "0", "+", "-", " "}) + s;
  if (g.chance(1, 2))
    s += g.pick({"P", "PP", "'", "''", "P'", "'P", "PPP", "'''", "p", "H", " ",
        "\"", "P ", "PP'", "’"});
  if (g.chance(1, 8) && !s.empty())
    s.insert(g.below(static_cast<uint32_t>(s.size())),
        1, g.pick({'/', ':', 'P', '\'', 'H', '.', ' ', '\0', '\xb0', 'x'}));
  if (g.chance(1, 20)) s = gen::validText(g, 6);
  return s;
}

std::string brackets(const std::string& s, BracketType t) {
  switch (t) {
  case BracketType::Curly: return "{" + s + "}";
  case BracketType::Round: return "(" + s + ")";
  case BracketType::Square: return "[" + s + "]";
  default: return s;
  }
}

const std::vector<BracketType> AllBrackets{BracketType::None, BracketType::Curly,
    BracketType::Round, BracketType::Square};

std::string digits(uint64_t x, unsigned base, bool upper, size_t size) {
  const std::string all{upper ? "0123456789ABCDEF" : "0123456789abcdef"};
  std::string r;
  for (; x; x /= base) r.insert(r.begin(), all[x % base]);
  while (r.size() < size || r.empty()) r.insert(r.begin(), '0');
  return r;
}

template <typename T> void numbers(pbt::Ctx& c, T x) {
  auto& g{c.g};
  const auto u{[&] {
    if constexpr (std::is_same_v<T, char>)
      return static_cast<uint64_t>(static_cast<unsigned char>(x));
    else
      return static_cast<uint64_t>(x);
  }()};
  const size_t size{g.chance(1, 2) ? 0 : g.below(20) + 1};
  const auto log{pbt::cat(u, " of ", sizeof(T), " bytes, size ", size)};
  c.describe(log);
  const auto h{size ? size : sizeof(T) * 2}, b{size ? size : sizeof(T) * 8};
  const auto t{g.pick(AllBrackets)};
  PBT_EQ(toHex(x, t, HexCase::Upper, size), brackets(digits(u, 16, true, h), t), log);
  PBT_EQ(toHex(x, t, HexCase::Lower, size), brackets(digits(u, 16, false, h), t), log);
  PBT_EQ(toBinary(x, t, size), brackets(digits(u, 2, false, b), t), log);
  if constexpr (!std::is_same_v<T, char>) {
    PBT_EQ(toHex(x, HexCase::Upper, size), digits(u, 16, true, h), log);
    PBT_EQ(toHex(x, t, size), brackets(digits(u, 16, false, h), t), log);
    PBT_EQ(toHex(x, size), digits(u, 16, false, h), log);
    PBT_EQ(toBinary(x, size), digits(u, 2, false, b), log);
  }
  if (u > 15) c.nontrivial(log);
}

uint64_t number64(pbt::Gen& g) {
  switch (g.below(4)) {
  case 0: return g.below(300);
  case 1: return (uint64_t{1} << g.below(64)) - g.below(2);
  case 2: return ~uint64_t{} - g.below(3);
  default: return (uint64_t{g.below(0xffffffff)} << 32) | g.below(0xffffffff);
  }
}

template <typename F> std::optional<int> charOf(F f) {
  try {
    const char c{f()};
    return c;
  } catch (const RangeError&) {
    return {};
  }
}

bool isUpper(char c) { return c >= 'A' && c <= 'Z'; }
bool isLower(char c) { return c >= 'a' && c <= 'z'; }
char lower(char c) { return isUpper(c) ? static_cast<char>(c + 32) : c; }
char upper(char c) { return isLower(c) ? static_cast<char>(c - 32) : c; }

class SymA final : public Symbol<SymA> {
public:
  inline static const String Type{"SymA"};
  using Symbol::Symbol;
};
class SymB final : public Symbol<SymB> {
public:
  inline static const String Type{"SymB"};
  using Symbol::Symbol;
};
class SymFull final : public Symbol<SymFull> {
public:
  inline static const String Type{"SymFull"};
  using Symbol::Symbol;
};

} // namespace

PBT_ENUM(ids, 65536) {
  const auto id{c.g.below(65536)};
  const auto n{std::to_string(id)};
  c.describe(n);
  for (auto zeroes : {"", "0", "000", "00000000000"})
    for (auto suffix : {"", "P", "'", "PP", "''", "P'", "'P"})
      checkId(zeroes + n + suffix);
  for (auto zeroes : {"H", "H00", "h", "P", "HH"}) checkId(zeroes + n);
  c.nontrivial(n);
}

PBT_SUB(idTexts, 300000, 8000000) {
  const auto s{idText(c.g)};
  c.describe(pbt::show(s));
  checkId(s);
  const auto p{parse(s)};
  if (p ? canonical(*p) != s : s.size() > 1) c.nontrivial(s);
}

PBT_SUB(idOrder, 60000, 1000000) {
  auto& g{c.g};
  std::vector<Id> v;
  for (int i{}; i < 3; ++i) {
    const auto n{g.chance(1, 2) ? g.below(4) : g.below(65536)};
    v.push_back({n, n ? static_cast<Type>(g.below(4)) : Type::Plain});
  }
  const MorohashiId a{canonical(v[0])}, b{canonical(v[1])}, d{canonical(v[2])};
  const auto log{pbt::cat(a, " ", b, " ", d)};
  c.describe(log);
  const auto key{[](const Id& x) {
    return std::pair{x.id, static_cast<int>(x.type)};
  }};
  const auto check{[&](const MorohashiId& x, const MorohashiId& y, size_t i,
                       size_t j) {
    PBT_EQ(x == y, key(v[i]) == key(v[j]), log);
    PBT_EQ(x != y, key(v[i]) != key(v[j]), log);
    PBT_EQ(x < y, key(v[i]) < key(v[j]), log);
    PBT_EQ(x > y, key(v[i]) > key(v[j]), log);
    PBT_EQ(x <= y, key(v[i]) <= key(v[j]), log);
    PBT_EQ(x >= y, key(v[i]) >= key(v[j]), log);
  }};
  check(a, b, 0, 1);
  check(b, d, 1, 2);
  check(a, d, 0, 2);
  check(a, a, 0, 0);
  if (v[0].id == v[1].id) c.nontrivial(log);
}

PBT_ENUM(strokes, 256) {
  const auto v{static_cast<Strokes::Size>(c.g.below(256))};
  c.describe(pbt::cat(+v));
  const auto make{[](auto... x) {
    std::optional<Strokes> r;
    int err{};
    try {
      r.emplace(x...);
    } catch (const RangeError&) {
      err = 1;
    } catch (const DomainError&) {
      err = 2;
    }
    return std::pair{r, err};
  }};
  const auto one{make(v)};
  PBT_EQ(one.second, v >= 1 && v <= 64 ? 0 : 1, +v);
  const auto text{std::to_string(v)};
  if (one.first) {
    PBT_EQ(+one.first->value(), +v, +v);
    PBT_EQ(+one.first->variant(), 0, +v);
    PBT_CHECK(!one.first->hasVariant(), +v);
    PBT_EQ(one.first->toString(), text, +v);
    PBT_EQ(one.first->toString(true), text, +v);
  }
  std::optional<Strokes> previous{one.first};
  for (unsigned w{}; w < 256; ++w) {
    const auto two{make(v, static_cast<Strokes::Size>(w))};
    const auto range{v >= 2 && v <= 64 && w >= 3 && w <= 33};
    PBT_EQ(two.second, !range ? 1 : v == w ? 2 : 0, +v, "/", w);
    if (!two.first) continue;
    const auto& s{*two.first};
    PBT_EQ(+s.value(), +v, w);
    PBT_EQ(static_cast<unsigned>(s.variant()), w, +v);
    PBT_CHECK(s.hasVariant(), +v, "/", w);
    PBT_EQ(s.toString(), text, w);
    PBT_EQ(s.toString(true), text + "/" + std::to_string(w), w);
    std::ostringstream o;
    o << s;
    PBT_EQ(o.str(), text, w);
    PBT_CHECK(s == *make(v, static_cast<Strokes::Size>(w)).first, w);
    PBT_CHECK(*previous < s && s > *previous && *previous != s &&
                  *previous <= s && s >= *previous,
        "order of ", previous->toString(true), " and ", s.toString(true));
    previous.emplace(s.value(), s.variant());
    // any greater main count follows
    if (v < 64)
      PBT_CHECK(s < Strokes(static_cast<Strokes::Size>(v + 1)), +v, "/", w);
  }
  c.nontrivial(text);
}

PBT_SUB(numberTexts, 200000, 3000000) {
  const auto x{number64(c.g)};
  switch (c.g.below(6)) {
  case 0: return numbers(c, static_cast<char>(x));
  case 1: return numbers(c, static_cast<uint8_t>(x));
  case 2: return numbers(c, static_cast<uint16_t>(x));
  case 3: return numbers(c, static_cast<uint32_t>(x));
  case 4: return numbers(c, static_cast<Code>(x));
  default: return numbers(c, x);
  }
}

PBT_SUB(unicodeTexts, 60000, 1000000) {
  auto& g{c.g};
  const auto s{g.boolean() ? gen::validText(g, 12) : gen::anyBytes(g, 12)};
  c.describe(pbt::show(s));
  std::string e;
  std::u32string wide;
  for (const auto i : ref::decode(s)) {
    if (!e.empty()) e += ' ';
    e += digits(i, 16, true, 4);
    wide += i;
  }
  const auto t{g.pick(AllBrackets)};
  PBT_EQ(toUnicode(s, t), brackets(e, t), pbt::show(s));
  PBT_EQ(toUnicode(wide, t), brackets(e, t), pbt::show(s));
  PBT_EQ(toUnicode(s), e, pbt::show(s));
  if (wide.size() == 1)
    PBT_EQ(toUnicode(wide[0], t), brackets(e, t), pbt::show(s));
  if (wide.size() > 1) c.nontrivial(s);
}

PBT_SUB(chars, 100000, 1000000) {
  auto& g{c.g};
  const auto x{g.chance(1, 2) ? static_cast<uint64_t>(g.below(600))
                              : number64(g)};
  const auto log{pbt::cat(x)};
  c.describe(log);
  const auto e{[](auto v) {
    return v >= 0 && static_cast<uint64_t>(v) < 256
               ? std::optional<int>{static_cast<signed char>(v)}
               : std::optional<int>{};
  }};
  const auto same{[&](std::optional<int> got, std::optional<int> want) {
    PBT_EQ(got.has_value(), want.has_value(), log);
    if (want) PBT_EQ(*got, *want, log);
  }};
  const auto i{static_cast<int>(g.boolean() ? x : 0 - x)};
  same(charOf([&] { return toChar(i, false); }), e(i));
  const auto neg{i < 0 && i >= -128 ? std::optional<int>{i} : e(i)};
  same(charOf([&] { return toChar(i); }), neg);
  same(charOf([&] { return toChar(static_cast<uint16_t>(x)); }), e(static_cast<uint16_t>(x)));
  same(charOf([&] { return toChar(static_cast<uint32_t>(x)); }), e(static_cast<uint32_t>(x)));
  same(charOf([&] { return toChar(static_cast<size_t>(x)); }), e(x));
  same(charOf([&] { return toChar(static_cast<Code>(x)); }), e(static_cast<uint32_t>(x)));
  const auto u{static_cast<uint8_t>(x)};
  same(charOf([&] { return toChar(u); }), e(u));
  PBT_EQ(+toUChar(toChar(u)), +u, log);
  PBT_EQ(isSingleByteChar(toChar(u)), u < 128, log);
  PBT_EQ(isSingleByteChar(static_cast<Code>(x)), static_cast<uint32_t>(x) < 128, log);
  if (x > 255) c.nontrivial(log);
}

PBT_SUB(textHelpers, 200000, 3000000) {
  auto& g{c.g};
  std::string s;
  switch (g.below(4)) {
  case 0: s = gen::validText(g, 10); break;
  case 1: s = gen::anyBytes(g, 10); break;
  default:
    for (auto i{g.below(8)}; i; --i)
      s += g.chance(1, 4) ? static_cast<char>(g.below(256))
                          : g.pick({'a', 'z', 'A', 'Z', '@', '[', '`', '{', 'm', '0', '-'});
  }
  const auto log{pbt::show(s)};
  c.describe(log);
  std::string l, u;
  for (auto i : s) {
    l += lower(i);
    u += upper(i);
  }
  PBT_EQ(toLower(s), l, log);
  PBT_EQ(toUpper(s), u, log);
  auto fl{s}, fu{s};
  if (!s.empty()) {
    fl[0] = lower(s[0]);
    fu[0] = upper(s[0]);
  }
  PBT_EQ(firstLower(s), fl, log);
  PBT_EQ(firstUpper(s), fu, log);
  const auto single{[](auto& x, auto f) { return f(x.begin(), x.end()); }};
  (void)single;
  const auto ascii{[](char x) { return static_cast<unsigned char>(x) < 128; }};
  PBT_EQ(isAllSingleByte(s), std::all_of(s.begin(), s.end(), ascii), log);
  PBT_EQ(isAnySingleByte(s), std::any_of(s.begin(), s.end(), ascii), log);
  PBT_EQ(isSingleByte(s), s.size() == 1 && ascii(s[0]), log);
  PBT_EQ(isSingleByte(s, false), !s.empty() && ascii(s[0]), log);
  CodeString w;
  for (auto i : ref::decode(s)) w += i;
  const auto wascii{[](Code x) { return x < 128; }};
  PBT_EQ(isAllSingleByte(w), std::all_of(w.begin(), w.end(), wascii), log);
  PBT_EQ(isAnySingleByte(w), std::any_of(w.begin(), w.end(), wascii), log);
  PBT_EQ(isSingleByte(w), w.size() == 1 && wascii(w[0]), log);
  PBT_EQ(isSingleByte(w, false), !w.empty() && wascii(w[0]), log);
  const auto n{g.below(14)};
  auto z{s};
  auto wz{w};
  while (z.size() < n || z.empty()) z = '0' + z;
  while (wz.size() < n || wz.empty()) wz = U'0' + wz;
  PBT_EQ(addLeadingZeroes(s, n), z, n, " ", log);
  PBT_CHECK(addLeadingZeroes(w, n) == wz, n, " ", log);
  for (auto t : AllBrackets) PBT_EQ(addBrackets(s, t), brackets(s, t), log);
  if (l != u && std::any_of(s.begin(), s.end(), [](char x) { return lower(x) == upper(x); }))
    c.nontrivial(s);
}

PBT_SUB(symbols, 30000, 300000) {
  auto& g{c.g};
  // symbols are global, so the model is kept for the life of the process
  static std::map<std::string, size_t> modelA, modelB;
  std::string log;
  for (auto k{g.below(8) + 1}; k; --k) {
    const auto b{g.boolean()};
    auto& model{b ? modelB : modelA};
    const auto name{g.chance(1, 8) ? std::string{}
                    : g.boolean()  ? gen::validText(g, 3)
                                   : std::to_string(g.below(50))};
    log += (b ? " B:" : " A:") + pbt::show(name);
    const auto known{model.contains(name)};
    PBT_EQ(b ? SymB::exists(name) : SymA::exists(name), known, log);
    if (g.chance(1, 4)) continue;
    const auto id{name.empty() ? 0
                  : known      ? model[name]
                               : (model[name] = model.size() + 1, model.size())};
    if (!name.empty()) model[name] = id;
    const auto check{[&](const auto& s, size_t total) {
      PBT_EQ(static_cast<size_t>(s.id()), id, log);
      PBT_EQ(s.name(), name, log);
      PBT_EQ(static_cast<bool>(s), !name.empty(), log);
      PBT_EQ(total, model.size(), log);
      std::ostringstream o;
      o << s;
      PBT_EQ(o.str(), name, log);
      using S = std::decay_t<decltype(s)>;
      PBT_CHECK(s == S{name} && !(s != S{name}), log);
      PBT_EQ(s == S{}, name.empty(), log);
      for (auto& [n, i] : model)
        if (i != id && i < 20) PBT_CHECK(s != S{n}, n, log);
    }};
    if (b) {
      const SymB s{name};
      check(s, SymB::size());
    } else {
      const SymA s{name};
      check(s, SymA::size());
    }
  }
  c.describe(log);
  c.nontrivial(log);
}

PBT_ENUM(symbolCapacity, 1) {
  c.describe("more symbols than fit");
  const auto max{static_cast<size_t>(SymFull::Max)};
  PBT_EQ(max, size_t{65534}, "documented maximum");
  const auto name{[](size_t i) { return "s" + std::to_string(i) + "e"; }};
  for (size_t i{1}; i <= max; ++i)
    PBT_EQ(static_cast<size_t>(SymFull{name(i)}.id()), i, i);
  std::vector<std::string> unknown;
  for (size_t i{max + 1}; i < max + 5; ++i) unknown.push_back(name(i));
  for (size_t i : {size_t{1}, size_t{9}, size_t{10}, size_t{777}, max / 2, max}) {
    const auto n{name(i)}, d{std::to_string(i)};
    for (auto& x : {n.substr(1), n.substr(0, n.size() - 1), n + "e", n + " ",
             " " + n, "S" + d + "e", "s0" + d + "e", d, "s" + d + "f",
             "s" + d + "d", "s" + d + "e1", n + n})
      unknown.push_back(x);
  }
  for (auto x : {"s", "e", "se", "r", "t", "S", " ", "~", "0", "ん", "𠮟"})
    unknown.emplace_back(x);
  for (auto& x : unknown) {
    auto refused{false};
    try {
      const SymFull s{x};
    } catch (const DomainError&) {
      refused = true;
    }
    PBT_CHECK(refused, "'", x, "' is one too many");
    PBT_CHECK(!SymFull::exists(x), x);
  }
  PBT_EQ(SymFull::size(), max, "size");
  for (size_t i{1}; i <= max; ++i) {
    const SymFull s{name(i)};
    PBT_EQ(static_cast<size_t>(s.id()), i, i);
    PBT_EQ(s.name(), name(i), i);
  }
  PBT_EQ(static_cast<size_t>(SymFull{""}.id()), size_t{0}, "empty");
  c.nontrivial("capacity");
}
