// libs: utils
#include "text.h"

#include <kt_utils/BlockRange.h>
#include <kt_utils/Exception.h>
#include <kt_utils/UnicodeBlock.h>

#include <regex>
#include <sstream>

using namespace kanji_tools;

const pbt::Info pbt::info{"P04",
    "every Unicode code point, plus random strings of one or more characters "
    "with and without variation selectors and combining marks, classified by "
    "the library and by tables taken from the Unicode block list; non-trivial "
    "= has a multi-byte character, distinct by content"};

namespace {

struct Class {
  const char* name;
  const ref::Ranges ranges;
  bool (*is)(const String&, bool);
  bool (*isAll)(const String&);
};

ref::Ranges join(std::initializer_list<ref::Ranges> l) {
  ref::Ranges r;
  for (auto& i : l) r.insert(r.end(), i.begin(), i.end());
  return r;
}

const std::vector<Class>& classes() {
  using namespace ref;
  static const std::vector<Class> c{
      {"Hiragana", Hiragana, isHiragana, isAllHiragana},
      {"Katakana", Katakana, isKatakana, isAllKatakana},
      {"Kana", join({Hiragana, Katakana}), isKana, isAllKana},
      {"CommonKanji", CommonKanji, isCommonKanji, isAllCommonKanji},
      {"RareKanji", RareKanji, isRareKanji, isAllRareKanji},
      {"Kanji", join({CommonKanji, RareKanji}), isKanji, isAllKanji},
      {"Symbol", Symbol, isMBSymbol, isAllMBSymbol},
      {"Letter", Letter, isMBLetter, isAllMBLetter},
      {"Punctuation", Punctuation,
          [](const String& s, bool one) { return isMBPunctuation(s, true, one); },
          isAllMBPunctuation},
      {"Recognized",
          join({Hiragana, Katakana, CommonKanji, RareKanji, Symbol, Letter,
              Punctuation}),
          isRecognizedUtf8, isAllRecognizedUtf8}};
  return c;
}

bool allModel(const ref::Codes& s, const ref::Ranges& r) {
  bool allow{};
  for (auto i : s)
    if (allow && ref::isNonSpacing(i))
      allow = false;
    else if (ref::in(i, r))
      allow = true;
    else
      return false;
  return true;
}

void check(const ref::Codes& s) {
  const auto u{ref::enc(s)};
  for (auto& k : classes()) {
    const bool first{!s.empty() && ref::in(s[0], k.ranges)};
    const bool punctWithMark{
        std::string_view{k.name} == "Punctuation" && s.size() > 1 &&
        s[0] == 0x3000};
    if (!punctWithMark)
      PBT_EQ(k.is(u, true),
          first && (s.size() == 1 || (s.size() == 2 && ref::isNonSpacing(s[1]))),
          k.name, " for ", pbt::show(u), " ", toUnicode(u));
    PBT_EQ(k.is(u, false), first, k.name, " (first only) for ", pbt::show(u));
    PBT_EQ(k.isAll(u), allModel(s, k.ranges), "all ", k.name, " for ",
        pbt::show(u), " ", toUnicode(u));
  }
  // punctuation excludes the wide space unless asked for
  if (!s.empty() && s[0] == 0x3000)
    PBT_CHECK(!isMBPunctuation(u) && !isMBPunctuation(u, false, false),
        "wide space counted as punctuation");
  else
    PBT_EQ(isMBPunctuation(u), isMBPunctuation(u, true), pbt::show(u));
}

template <typename T> bool inBlockRange(const T& r, Code c) {
  for (size_t i{}; i + 2 < r.size(); i += 3)
    if (c >= static_cast<Code>(r[i]) && c <= static_cast<Code>(r[i + 2]))
      return true;
  return false;
}

} // namespace

PBT_ENUM(every_code_point, 0x1100) {
  const auto start{c.g.below(0x1100) * 0x100U};
  c.describe(pbt::cat("code points from ", start));
  c.nontrivial(std::to_string(start));
  for (auto i{start}; i < start + 0x100; ++i) {
    if (!ref::isScalar(i) || !i) continue;
    check(ref::Codes(1, i));
    PBT_EQ(isNonSpacing(i), ref::isNonSpacing(i), i);
    int n{};
    for (auto* k : {"Hiragana", "Katakana", "CommonKanji", "RareKanji",
             "Symbol", "Letter", "Punctuation"})
      for (auto& x : classes())
        if (std::string_view{k} == x.name) n += x.is(ref::enc(i), true);
    PBT_EQ(n, isRecognizedUtf8(ref::enc(i)) ? 1 : 0,
        "character must be in exactly one class: ", i);
    const auto kana{ref::in(i, ref::Hiragana) || ref::in(i, ref::Katakana)};
    PBT_EQ(inBlockRange(KanaRange, i), kana, "kana regex range ", i);
    PBT_EQ(inBlockRange(HiraganaRange, i), ref::in(i, ref::Hiragana), i);
    PBT_EQ(inBlockRange(KatakanaRange, i), ref::in(i, ref::Katakana), i);
    PBT_EQ(inBlockRange(KanjiRange, i),
        ref::in(i, ref::CommonKanji) || ref::in(i, ref::RareKanji) ||
            ref::isVS(i),
        "kanji regex range ", i);
    PBT_EQ(inBlockRange(WideLetterRange, i), i >= 0xff00 && i <= 0xffef, i);
  }
}

PBT_SUB(short_strings, 600000, 5000000) {
  ref::Codes s;
  for (auto n{c.g.below(5)}; n; --n)
    s += c.g.chance(1, 3)
             ? (c.g.boolean() ? Code{0xfe00} + c.g.below(16)
                              : Code{0x3099} + c.g.below(2))
             : gen::anyCode(c.g);
  c.describe(pbt::show(ref::enc(s)) + " " + toUnicode(ref::enc(s)));
  if (s.size() > 1) c.nontrivial(ref::enc(s));
  check(s);
}

// strings from one class with possibly one stranger
PBT_SUB(same_class, 500000, 5000000) {
  auto& k{c.g.pick(classes())};
  ref::Codes s;
  for (auto n{1 + c.g.size(20)}; n; --n) {
    s += gen::fromRanges(c.g, k.ranges);
    if (c.g.chance(1, 6))
      s += c.g.boolean() ? Code{0xfe00} + c.g.below(16)
                         : Code{0x3099} + c.g.below(2);
  }
  if (c.g.chance(1, 3))
    s.insert(c.g.below(static_cast<uint32_t>(s.size()) + 1), 1,
        gen::anyCode(c.g));
  c.describe(pbt::show(ref::enc(s)));
  c.nontrivial(ref::enc(s));
  c.label(k.isAll(ref::enc(s)) ? "all" : "not all");
  check(s);
}

// malformed text never passes for kana, kanji, a symbol or a letter
PBT_SUB(malformed, 400000, 4000000) {
  const auto bad{gen::badPiece(c.g)};
  c.describe(pbt::show(bad));
  c.nontrivial(bad);
  for (auto& k : classes()) {
    if (std::string_view{k.name} == "Punctuation" ||
        std::string_view{k.name} == "Recognized")
      continue; // the replacement character is in the 'Specials' block
    PBT_CHECK(!k.is(bad, true) && !k.is(bad, false) && !k.isAll(bad), k.name);
    const auto s{ref::enc(gen::fromRanges(c.g, k.ranges)) + bad};
    PBT_CHECK(!k.is(s, true) && !k.isAll(s), k.name);
  }
}

// names, versions and release dates as published by Unicode
namespace {

struct Official {
  Code start, end;
  const char *name, *version, *date;
};

const std::vector<Official> Blocks[]{
    {{0x3040, 0x309f, "Hiragana", "1.1", "6, 1993"}},
    {{0x30a0, 0x30ff, "Katakana", "1.1", "6, 1993"},
        {0x31f0, 0x31ff, "Katakana Phonetic Extension", "3.2", "3, 2002"}},
    {{0x3400, 0x4dbf, "CJK Extension A", "3.0", "9, 1999"},
        {0x4e00, 0x9fff, "CJK Unified Ideographs", "1.1", "6, 1993"},
        {0xf900, 0xfaff, "CJK Compat. Ideographs", "1.1", "6, 1993"},
        {0x20000, 0x2a6df, "CJK Extension B", "3.1", "3, 2001"}},
    {{0x2e80, 0x2eff, "Radicals Supp.", "3.0", "9, 1999"},
        {0x2a700, 0x2ebef, "CJK Extension C-F", "5.2", "10, 2009"},
        {0x2f800, 0x2fa1f, "CJK Compat. Supp.", "3.1", "3, 2001"},
        {0x30000, 0x3134f, "CJK Extension G", "13.0", "3, 2020"}},
    {{0x2000, 0x206f, "General Punctuation", "1.1", "6, 1993"},
        {0x3000, 0x303f, "CJK Symbols and Punctuation", "1.1", "6, 1993"},
        {0xfff0, 0xffff, "Specials", "1.1", "6, 1993"}},
    {{0x2100, 0x214f, "Letter like Symbols", "1.1", "6, 1993"}, {0x2190, 0x21ff, "Arrows", "1.1", "6, 1993"},
        {0x2200, 0x22ff, "Mathematical Operators", "1.1", "6, 1993"},
        {0x2500, 0x257f, "Box Drawing", "1.1", "6, 1993"}, {0x25a0, 0x25ff, "Geometric Shapes", "1.1", "6, 1993"},
        {0x2600, 0x26ff, "Miscellaneous Symbols", "1.1", "6, 1993"},
        {0x2ff0, 0x2fff, "CJK Ideographic Desc. Chars", "3.0", "9, 1999"},
        {0x3190, 0x319f, "Kanbun (Annotations)", "1.1", "6, 1993"}, {0x31c0, 0x31ef, "CJK Strokes", "4.1", "3, 2005"}},
    {{0x80, 0xff, "Latin-1 Supplement", "1.1", "6, 1993"}, {0x100, 0x17f, "Latin Extended-A", "1.1", "6, 1993"},
        {0x180, 0x24f, "Latin Extended-B", "1.1", "6, 1993"}, {0x2150, 0x218f, "Number Forms", "1.1", "6, 1993"},
        {0x2460, 0x24ff, "Enclosed Alphanumerics", "1.1", "6, 1993"},
        {0x2c60, 0x2c7f, "Latin Extended-C", "5.0", "7, 2006"},
        {0xff00, 0xffef, "Halfwidth and Fullwidth Forms", "1.1", "6, 1993"}},
    {{0xfe00, 0xfe0f, "Variation Selectors", "3.2", "3, 2002"}}};

template <size_t N> void checkBlocks(size_t list, const std::array<UnicodeBlock, N>& blocks) {
  PBT_EQ(N, Blocks[list].size(), "number of blocks in list ", list);
  for (size_t i{}; i < N; ++i) {
    auto& e{Blocks[list][i]};
    auto& b{blocks[i]};
    PBT_EQ(b.start(), e.start, e.name);
    PBT_EQ(b.end(), e.end, e.name);
    PBT_EQ(static_cast<Code>(b.wStart()), e.start, e.name);
    PBT_EQ(static_cast<Code>(b.wEnd()), e.end, e.name);
    PBT_EQ(static_cast<size_t>(b.range()), static_cast<size_t>(e.end - e.start + 1), e.name);
    for (const Code x : std::vector<Code>{e.start - 1, e.start, e.start + 1, e.end - 1, e.end, e.end + 1})
      PBT_EQ(b(x), x >= e.start && x <= e.end, e.name, ' ', static_cast<uint32_t>(x));
    PBT_EQ(std::string{b.name()}, e.name, i);
    PBT_CHECK(b.version(), e.name);
    PBT_EQ(std::string{b.version()->version()}, e.version, e.name);
    std::ostringstream out, v;
    out << b;
    v << *b.version();
    PBT_EQ(v.str(), std::string{"v"} + e.version + ": " + e.date, e.name);
    PBT_EQ(out.str(), std::string{e.name} + " (" + v.str() + ')', e.name);
  }
}

template <typename T> void checkRange(const T& r, const std::vector<Official>& blocks, const char* name) {
  std::wstring e;
  for (auto& i : blocks) (e += static_cast<wchar_t>(i.start)) += L'-', e += static_cast<wchar_t>(i.end);
  PBT_EQ(r.size(), e.size(), name);
  PBT_CHECK(std::wstring{r()} == e, name);
  for (size_t i{}; i < e.size(); ++i) PBT_CHECK(r[i] == e[i], name, ' ', i);
  PBT_CHECK(r[e.size()] == 0, name);
  for (const size_t i : {e.size() + 1, e.size() + 2, e.size() + 256, static_cast<size_t>(-1)})
    try {
      (void)r[i];
      pbt::fail(pbt::cat(name, ": index ", i, " accepted"));
    } catch (const RangeError&) {
    }
}

// the regular expression "all of this range"
template <typename T> std::wregex expression(const T& r) { return std::wregex{std::wstring{L"^["} + r() + L"]+$"}; }

} // namespace

PBT_ENUM(blocks, 1) {
  c.describe("all blocks");
  c.nontrivial("all blocks");
  checkBlocks(0, HiraganaBlocks);
  checkBlocks(1, KatakanaBlocks);
  checkBlocks(2, CommonKanjiBlocks);
  checkBlocks(3, RareKanjiBlocks);
  checkBlocks(4, PunctuationBlocks);
  checkBlocks(5, SymbolBlocks);
  checkBlocks(6, LetterBlocks);
  checkBlocks(7, NonSpacingBlocks);
  static constexpr auto One{makeBlock<0x2329>()};
  static constexpr auto Two{makeBlock<0x2329, 0x232a>()};
  std::ostringstream out;
  out << One << ' ' << Two;
  PBT_EQ(out.str(), "start=2329, end=2329 start=2329, end=232A", "unofficial blocks");
  PBT_EQ(static_cast<size_t>(One.range()), 1U, "range");
  PBT_CHECK(!One.version() && One.name().empty() && One(0x2329) && !One(0x2328) && !One(0x232a), "one");
  static constexpr const UnicodeBlock::Version* Versions[]{&UVer1_0, &UVer1_1, &UVer2_0, &UVer3_0, &UVer3_1, &UVer3_2, &UVer4_1, &UVer5_0, &UVer5_2, &UVer13_0};
  static const char* const Published[]{"v1.0: 10, 1991", "v1.1: 6, 1993", "v2.0: 7, 1996", "v3.0: 9, 1999", "v3.1: 3, 2001", "v3.2: 3, 2002", "v4.1: 3, 2005", "v5.0: 7, 2006", "v5.2: 10, 2009", "v13.0: 3, 2020"};
  for (size_t i{}; i < std::size(Versions); ++i) {
    std::ostringstream v;
    v << *Versions[i];
    PBT_EQ(v.str(), Published[i], i);
  }
  std::vector<Official> kanji{Blocks[2]};
  kanji.push_back(Blocks[7][0]);
  kanji.insert(kanji.end(), Blocks[3].begin(), Blocks[3].end());
  checkRange(KanjiRange, kanji, "KanjiRange");
  checkRange(WideLetterRange, {Blocks[6][6]}, "WideLetterRange");
  checkRange(HiraganaRange, Blocks[0], "HiraganaRange");
  checkRange(KatakanaRange, Blocks[1], "KatakanaRange");
  checkRange(KanaRange, {{0x3040, 0x30ff, "", "", ""}, Blocks[1][1]}, "KanaRange");
}

// the ranges used in a regular expression agree with the classes
PBT_SUB(expressions, 60000, 1000000) {
  using namespace ref;
  static const auto kanji{join({CommonKanji, RareKanji, Ranges{{0xfe00, 0xfe0f}}})}, kana{join({Hiragana, Katakana})};
  static const Ranges wide{{0xff00, 0xffef}};
  const Ranges* all[]{&kanji, &kana, &Hiragana, &Katakana, &wide};
  const auto k{c.g.below(5)};
  Codes s;
  for (auto n{1 + c.g.size(12)}; n; --n) s += gen::fromRanges(c.g, *all[k]);
  if (c.g.chance(1, 2)) {
    auto x{gen::anyCode(c.g)};
    if (c.g.chance(1, 3)) { // next to the end of a range
      auto& r{c.g.pick(*all[k])};
      x = c.g.boolean() ? r.lo - 1 : r.hi + 1;
    }
    if (x != '\n' && x != '\r' && x != 0x2028 && x != 0x2029) s.insert(c.g.below(static_cast<uint32_t>(s.size()) + 1), 1, x);
  }
  c.describe(pbt::cat(k, ' ', pbt::show(enc(s))));
  c.nontrivial(pbt::cat(k, enc(s)));
  static const std::wregex x[]{expression(KanjiRange), expression(KanaRange), expression(HiraganaRange), expression(KatakanaRange), expression(WideLetterRange)};
  std::wstring w;
  for (auto i : s) w += static_cast<wchar_t>(i);
  for (size_t i{}; i < 5; ++i)
    PBT_EQ(std::regex_search(w, x[i]), std::all_of(s.begin(), s.end(), [&](auto y) { return in(y, *all[i]); }), "expression ", i);
}
