// libs: kana
#include "kana_ref.h"

#include <kt_kana/Converter.h>
#include <kt_kana/Kana.h>

using namespace kanji_tools;

const pbt::Info pbt::info{"P06",
    "sequences of Romaji syllables in every accepted spelling (standard and "
    "variants), random letter case, doubled consonants, syllabic n with and "
    "without apostrophe, macrons and junk letters; expected kana known by "
    "construction or from a reference model; non-trivial = has an upper case "
    "letter, a variant spelling, a doubled consonant or n, distinct by content"};

namespace {

using enum CharType;

std::string conv(const std::string& s, CharType to, unsigned flags = 0) {
  Converter c{to, static_cast<ConvertFlags>(flags)};
  return c.convert(Romaji, s);
}

std::string spell(pbt::Gen& g, const kref::Row& r) {
  const auto n{g.below(static_cast<uint32_t>(r.variants.size()) + 1)};
  return n ? r.variants[n - 1] : r.romaji;
}

} // namespace

// text whose kana are known by construction
PBT_SUB(constructed, 240000, 2500000) {
  std::string in, other, kana;
  bool special{}, n{};
  for (auto k{c.g.below(8) + 1}; k; --k) {
    auto& row{c.g.pick(kref::Table)};
    const std::string first{row.romaji};
    auto a{spell(c.g, row)}, b{spell(c.g, row)};
    const auto kind{c.g.below(8)};
    if (row.hira == kref::N) {
      // decide below how the syllabic n is written
      n = special = true;
      in += gen::anyCase(c.g, "n") + "'";
      other += c.g.boolean() ? "n-" : "n'";
      kana += kref::N;
      continue;
    }
    if (c.g.chance(1, 6)) { // n directly before a consonant
      if (std::string{"aiueony"}.find(a[0]) == std::string::npos &&
          std::string{"aiueony"}.find(b[0]) == std::string::npos) {
        in += gen::anyCase(c.g, "n");
        other += "n";
        kana += kref::N;
        special = true;
      }
    }
    if (kind == 0 && kref::doubling(a[0]) && kref::doubling(b[0])) {
      a = (a[0] == 'c' && c.g.boolean() ? 't' : a[0]) + a;
      b = (b[0] == 'c' && c.g.boolean() ? 't' : b[0]) + b;
      kana += kref::SmallTsu;
      special = true;
    }
    kana += row.hira;
    if (a != b) special = true;
    if (kind == 1) { // long vowel
      for (auto& s : {&a, &b}) {
        std::vector<std::string> forms;
        for (auto& m : kref::macrons())
          if (m.second.first == s->back()) forms.push_back(m.first);
        s->pop_back();
        *s = gen::anyCase(c.g, *s) + forms.at(c.g.below(2));
      }
      kana += kref::Long;
      in += a;
      other += b;
      special = true;
    } else {
      in += gen::anyCase(c.g, a);
      other += gen::anyCase(c.g, b);
    }
  }
  if (c.g.chance(1, 4)) { // final n
    in += "N";
    other += "n";
    kana += kref::N;
  }
  c.describe(in + " / " + other);
  if (special) c.nontrivial(in);
  PBT_EQ(conv(in, Hiragana), kana, in);
  PBT_EQ(conv(other, Hiragana), kana, other);
  PBT_EQ(conv(in, Katakana), kref::toKata(kana), in);
  PBT_EQ(conv(other, Katakana), kref::toKata(kana), other);
  PBT_EQ(conv(kref::lower(in), Hiragana), kana, "lower case of ", in);
  PBT_EQ(conv(kref::upper(in), Hiragana), kana, "upper case of ", in);
  // the same with flags: Hepburn, Kunrei, NoProlongMark and RemoveSpaces
  const auto flags{c.g.below(16)};
  const auto want{kref::fromRomaji(in, kref::Hira, flags)};
  PBT_EQ(conv(in, Hiragana, flags), want, in, " with flags ", flags);
  PBT_EQ(conv(other, Hiragana, flags), want, other, " with flags ", flags);
  PBT_EQ(conv(kref::lower(in), Hiragana, flags), want, "lower case of ", in,
      " with flags ", flags);
  PBT_EQ(conv(kref::upper(in), Hiragana, flags), want, "upper case of ", in,
      " with flags ", flags);
}

// any Romaji-like text: independent of case and same in both scripts
PBT_SUB(any_case, 240000, 2500000) {
  const auto s{gen::romajiText(c.g, 10, true)};
  const auto t{gen::anyCase(c.g, s)};
  c.describe(pbt::show(s));
  c.nontrivial(s);
  const auto h{conv(s, Hiragana)}, k{conv(s, Katakana)};
  const auto flags{c.g.below(16)};
  PBT_EQ(kref::lower(conv(t, Hiragana, flags)),
      kref::lower(conv(s, Hiragana, flags)), "case with flags ", flags,
      ", from ", t);
  PBT_EQ(kref::lower(conv(t, Katakana, flags)),
      kref::lower(conv(s, Katakana, flags)), "case with flags ", flags,
      ", from ", t);
  // letters that can't be converted keep their case
  PBT_EQ(kref::lower(conv(t, Hiragana)), kref::lower(h), "case, from ", t);
  PBT_EQ(kref::lower(conv(t, Katakana)), kref::lower(k), "case, from ", t);
  PBT_EQ(h, kref::fromRomaji(s, kref::Hira, 0), "from ", s);
  PBT_EQ(k, kref::fromRomaji(s, kref::Kata, 0), "from ", s);
  if (s.find("\xe3") == std::string::npos)
    PBT_EQ(kref::toKata(h), k, "scripts differ from ", s);
}

PBT_SUB(words, 240000, 2500000) {
  const auto s{gen::romajiText(c.g, 8, false)};
  c.describe(pbt::show(s));
  c.nontrivial(s);
  PBT_EQ(conv(s, Hiragana), kref::fromRomaji(s, kref::Hira, 0), "from ", s);
  PBT_EQ(conv(s, Katakana), kref::fromRomaji(s, kref::Kata, 0), "from ", s);
}

PBT_SUB(letters, 240000, 2000000) {
  // dense short letter strings
  static const std::string l{"aiueonnkstcyhwxlzjdbmrvfgpqNKTA"};
  std::string s;
  for (auto n{c.g.below(7) + 1}; n; --n) s += c.g.pick(l);
  if (c.g.chance(1, 4)) s += c.g.pick(kref::macrons()).first;
  c.describe(s);
  c.nontrivial(s);
  PBT_EQ(conv(s, Hiragana), kref::fromRomaji(s, kref::Hira, 0), "from ", s);
}

// every letter string of up to 3 letters
PBT_ENUM(all_short, 26) {
  const auto a{static_cast<char>('a' + c.g.below(26))};
  c.describe(std::string{"letter strings starting with "} + a);
  c.nontrivial(std::string(1, a));
  for (int b{-1}; b < 26; ++b)
    for (int d{-1}; d < (b < 0 ? 0 : 26); ++d) {
      std::string s{a};
      if (b >= 0) s += static_cast<char>('a' + b);
      if (d >= 0) s += static_cast<char>('a' + d);
      for (const auto& x : {s, kref::upper(s),
               std::string(1, static_cast<char>(a - 32)) + s.substr(1),
               s + "'a", s + " na"})
        PBT_EQ(conv(x, Hiragana), kref::fromRomaji(x, kref::Hira, 0), x);
    }
}

// every spelling with every letter in either case, alone and doubled
PBT_ENUM(all_spellings, 204) {
  auto& row{kref::Table.at(c.g.below(204))};
  c.describe(row.hira);
  c.nontrivial(row.hira);
  std::vector<std::string> all{row.romaji};
  for (auto v : row.variants) all.push_back(v);
  for (auto& s : all)
    for (unsigned m{}; m < 1U << s.size(); ++m) {
      auto t{s};
      for (size_t i{}; i < t.size(); ++i)
        if (m >> i & 1U) t[i] = static_cast<char>(t[i] - 32);
      PBT_EQ(conv(t, Hiragana), row.hira, t);
      PBT_EQ(conv(t, Katakana), kref::toKata(row.hira), t);
      if (kref::doubling(s[0]))
        for (char d : {t[0], static_cast<char>(t[0] ^ 32)}) {
          PBT_EQ(conv(d + t, Hiragana), kref::SmallTsu + row.hira, d + t);
          if (s[0] == 'c')
            PBT_EQ(conv((d & 32 ? 't' : 'T') + t, Hiragana),
                kref::SmallTsu + row.hira, t);
        }
    }
}
