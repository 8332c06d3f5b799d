// Reference furigana removal (no regular expressions) and texts with readings.
#pragma once

#include "walk.h"

#include <set>

namespace furi {

using S = std::string;
using Codes = std::u32string;
inline constexpr char32_t Open{0xff08}, Close{0xff09}, Bad{0xdc00}; // Bad + byte

inline bool isBase(char32_t c) {
  static const ref::Ranges wide{{0xff00, 0xffef}};
  return ref::in(c, ref::CommonKanji) || ref::in(c, ref::RareKanji) || ref::isVS(c) || ref::in(c, wide);
}
inline bool isReading(char32_t c) { return ref::in(c, ref::Hiragana) || ref::in(c, ref::Katakana); }

// code points, with malformed bytes kept as values that no character has
inline Codes codes(const S& s) {
  Codes r;
  for (size_t i{}; i < s.size();) {
    const auto x{ref::decodeAt(s, i)};
    if (x.kind == ref::Kind::Bad)
      r += Bad + static_cast<unsigned char>(s[i++]);
    else {
      r += x.code;
      i += x.bytes;
    }
  }
  return r;
}
inline S bytes(const Codes& c) {
  S r;
  for (auto i : c)
    if (i >= Bad && i < Bad + 256)
      r += static_cast<char>(i - Bad);
    else
      r += ref::enc(i);
  return r;
}

struct Removed {
  Codes text;
  std::set<size_t> lines; // lines on which the character before a reading is
  size_t readings{}, spanning{};
};

// true if a line may be taken together with the one before it
inline bool joins(const Codes& s) {
  char32_t last{};
  for (size_t i{}; i < s.size(); ++i) {
    if (s[i] == Open || s[i] == Close) last = s[i];
    if (s[i] == '\n' && (last == Open || (i + 1 < s.size() && s[i + 1] == Open))) return true;
  }
  return false;
}

// remove readings, allowing 'breaks' line breaks around or in them
inline Removed removeReadings(const Codes& s, size_t breaks) {
  Removed r;
  size_t line{};
  for (size_t i{}; i < s.size();) {
    if (isBase(s[i])) {
      size_t k{i + 1}, nl{}, n{};
      const auto skip{[&] {
        while (k < s.size() && s[k] == '\n' && nl < breaks) ++k, ++nl;
      }};
      skip();
      // a bracket at the start of a line isn't taken as continuation of a line
      // which already has an unclosed one
      bool unclosed{};
      if (nl)
        for (auto b{i + 1}; b-- && s[b] != '\n';)
          if (s[b] == Open || s[b] == Close) {
            unclosed = s[b] == Open;
            break;
          }
      if (k < s.size() && s[k] == Open && !unclosed) {
        ++k;
        skip();
        while (k < s.size() && isReading(s[k])) {
          ++k, ++n;
          skip();
        }
        if (n && k < s.size() && s[k] == Close) {
          r.text += s[i];
          r.lines.insert(line);
          ++r.readings;
          r.spanning += nl;
          line += nl;
          i = k + 1;
          continue;
        }
      }
    }
    if (s[i] == '\n') ++line;
    r.text += s[i++];
  }
  return r;
}

inline S base(pbt::Gen& g) {
  switch (g.weighted({8, 2, 2, 1, 1})) {
  case 0: return g.pick({"漢", "字", "犬", "一", "逸", "齉", "㐀"});
  case 1: return ref::enc(gen::fromRanges(g, ref::CommonKanji));
  case 2: return ref::enc(gen::fromRanges(g, ref::RareKanji));
  case 3: { // wide letters, but not brackets
    auto x{0xff00 + g.below(0xf0)};
    if (x == Open || x == Close) x = 0xff21;
    return ref::enc(x);
  }
  default: return "逸" + ref::enc(0xfe00 + g.below(16));
  }
}
inline S kana(pbt::Gen& g, bool marks) {
  if (marks && g.chance(1, 10)) return "か" + ref::enc(0x3099 + g.below(2));
  switch (g.below(4)) {
  case 0: return ref::enc(0x3041 + g.below(0x56));
  case 1: return ref::enc(0x30a0 + g.below(0x60));
  case 2: return ref::enc(0x31f0 + g.below(0x10));
  default: return g.pick({"か", "ん", "じ", "ー", "ゟ", "゠", "ヿ", "ゝ", "\xe3\x81\x80"});
  }
}
inline S other(pbt::Gen& g) {
  switch (g.weighted({4, 2, 2, 2, 2, 2, 2})) {
  case 0: return kana(g, false);
  case 1: return g.pick({"。", "、", "「", "」", "・", "々", "〇", "　", "〻", "㇀", "゛"});
  case 2: return g.pick({"(", ")", "a", " ", "\t", "\r", "-"});
  case 3: return g.pick({"⼀", "⿰", "﷐", "︐", "ﻰ", "\xef\xbf\xb0", "\xe3\xac\x80"});
  case 4: { // neighbours of the ranges
    static const std::vector<char32_t> e{0x33ff, 0x3400, 0x4dbf, 0x4dc0, 0x4dff,
        0x4e00, 0x9fff, 0xa000, 0xf8ff, 0xf900, 0xfaff, 0xfb00, 0x1ffff, 0x20000,
        0x2a6df, 0x2a6e0, 0x2a700, 0x2ebef, 0x2ebf0, 0x2f7ff, 0x2f800, 0x2fa1f,
        0x2fa20, 0x2fffd, 0x30000, 0x3134f, 0x31350, 0x2e7f, 0x2e80, 0x2eff,
        0x2f00, 0x303f, 0x3040, 0x3100, 0x31ef, 0x31f0, 0x31ff, 0x3200, 0xfdff,
        0xfe10, 0xfeff, 0xff00, 0xffef, 0xfff0};
    return ref::enc(g.pick(e));
  }
  case 5: return gen::badPiece(g);
  default: return ref::enc(gen::anyCode(g));
  }
}

// one text; brackets are never next to a bracket (the full-width brackets
// themselves are 'wide letters')
inline S text(pbt::Gen& g, uint32_t n, bool multi) {
  std::vector<S> p;
  const auto reading{[&] {
    const auto hasBase{g.chance(7, 8)};
    p.push_back(hasBase ? base(g) : other(g));
    if (g.chance(1, 16)) p.push_back(other(g));
    p.push_back(g.chance(15, 16) ? "（" : g.pick({"(", "〔", "", "﹙", "［"}));
    for (auto k{g.chance(1, 20) ? 0 : g.chance(1, 100) ? g.pick({16U, 24U, 32U, 64U, 128U, 256U}) + g.below(3) : 1 + g.size(4)}; k; --k)
      p.push_back(g.chance(1, 30) ? g.boolean() ? base(g) : other(g) : kana(g, !multi));
    if (g.chance(1, 40)) p.push_back(base(g));
    p.push_back(g.chance(15, 16) ? "）" : g.pick({")", "〕", "", "（", "﹚"}));
  }};
  for (auto k{g.longSize(n)}; k; --k) switch (g.weighted({4, 3, 4, 1})) {
    case 0: reading(); break;
    case 1: p.push_back(base(g)); break;
    case 2: p.push_back(other(g)); break;
    default: p.push_back(g.pick({"（", "）"}));
    }
  Codes r;
  const auto breakChance{multi ? g.pick({0U, 5U, 15U, 40U}) : 0U};
  const auto bracket{[](char32_t c) { return c == Open || c == Close; }};
  for (auto& i : p) {
    if (breakChance && g.below(100) < breakChance)
      for (auto k{g.chance(1, 10) ? 2 : 1}; k; --k) r += '\n';
    for (auto x : codes(i)) {
      if (!x || (x == '\n' && !multi)) continue;
      auto last{r.size()};
      while (last && r[last - 1] == '\n') --last;
      if (last && bracket(x) && bracket(r[last - 1])) continue;
      // marks are taken with the character before them, which a line break or
      // a removed reading must not change
      if (multi && (ref::isMark(x) || ref::isVS(x)) && (r.empty() || r.back() == '\n' || bracket(r.back()))) continue;
      // neither may a line break split or join malformed bytes
      if (multi && !r.empty() && r.back() == '\n' && x >= Bad + 0x80 && x < Bad + 0xc0) continue;
      r += x;
    }
  }
  return bytes(r);
}

} // namespace furi
