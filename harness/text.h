// Reference UTF-8 / Unicode helpers and text generators. Nothing in this file
// uses the code under test.
#pragma once

#include "pbt.h"

#include <array>
#include <optional>

namespace ref {

using Code = char32_t;
using Codes = std::u32string;

// encode one scalar value (caller must not pass surrogates or > 10FFFF)
inline std::string enc(Code c) {
  std::string r;
  if (c < 0x80)
    r += static_cast<char>(c);
  else if (c < 0x800) {
    r += static_cast<char>(0xc0 + c / 64);
    r += static_cast<char>(0x80 + c % 64);
  } else if (c < 0x10000) {
    r += static_cast<char>(0xe0 + c / 4096);
    r += static_cast<char>(0x80 + c / 64 % 64);
    r += static_cast<char>(0x80 + c % 64);
  } else {
    r += static_cast<char>(0xf0 + c / 262144);
    r += static_cast<char>(0x80 + c / 4096 % 64);
    r += static_cast<char>(0x80 + c / 64 % 64);
    r += static_cast<char>(0x80 + c % 64);
  }
  return r;
}

inline std::string enc(const Codes& s) {
  std::string r;
  for (auto c : s) r += enc(c);
  return r;
}

inline bool isScalar(Code c) {
  return c <= 0x10ffff && !(c >= 0xd800 && c <= 0xdfff);
}

enum class Kind { Ascii, Valid, Bad };

struct Item {
  Kind kind{};
  Code code{};    // decoded value (0xfffd if bad)
  size_t bytes{}; // bytes consumed by a decoder producing replacements
  // reasons for Bad
  bool continuation{}, tooLong{}, missing{}, overlong{}, badCode{};
};

// Decode the item at s[i]. A sequence that ends early consumes the bytes up to
// the offending one (which is looked at again); a complete sequence with a bad
// value is consumed as a whole; an impossible first byte is consumed alone.
inline Item decodeAt(std::string_view s, size_t i) {
  const auto byte{[&](size_t k) -> unsigned {
    return k < s.size() ? static_cast<unsigned char>(s[k]) : 0U;
  }};
  Item r;
  const auto b{byte(i)};
  r.code = 0xfffd;
  r.kind = Kind::Bad;
  r.bytes = 1;
  if (b < 0x80) {
    r.kind = Kind::Ascii;
    r.code = b;
    return r;
  }
  if (b < 0xc0) {
    r.continuation = true;
    return r;
  }
  if (b >= 0xf8) {
    r.tooLong = true;
    return r;
  }
  const size_t len{b < 0xe0 ? 2U : b < 0xf0 ? 3U : 4U};
  Code v{b & (len == 2 ? 0x1fU : len == 3 ? 0xfU : 7U)};
  for (size_t k{1}; k < len; ++k) {
    const auto x{byte(i + k)};
    if (x < 0x80 || x > 0xbf) {
      r.missing = true;
      r.bytes = k;
      return r;
    }
    v = v * 64 + (x - 0x80);
  }
  r.bytes = len;
  if (v < (len == 2 ? 0x80U : len == 3 ? 0x800U : 0x10000U))
    r.overlong = true;
  else if (!isScalar(v))
    r.badCode = true;
  else {
    r.kind = Kind::Valid;
    r.code = v;
  }
  return r;
}

// strings are treated as ending at the first NUL (as the API takes C strings)
inline std::string_view toNul(std::string_view s) {
  return s.substr(0, s.find('\0'));
}

inline Codes decode(std::string_view s) {
  s = toNul(s);
  Codes r;
  for (size_t i{}; i < s.size();) {
    const auto x{decodeAt(s, i)};
    r += x.code;
    i += x.bytes;
  }
  return r;
}

inline bool isValid(std::string_view s) {
  for (size_t i{}; i < s.size();) {
    const auto x{decodeAt(s, i)};
    if (x.kind == Kind::Bad) return false;
    i += x.bytes;
  }
  return true;
}

// Unicode ranges (written down from the Unicode standard's Blocks.txt)
struct Range {
  Code lo, hi;
};
using Ranges = std::vector<Range>;
inline bool in(Code c, const Ranges& r) {
  for (auto& i : r)
    if (c >= i.lo && c <= i.hi) return true;
  return false;
}
inline const Ranges Hiragana{{0x3040, 0x309f}};
inline const Ranges Katakana{{0x30a0, 0x30ff}, {0x31f0, 0x31ff}};
inline const Ranges CommonKanji{{0x3400, 0x4dbf}, {0x4e00, 0x9fff},
    {0xf900, 0xfaff}, {0x20000, 0x2a6df}};
inline const Ranges RareKanji{{0x2e80, 0x2eff}, {0x2a700, 0x2ebef},
    {0x2f800, 0x2fa1f}, {0x30000, 0x3134f}};
inline const Ranges Punctuation{
    {0x2000, 0x206f}, {0x3000, 0x303f}, {0xfff0, 0xffff}};
inline const Ranges Symbol{{0x2100, 0x214f}, {0x2190, 0x21ff}, {0x2200, 0x22ff},
    {0x2500, 0x257f}, {0x25a0, 0x25ff}, {0x2600, 0x26ff}, {0x2ff0, 0x2fff},
    {0x3190, 0x319f}, {0x31c0, 0x31ef}};
inline const Ranges Letter{{0x80, 0xff}, {0x100, 0x17f}, {0x180, 0x24f},
    {0x2150, 0x218f}, {0x2460, 0x24ff}, {0x2c60, 0x2c7f}, {0xff00, 0xffef}};
inline bool isVS(Code c) { return c >= 0xfe00 && c <= 0xfe0f; }
inline bool isMark(Code c) { return c == 0x3099 || c == 0x309a; }
inline bool isNonSpacing(Code c) { return isVS(c) || isMark(c); }

// kana (hiragana code point) + combining mark -> composed, from Unicode data
inline std::optional<Code> compose(Code base, Code mark) {
  Code shift{};
  if (base >= 0x30a1 && base <= 0x30f6) {
    shift = 0x60;
    base -= 0x60;
  }
  if (base < 0x3041 || base > 0x3096) return {};
  if (mark == 0x3099) {
    if (base == 0x3046) return 0x3094 + shift; // う -> ゔ
    // か..と rows: か(304b) to ぢ.. pairs plain/voiced
    if (base >= 0x304b && base <= 0x3062 && base % 2 == 1)
      return base + 1 + shift; // か(odd)..ち
    if (base == 0x3064 || base == 0x3066 || base == 0x3068)
      return base + 1 + shift; // つ て と
    if (base >= 0x306f && base <= 0x307d && (base - 0x306f) % 3 == 0)
      return base + 1 + shift; // は row
    return {};
  }
  if (base >= 0x306f && base <= 0x307d && (base - 0x306f) % 3 == 0)
    return base + 2 + shift;
  return {};
}

} // namespace ref

namespace gen {

using pbt::Gen;
using ref::Code;

inline Code fromRanges(Gen& g, const ref::Ranges& r) {
  auto& i{g.pick(r)};
  switch (g.below(8)) {
  case 0: return i.lo;
  case 1: return i.hi;
  default: return i.lo + g.below(static_cast<uint32_t>(i.hi - i.lo + 1));
  }
}

inline Code fixScalar(Code c) {
  return c > 0x10ffff || (c >= 0xd800 && c <= 0xdfff) || !c ? U'a' : c;
}

// one scalar value, never NUL
inline Code anyCode(Gen& g) {
  static const std::vector<Code> edges{1, 0x7e, 0x7f, 0x80, 0x81, 0x7fe, 0x7ff,
      0x800, 0x801, 0xfff, 0x1000, 0xd7ff, 0xe000, 0xfffc, 0xfffd, 0xfffe,
      0xffff, 0x10000, 0x10001, 0x3ffff, 0x40000, 0xfffff, 0x100000, 0x10fffe,
      0x10ffff, 0x3000, 0x3001, 0x30fb, 0x30fc, 0x3005, 0x309f, 0x30a0};
  switch (g.weighted({4, 3, 3, 4, 2, 2, 2, 2, 2, 2, 3, 2, 1})) {
  case 0: return U'a' + g.below(26);
  case 1: return 0x20 + g.below(0x5f);
  case 2: return fromRanges(g, ref::Hiragana);
  case 3: return 0x4e00 + g.below(0x5000);
  case 4: return fromRanges(g, ref::Katakana);
  case 5: return fromRanges(g, ref::CommonKanji);
  case 6: return fromRanges(g, ref::RareKanji);
  case 7: return fromRanges(g, ref::Punctuation);
  case 8: return fromRanges(g, ref::Symbol);
  case 9: return fromRanges(g, ref::Letter);
  case 10: return g.pick(edges);
  case 11: {
    // neighbour of a class boundary
    const ref::Ranges* all[]{&ref::Hiragana, &ref::Katakana, &ref::CommonKanji,
        &ref::RareKanji, &ref::Punctuation, &ref::Symbol, &ref::Letter};
    auto& r{g.pick(*all[g.below(7)])};
    return fixScalar(g.boolean() ? r.lo - g.below(3) : r.hi + g.below(3));
  }
  default: return fixScalar(g.number(0x10ffff));
  }
}

// valid UTF-8, may contain non-spacing marks; no NUL
inline std::string validText(Gen& g, uint32_t maxChars) {
  std::string r;
  for (auto n{g.longSize(maxChars)}; n; --n) {
    switch (g.weighted({20, 1, 1, 1})) {
    case 0: r += ref::enc(anyCode(g)); break;
    case 1: r += ref::enc(0xfe00 + g.below(16)); break;
    case 2: r += ref::enc(0x3099 + g.below(2)); break;
    default: {
      auto& d{g.dictString()};
      if (ref::isValid(d) && d.find('\0') == std::string::npos) r += d;
    }
    }
  }
  return r;
}

// one malformed piece
inline std::string badPiece(Gen& g) {
  std::string r;
  const auto put{[&r](unsigned x) { r += static_cast<char>(x); }};
  switch (g.below(8)) {
  case 0: put(0x80 + g.below(0x40)); break; // lone continuation
  case 1: put(0xf8 + g.below(8)); break;    // impossible first byte
  case 2: {                                 // truncated sequence
    auto code{0x80 + g.number(0x10ff00)};
    if (!ref::isScalar(code)) code = 0x3042;
    const auto s{ref::enc(code)};
    r = s.substr(0, 1 + g.below(static_cast<uint32_t>(s.size()) - 1));
    break;
  }
  case 3: put(0xc0 + g.below(2)); put(0x80 + g.below(64)); break;
  case 4: put(0xe0); put(0x80 + g.below(0x20)); put(0x80 + g.below(64)); break;
  case 5:
    put(0xf0); put(0x80 + g.below(0x10)); put(0x80 + g.below(64));
    put(0x80 + g.below(64));
    break;
  case 6: // surrogates
    put(0xed); put(0xa0 + g.below(0x20)); put(0x80 + g.below(64));
    break;
  default: { // beyond 10FFFF, and long forms
    const auto b{0xf4 + g.below(8)};
    put(b);
    put(b == 0xf4 ? 0x90 + g.below(0x30) : 0x80 + g.below(64));
    for (unsigned n{b < 0xf8 ? 2U : b < 0xfc ? 3U : 4U}; n; --n)
      put(0x80 + g.below(64));
  }
  }
  return r;
}

// bytes mixing valid and malformed pieces; no NUL
inline std::string anyBytes(Gen& g, uint32_t maxPieces) {
  std::string r;
  for (auto n{g.longSize(maxPieces)}; n; --n)
    switch (g.weighted({6, 3, 2})) {
    case 0: r += ref::enc(anyCode(g)); break;
    case 1: r += badPiece(g); break;
    default: r += static_cast<char>(1 + g.below(255));
    }
  return r;
}

// very long text (around 64K, 128K or 256K of bytes or pieces) made of pieces from 'f'
template <typename F> std::string huge(Gen& g, F f) {
  std::vector<std::string> parts;
  for (int i{}; i < 12; ++i) parts.push_back(f());
  const auto target{(65536U << g.below(3)) + g.below(4000)};
  const auto byBytes{g.boolean()};
  const auto step{1 + g.below(11)};
  const auto spread{1 + g.below(13)};
  std::string r;
  for (uint32_t i{}; (byBytes ? r.size() : i) < target && r.size() < 600000; ++i)
    r += parts[(i * step + i / spread + i / 997) % parts.size()];
  for (auto n{g.below(4)}; n; --n) r += f();
  return r;
}

} // namespace gen
