// libs: utils
#include "text.h"

#include <kt_utils/Utf8.h>

using namespace kanji_tools;

const pbt::Info pbt::info{"P01",
    "random byte strings mixing well-formed characters of every length with "
    "truncated, overlong, surrogate, out-of-range and stray bytes (plus every "
    "code point in turn), decoded and encoded and compared with a separately "
    "written RFC 3629 decoder; non-trivial = contains a multi-byte or malformed "
    "sequence, distinct by content"};

static std::string codesStr(const std::u32string& s) {
  std::string r;
  for (auto c : s) {
    char b[12];
    snprintf(b, sizeof b, "%x ", static_cast<unsigned>(c));
    r += b;
  }
  return r;
}

static std::wstring wide(const std::u32string& s) {
  return std::wstring(s.begin(), s.end());
}

static void checkDecode(pbt::Ctx& c, const std::string& s) {
  const auto expected{ref::decode(s)};
  const auto got{fromUtf8(s)};
  if (got != expected)
    pbt::fail(pbt::cat("decoding ", pbt::show(s), " gave ", codesStr(got),
        "expected ", codesStr(expected)));
  PBT_CHECK(fromUtf8(s.c_str()) == expected, "C string overload differs");
  PBT_CHECK(fromUtf8ToWstring(s) == wide(expected), "wstring differs");
  PBT_CHECK(fromUtf8ToWstring(s.c_str()) == wide(expected), "wstring differs");
  const auto code{expected.empty() ? Code{} : expected[0]};
  PBT_CHECK(getCode(s) == code && getCode(s.c_str()) == code,
      "first code point differs: ", static_cast<unsigned>(getCode(s)));
  const auto max{1 + c.g.size(static_cast<uint32_t>(expected.size()) + 2)};
  const auto part{fromUtf8(s, max)};
  if (part != expected.substr(0, max))
    pbt::fail(pbt::cat("decoding at most ", max, " characters of ",
        pbt::show(s), " gave ", codesStr(part)));
  // encoding what was decoded gives well-formed text with the same characters
  const auto back{toUtf8(expected)};
  PBT_EQ(back, ref::enc(expected), "encoding code points");
  PBT_EQ(toUtf8(wide(expected)), back, "wide string encoding");
  if (ref::isValid(s)) PBT_EQ(back, s.substr(0, s.find('\0')), "round trip");
  PBT_CHECK(fromUtf8(back) == expected, "second decode differs");
}

PBT_SUB(mixed_bytes, 1000000, 20000000) {
  const auto s{gen::anyBytes(c.g, 24)};
  c.describe(pbt::show(s));
  bool multi{}, bad{};
  for (size_t i{}; i < s.size();) {
    const auto x{ref::decodeAt(s, i)};
    multi |= x.kind == ref::Kind::Valid;
    bad |= x.kind == ref::Kind::Bad;
    i += x.bytes;
  }
  if (multi || bad) c.nontrivial(s);
  c.label(bad ? multi ? "malformed+valid" : "malformed" : multi ? "valid" : "ascii");
  checkDecode(c, s);
}

// every byte string of three bytes after a chosen lead byte class, built from
// the boundary values of each byte position
PBT_SUB(boundary_bytes, 1000000, 20000000) {
  static const std::vector<unsigned> edge{0x01, 0x41, 0x7f, 0x80, 0x81, 0x8f,
      0x90, 0x9f, 0xa0, 0xbf, 0xc0, 0xc1, 0xc2, 0xdf, 0xe0, 0xe1, 0xec, 0xed,
      0xee, 0xef, 0xf0, 0xf1, 0xf3, 0xf4, 0xf5, 0xf7, 0xf8, 0xfb, 0xfc, 0xfd,
      0xfe, 0xff};
  std::string s;
  for (auto n{1 + c.g.below(7)}; n; --n)
    s += static_cast<char>(c.g.pick(edge));
  c.describe(pbt::show(s));
  c.nontrivial(s);
  checkDecode(c, s);
}

PBT_SUB(valid_text, 400000, 6000000) {
  const auto s{gen::validText(c.g, 60)};
  c.describe(pbt::show(s));
  if (!s.empty()) c.nontrivial(s);
  checkDecode(c, s);
}

// long strings (sizes around powers of two)
PBT_SUB(long_text, 6000, 120000) {
  std::string s;
  const auto target{1U << (4 + c.g.below(10))};
  const auto extra{c.g.below(9)};
  while (s.size() + 4 < target + extra) s += ref::enc(gen::anyCode(c.g));
  while (s.size() < target + extra) s += 'x';
  if (c.g.boolean()) s += gen::badPiece(c.g);
  c.describe(pbt::cat("length ", s.size(), ": ", pbt::show(s.substr(0, 60))));
  c.nontrivial(s);
  checkDecode(c, s);
}

// tens of thousands of characters
PBT_SUB(huge, 60, 1500) {
  const auto s{gen::huge(c.g, [&] { return gen::anyBytes(c.g, 4); })};
  c.describe(pbt::cat("length ", s.size(), ": ", pbt::show(s.substr(0, 60))));
  c.nontrivial(s);
  checkDecode(c, s);
  const auto expected{ref::decode(s)};
  for (const size_t max : {size_t{65534}, size_t{65535}, size_t{65536}, size_t{65537}, expected.size() - 1, expected.size(), expected.size() + 1})
    if (max) PBT_CHECK(fromUtf8(s, max) == expected.substr(0, max), "at most ", max, " characters");
}

// embedded NUL ends the text
PBT_SUB(embedded_nul, 50000, 500000) {
  const auto a{gen::anyBytes(c.g, 5)};
  const auto s{a + std::string(1, '\0') + gen::anyBytes(c.g, 5)};
  c.describe(pbt::show(s));
  c.nontrivial(s);
  PBT_CHECK(fromUtf8(s) == ref::decode(a), "text continues after NUL");
}

// all code points (including surrogates and values past the last one)
PBT_ENUM(every_code_block, 0x1120) {
  const auto start{c.g.below(0x1120) * 0x100U};
  c.describe(pbt::cat("code points from ", start));
  c.nontrivial(std::to_string(start));
  for (uint32_t i{start}; i < start + 0x100; ++i) {
    const auto expected{
        ref::isScalar(i) ? ref::enc(i) : std::string{"\xef\xbf\xbd"}};
    const auto s{toUtf8(static_cast<Code>(i))};
    PBT_EQ(s, expected, "encoding code point ", i);
    PBT_EQ(toUtf8(i), expected, "uint32 overload ", i);
    PBT_EQ(toUtf8(static_cast<int>(i)), expected, "int overload ", i);
    PBT_EQ(toUtf8(CodeString(1, i)), expected, "string overload ", i);
    if (i) {
      const Code back{ref::isScalar(i) ? i : 0xfffd};
      PBT_CHECK(fromUtf8(s) == CodeString(1, back), "decode of code ", i);
      PBT_CHECK(getCode(s) == back, "getCode of code ", i);
    }
  }
}

// arbitrary 32 bit values
PBT_SUB(any_uint32, 300000, 4000000) {
  std::u32string in;
  std::string expected;
  for (auto n{1 + c.g.below(4)}; n; --n) {
    const auto v{c.g.number(0x7fffffff) * (c.g.chance(1, 8) ? 2U : 1U)};
    if (!v) continue;
    in += v;
    expected += ref::isScalar(v) ? ref::enc(v) : std::string{"\xef\xbf\xbd"};
  }
  c.describe(codesStr(in));
  c.nontrivial(codesStr(in));
  PBT_EQ(toUtf8(in), expected, "");
  PBT_EQ(toUtf8(wide(in)), expected, "");
}
