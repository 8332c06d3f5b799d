// libs: utils
#include "text.h"

#include <kt_utils/Utf8.h>

using namespace kanji_tools;

const pbt::Info pbt::info{"P02",
    "byte strings starting with a chosen well-formed, truncated, overlong, "
    "surrogate, out-of-range, stray or impossible sequence, followed by "
    "nothing, text or more malformed bytes; verdicts compared with a separate "
    "RFC 3629 decoder; plus all 1-2 byte strings and all code points; "
    "non-trivial = starts with a byte >= 0x80, distinct by content"};

static void check(const std::string& s) {
  const auto t{ref::toNul(s)};
  for (const bool one : {false, true}) {
    Utf8Result e{Utf8Result::Valid}, e2{Utf8Result::Valid};
    const auto r{validateMBUtf8(s, e, one)};
    PBT_EQ(validateMBUtf8(s.c_str(), e2, one), r, "C string overload");
    PBT_EQ(e2, e, "C string overload error");
    PBT_EQ(validateMBUtf8(s, one), r, "");
    PBT_EQ(validateUtf8(s, one), e, "");
    PBT_EQ(isValidUtf8(s, one), e == Utf8Result::Valid, "");
    PBT_EQ(isValidMBUtf8(s, one), r == MBUtf8Result::Valid, "");
    const auto i{ref::decodeAt(t, 0)};
    if (t.empty() || i.kind == ref::Kind::Ascii) {
      PBT_EQ(r, MBUtf8Result::NotMultiByte, "single byte start");
      PBT_EQ(e, Utf8Result::Valid, "single byte start");
    } else if (i.kind == ref::Kind::Valid) {
      const bool longer{i.bytes < t.size()};
      PBT_EQ(r,
          one && longer ? MBUtf8Result::NotValid : MBUtf8Result::Valid,
          "well-formed start, sizeOne=", one);
      PBT_EQ(e, one && longer ? Utf8Result::StringTooLong : Utf8Result::Valid,
          "well-formed start, sizeOne=", one);
    } else {
      PBT_EQ(r, MBUtf8Result::NotValid, "malformed start, sizeOne=", one);
      if (i.continuation) PBT_EQ(e, Utf8Result::ContinuationByte, "");
      if (i.missing) PBT_EQ(e, Utf8Result::MissingBytes, "");
      if (i.overlong) PBT_EQ(e, Utf8Result::Overlong, "");
      if (i.badCode) PBT_EQ(e, Utf8Result::InvalidCodePoint, "");
      if (i.tooLong)
        PBT_CHECK(e == Utf8Result::CharTooLong ||
                      e == Utf8Result::MissingBytes,
            "error is ", static_cast<int>(e));
    }
  }
}

PBT_SUB(malformed_first, 2000000, 12000000) {
  auto s{gen::badPiece(c.g)};
  switch (c.g.below(4)) {
  case 0: break;
  case 1: s += ref::enc(gen::anyCode(c.g)); break;
  case 2: s += gen::badPiece(c.g); break;
  default: s += static_cast<char>(1 + c.g.below(255));
  }
  c.describe(pbt::show(s));
  c.nontrivial(s);
  check(s);
}

PBT_SUB(well_formed_first, 1500000, 10000000) {
  auto s{ref::enc(gen::anyCode(c.g))};
  switch (c.g.below(4)) {
  case 0: break;
  case 1: s += ref::enc(gen::anyCode(c.g)); break;
  case 2: s += gen::badPiece(c.g); break;
  default: s += gen::anyBytes(c.g, 4);
  }
  c.describe(pbt::show(s));
  if (s[0] < 0) c.nontrivial(s);
  check(s);
}

PBT_SUB(boundary_bytes, 1500000, 12000000) {
  static const std::vector<unsigned> lead{0xbf, 0xc0, 0xc1, 0xc2, 0xdf, 0xe0,
      0xe1, 0xec, 0xed, 0xee, 0xef, 0xf0, 0xf1, 0xf3, 0xf4, 0xf5, 0xf7, 0xf8,
      0xfb, 0xfc, 0xfd, 0xfe, 0xff},
      edge{0x00, 0x01, 0x41, 0x7f, 0x80, 0x81, 0x8f, 0x90, 0x9f, 0xa0, 0xbf,
          0xc0, 0xff};
  std::string s(1, static_cast<char>(c.g.pick(lead)));
  for (auto n{c.g.below(6)}; n; --n) s += static_cast<char>(c.g.pick(edge));
  c.describe(pbt::show(s));
  c.nontrivial(s);
  check(s);
}

// all strings of one and two bytes
PBT_ENUM(all_short, 256) {
  const auto a{c.g.below(256)};
  c.describe(pbt::cat("all strings starting with byte ", a));
  c.nontrivial(std::to_string(a));
  std::string s(1, static_cast<char>(a));
  check(s);
  for (unsigned b{}; b < 256; ++b) check(s + static_cast<char>(b));
  if (a >= 0xc0)
    for (unsigned b{0x78}; b < 0xc8; ++b)
      for (unsigned d{0x78}; d < 0xc8; ++d)
        check(s + static_cast<char>(b) + static_cast<char>(d));
}

// every 2, 3 and 4 byte pattern with lead byte and second byte enumerated, the
// rest at their extremes: covers each overlong/surrogate/limit boundary
PBT_ENUM(all_lead_pairs, 64) {
  const auto a{0xc0 + c.g.below(64)};
  c.describe(pbt::cat("lead byte ", a));
  c.nontrivial(std::to_string(a));
  for (unsigned b{0x80}; b < 0xc0; ++b)
    for (unsigned d : {0x80U, 0x81U, 0xbfU})
      for (unsigned e : {0x80U, 0x81U, 0xbfU}) {
        std::string s;
        for (auto i : {a, b, d, e}) {
          s += static_cast<char>(i);
          check(s);
          check(s + "x");
          check(s + "\xe3\x81\x82");
        }
      }
}

PBT_ENUM(every_code_block, 0x1100) {
  const auto start{c.g.below(0x1100) * 0x100U};
  c.describe(pbt::cat("code points from ", start));
  c.nontrivial(std::to_string(start));
  for (auto i{start}; i < start + 0x100; ++i) {
    // encode surrogates as well (they have to be rejected)
    const auto s{ref::enc(i)};
    check(s);
  }
}

PBT_ENUM(null_pointer, 1) {
  c.describe("null pointer");
  Utf8Result e{Utf8Result::Valid};
  PBT_EQ(validateMBUtf8(static_cast<const char*>(nullptr), e),
      MBUtf8Result::NotMultiByte, "");
  PBT_EQ(e, Utf8Result::Valid, "");
}
