// libs: kana
#include "text.h"

#include <kt_kana/Utf8Char.h>

using namespace kanji_tools;

const pbt::Info pbt::info{"P03",
    "random text of ASCII, kana, kanji, variation selectors, combining voice "
    "marks and malformed bytes, walked by the iterator and by a separate model; "
    "non-trivial = contains a selector, a combining mark or malformed bytes, "
    "distinct by content"};

namespace {

struct Model {
  std::vector<std::string> tokens;
  std::vector<size_t> errorsAfter, variantsAfter, marksAfter;
  size_t errors{}, variants{}, marks{};
};

Model model(std::string_view s, bool onlyMB) {
  s = ref::toNul(s);
  Model m;
  const auto push{[&m](const std::string& t) {
    m.tokens.push_back(t);
    m.errorsAfter.push_back(m.errors);
    m.variantsAfter.push_back(m.variants);
    m.marksAfter.push_back(m.marks);
  }};
  for (size_t i{}; i < s.size();) {
    const auto x{ref::decodeAt(s, i)};
    if (x.kind == ref::Kind::Ascii) {
      ++i;
      if (!onlyMB) push(std::string(1, static_cast<char>(x.code)));
    } else if (x.kind == ref::Kind::Bad) {
      ++i; // every offending byte is one error
      ++m.errors;
    } else {
      i += x.bytes;
      if (ref::isNonSpacing(x.code)) {
        ++m.errors; // nothing to modify
        continue;
      }
      auto t{ref::enc(x.code)};
      if (const auto n{ref::decodeAt(s, i)};
          i < s.size() && n.kind == ref::Kind::Valid) {
        if (ref::isVS(n.code)) {
          i += n.bytes;
          ++m.variants;
          t += ref::enc(n.code);
        } else if (ref::isMark(n.code)) {
          i += n.bytes;
          if (const auto k{ref::compose(x.code, n.code)}) {
            ++m.marks;
            t = ref::enc(*k);
          } else
            ++m.errors;
        }
      }
      push(t);
    }
  }
  return m;
}

std::string genText(pbt::Gen& g) {
  std::string r;
  for (auto n{g.longSize(30)}; n; --n)
    switch (g.weighted({6, 3, 3, 3, 2, 2})) {
    case 0: r += ref::enc(gen::anyCode(g)); break;
    case 1: // kana that may take a mark
      r += ref::enc((g.boolean() ? 0x3041 : 0x30a1) + g.below(0x56));
      break;
    case 2: r += ref::enc(0x3099 + g.below(2)); break;
    case 3: r += ref::enc(0xfe00 + g.below(16)); break;
    case 4: r += gen::badPiece(g); break;
    default: r += static_cast<char>(1 + g.below(127));
    }
  return r;
}

void walk(const std::string& s) {
  for (const bool onlyMB : {true, false}) {
    const auto m{model(s, onlyMB)};
    Utf8Char u{s};
    for (int round{}; round < 2; ++round) {
      std::string t, p;
      size_t n{};
      for (;; ++n) {
        p = "(unset)";
        const auto e{u.errors()}, v{u.variants()}, k{u.combiningMarks()};
        const bool hasPeek{u.peek(p, onlyMB)};
        PBT_CHECK(u.errors() == e && u.variants() == v &&
                      u.combiningMarks() == k,
            "looking ahead changed the counters");
        const bool has{u.next(t, onlyMB)};
        PBT_EQ(hasPeek, has, "look-ahead availability at ", n);
        if (!has) break;
        PBT_EQ(p, t, "look-ahead and next differ at ", n, " onlyMB=", onlyMB);
        PBT_CHECK(n < m.tokens.size(), "extra character ", pbt::show(t));
        PBT_EQ(t, m.tokens[n], "character ", n, " onlyMB=", onlyMB);
        PBT_EQ(u.errors(), m.errorsAfter[n], "errors after ", n);
        PBT_EQ(u.variants(), m.variantsAfter[n], "variants after ", n);
        PBT_EQ(u.combiningMarks(), m.marksAfter[n], "marks after ", n);
      }
      PBT_EQ(n, m.tokens.size(), "number of characters, onlyMB=", onlyMB);
      PBT_EQ(u.errors(), m.errors, "errors");
      PBT_EQ(u.variants(), m.variants, "variants");
      PBT_EQ(u.combiningMarks(), m.marks, "marks");
      u.reset();
      PBT_CHECK(!u.errors() && !u.variants() && !u.combiningMarks(),
          "counters not reset");
    }
    // counting agrees with iterating when the text is well formed
    if (ref::isValid(s)) {
      PBT_EQ(Utf8Char::size(s, onlyMB), m.tokens.size(), "size ", onlyMB);
      PBT_EQ(Utf8Char::size(s.c_str(), onlyMB), m.tokens.size(), "size");
      PBT_EQ(Utf8Char{s}.size(onlyMB), m.tokens.size(), "size");
    }
  }
}

} // namespace

PBT_SUB(iterate, 500000, 5000000) {
  const auto s{genText(c.g)};
  c.describe(pbt::show(s));
  const auto m{model(s, false)};
  if (m.errors || m.variants || m.marks) c.nontrivial(s);
  if (m.errors) c.label("errors");
  if (m.variants) c.label("variants");
  if (m.marks) c.label("marks");
  walk(s);
}

PBT_SUB(iterate_valid, 300000, 3000000) {
  const auto s{gen::validText(c.g, 50)};
  c.describe(pbt::show(s));
  const auto m{model(s, false)};
  if (m.errors || m.variants || m.marks) c.nontrivial(s);
  walk(s);
  // counting is additive
  const auto t{gen::validText(c.g, 10)};
  for (const bool mb : {true, false})
    PBT_EQ(Utf8Char::size(s + t, mb),
        Utf8Char::size(s, mb) + Utf8Char::size(t, mb), "size of concatenation");
}

// tens of thousands of characters
PBT_SUB(huge, 40, 1000) {
  const auto s{gen::huge(c.g, [&] { return genText(c.g).substr(0, 12); })};
  c.describe(pbt::cat("length ", s.size(), ": ", pbt::show(s.substr(0, 60))));
  c.nontrivial(s);
  walk(s);
}

// every kana/kanji (and neighbours) with every non-spacing character
PBT_ENUM(every_pair, 0x400) {
  const auto start{0x2f00 + c.g.below(0x400) * 4U};
  c.describe(pbt::cat("pairs from code point ", start));
  c.nontrivial(std::to_string(start));
  for (auto i{start}; i < start + 4; ++i) {
    for (Code m{0xfdff}; m <= 0xfe10; ++m) walk(ref::enc(i) + ref::enc(m));
    for (Code m{0x3098}; m <= 0x309b; ++m) {
      walk(ref::enc(i) + ref::enc(m));
      walk(ref::enc(i) + ref::enc(m) + ref::enc(m));
      walk("a" + ref::enc(i) + ref::enc(0xfe00) + ref::enc(m) + "z");
    }
  }
}

// helpers on single characters
PBT_SUB(single, 400000, 4000000) {
  const auto code{gen::anyCode(c.g)};
  const auto ch{ref::enc(code)};
  const auto vs{ref::enc(c.g.boolean() ? 0xfe00 + c.g.below(16)
                                       : Code{0xfe00} - 1 + c.g.below(2) * 17)};
  const bool isVs{ref::isVS(ref::decode(vs)[0])};
  c.describe(pbt::show(ch) + " + " + pbt::show(vs));
  if (code > 0x7f) c.nontrivial(ch + vs);
  const bool with{isVs && code > 0x7f};
  if (code > 0x7f) {
    PBT_EQ(Utf8Char::isCharWithVariationSelector(ch + vs), with, "");
    PBT_EQ(Utf8Char::noVariationSelector(ch + vs), with ? ch : ch + vs, "");
    PBT_EQ(Utf8Char::isCharWithVariationSelector(ch), false, "");
    PBT_EQ(Utf8Char::noVariationSelector(ch), ch, "");
  }
  PBT_EQ(Utf8Char::isVariationSelector(ch), ref::isVS(code), "");
  PBT_EQ(Utf8Char::isVariationSelector(vs), isVs, "");
  PBT_EQ(Utf8Char::isCombiningMark(ch), ref::isMark(code), "");
  PBT_EQ(Utf8Char::isCombiningMark(ch.c_str()), ref::isMark(code), "");
  // first character of longer text, including a following selector
  if (code > 0x7f && !ref::isNonSpacing(code)) {
    const auto rest{gen::validText(c.g, 4)};
    const auto m{model(ch + vs + rest, true)};
    PBT_EQ(Utf8Char::getFirst(ch + vs + rest), m.tokens[0], "");
  }
  const auto bytes{gen::anyBytes(c.g, 3)};
  const auto x{ref::decodeAt(bytes, 0)};
  for (const bool one : {true, false}) {
    const bool ok{!bytes.empty() && x.kind == ref::Kind::Valid &&
                  (!one || x.bytes == bytes.size())};
    PBT_EQ(Utf8Char{bytes}.isValid(one), ok, pbt::show(bytes), " one=", one);
    PBT_EQ(Utf8Char{bytes}.valid(one) == MBUtf8Result::NotMultiByte,
        bytes.empty() || x.kind == ref::Kind::Ascii, pbt::show(bytes));
  }
}
