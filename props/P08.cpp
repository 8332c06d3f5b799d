// libs: kana
#include "kana_ref.h"

#include <kt_kana/Converter.h>

using namespace kanji_tools;

const pbt::Info pbt::info{"P08",
    "mixed text (kanji, kana of both scripts, Romaji, unknown words, symbols, "
    "emoji, variation selectors, control characters, malformed bytes) converted "
    "whole, in parts and twice; non-trivial = mixes text that is converted with "
    "text that is not, distinct by content"};

namespace {

using enum CharType;
constexpr CharType Types[]{Hiragana, Katakana, Romaji};

// text that isn't kana, Romaji letters or a delimiter
std::string other(pbt::Gen& g) {
  for (;;) {
    ref::Code x{};
    switch (g.below(6)) {
    case 0: x = 0x4e00 + g.below(0x5000); break;
    case 1: x = gen::fromRanges(g, ref::CommonKanji); break;
    case 2: x = gen::fromRanges(g, ref::Symbol); break;
    case 3: x = 0x1f300 + g.below(0x300); break;
    case 4: x = g.pick({U'\t', U'\n', U'\r', U'\x01', U'\x7f', U'\x1b'}); break;
    default: x = gen::anyCode(g);
    }
    const auto s{ref::enc(x)};
    if (x < 0x80 ? x > 0x1f && x != 0x7f
                 : ref::isNonSpacing(x) || ref::in(x, ref::Hiragana) ||
                       ref::in(x, ref::Katakana))
      continue;
    bool mapped{};
    for (auto& d : kref::delims()) mapped = mapped || d.second == s;
    for (auto& d : kref::macrons()) mapped = mapped || d.first == s;
    if (mapped) continue;
    if (ref::in(x, ref::CommonKanji) && g.chance(1, 8))
      return s + ref::enc(0xfe00 + g.below(16));
    return s;
  }
}

std::string part(pbt::Gen& g) {
  switch (g.below(5)) {
  case 0: return gen::kanaText(g, false, 6);
  case 1: return gen::kanaText(g, true, 6);
  case 2: return gen::romajiText(g, 6, false);
  case 3: {
    static const std::vector<std::string> words{
        "k", "t", "sh", "q", "cat", "xyz", "nk", "Th", "v"};
    return g.pick(words);
  }
  default: return g.boolean() ? "ー" : "";
  }
}

std::string anyPart(pbt::Gen& g) {
  std::string s;
  switch (g.below(6)) {
  case 0: s += part(g); break;
  case 1: s += other(g); break;
  case 2: s += gen::anyBytes(g, 3); break;
  case 3: s += gen::romajiText(g, 4, true); break;
  case 4: s += g.pick({"ゝ", "ゞ", "ヽ", "ヾ", "々", "・", "゛"}); break;
  default: s += gen::validText(g, 4);
  }
  return s;
}

} // namespace

// converting parts separated by unrelated text = converting the whole
PBT_SUB(locality, 60000, 2000000) {
  const auto a{part(c.g)}, sep{other(c.g)}, b{part(c.g)};
  const auto to{c.g.below(3)}, f{c.g.below(16)};
  c.describe(pbt::cat(pbt::show(a + sep + b), " to ", to, " flags ", f));
  const Converter x{Types[to], static_cast<ConvertFlags>(f)};
  const auto whole{x.convert(a + sep + b)};
  if (whole != a + sep + b) c.nontrivial(a + sep + b);
  PBT_EQ(whole, x.convert(a) + sep + x.convert(b), a, sep, b);
  for (const auto from : Types) {
    const auto w{x.convert(from, a + sep + b)};
    PBT_EQ(w, x.convert(from, a) + sep + x.convert(from, b), a, sep, b);
  }
}

// text of other kinds is kept, in order
PBT_SUB(kept, 40000, 1200000) {
  std::string s, rest;
  for (auto n{c.g.below(10) + 1}; n; --n)
    if (c.g.boolean()) {
      const auto o{other(c.g)};
      s += o;
      rest += o;
    } else
      s += part(c.g);
  const auto to{c.g.below(3)}, f{c.g.below(16)};
  c.describe(pbt::cat(pbt::show(s), " to ", to, " flags ", f));
  if (!rest.empty() && rest != s) c.nontrivial(s);
  const Converter x{Types[to], static_cast<ConvertFlags>(f)};
  const auto filter{[](const std::string& t) {
    std::string r;
    for (auto& i : kref::chars(t)) {
      const auto k{ref::decode(i)[0]};
      bool skip{(k > 0x1f && k < 0x7f) || ref::in(k, ref::Hiragana) ||
                ref::in(k, ref::Katakana)};
      for (auto& d : kref::delims()) skip = skip || d.second == i;
      for (auto& d : kref::macrons()) skip = skip || d.first == i;
      if (!skip) r += i;
    }
    return r;
  }};
  PBT_EQ(filter(x.convert(s)), rest, s);
  for (const auto from : Types) PBT_EQ(filter(x.convert(from, s)), rest, s);
}

PBT_SUB(unrelated_only, 20000, 500000) {
  std::string s;
  for (auto n{c.g.below(12) + 1}; n; --n) s += other(c.g);
  c.describe(pbt::show(s));
  c.nontrivial(s);
  for (const auto to : Types)
    for (unsigned f{}; f < 16; ++f) {
      const Converter x{to, static_cast<ConvertFlags>(f)};
      PBT_EQ(x.convert(s), s, "");
      for (const auto from : Types) PBT_EQ(x.convert(from, s), s, "");
    }
}

// conversion of converted text changes nothing
PBT_SUB(idempotent, 40000, 1200000) {
  std::string s;
  for (auto n{c.g.below(6) + 1}; n; --n) s += part(c.g) + other(c.g);
  const auto to{c.g.below(3)}, f{c.g.below(16)};
  c.describe(pbt::cat(pbt::show(s), " to ", to, " flags ", f));
  const Converter x{Types[to], static_cast<ConvertFlags>(f)};
  const auto once{x.convert(s)};
  bool letters{};
  for (auto i : once) letters = letters || (i >= 'a' && i <= 'z') || (i >= 'A' && i <= 'Z');
  // unknown words in kana output may be read differently the second time
  if (to != 2 && letters) throw pbt::Discard{};
  if (once != s) c.nontrivial(s);
  PBT_EQ(x.convert(once), once, s);
  // source and target the same is the identity
  PBT_EQ(x.convert(Types[to], s), s, "");
}

// any bytes against the reference model
PBT_SUB(any_text, 60000, 2000000) {
  std::string s;
  for (auto n{c.g.longSize(12)}; n; --n) s += anyPart(c.g);
  s = std::string{ref::toNul(s)};
  const auto to{c.g.below(3)}, f{c.g.below(16)};
  c.describe(pbt::cat(pbt::show(s), " to ", to, " flags ", f));
  const Converter x{Types[to], static_cast<ConvertFlags>(f)};
  const auto r{x.convert(s)};
  if (r != s) c.nontrivial(s);
  PBT_EQ(r, kref::convert(s, static_cast<kref::Script>(to), f), "");
  Converter y;
  PBT_EQ(y.convert(s, Types[to], static_cast<ConvertFlags>(f)), r, "");
}

PBT_SUB(huge, 16, 400) {
  const auto s{gen::huge(c.g, [&] { return std::string{ref::toNul(anyPart(c.g))}; })};
  const auto to{c.g.below(3)}, f{c.g.below(16)};
  c.describe(pbt::cat("length ", s.size(), ": ", pbt::show(s.substr(0, 100)), " to ", to, " flags ", f));
  c.nontrivial(s);
  const Converter x{Types[to], static_cast<ConvertFlags>(f)};
  PBT_EQ(x.convert(s), kref::convert(s, static_cast<kref::Script>(to), f), "");
}
