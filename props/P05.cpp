// libs: kana
#include "kana_ref.h"

#include <kt_kana/Converter.h>
#include <kt_kana/Kana.h>

using namespace kanji_tools;

const pbt::Info pbt::info{"P05",
    "sequences of kana of one script (all monographs and digraphs, small tsu, "
    "syllabic n, long marks, small letters, wide punctuation) converted to the "
    "other script, to Romaji and back, by every route; all pairs and many "
    "triples of kana; non-trivial = contains small tsu, n, a long mark or a "
    "small letter next to another kana, distinct by content"};

namespace {

using enum CharType;

std::string conv(CharType from, const std::string& s, CharType to) {
  Converter c{to};
  return c.convert(from, s);
}

void roundTrip(const std::string& hira, bool pure) {
  const auto kata{kref::toKata(hira)};
  PBT_EQ(conv(Hiragana, hira, Katakana), kata, "from ", hira);
  PBT_EQ(conv(Katakana, kata, Hiragana), hira, "from ", kata);
  const auto r{conv(Hiragana, hira, Romaji)};
  PBT_EQ(conv(Katakana, kata, Romaji), r, "Katakana to Romaji ", kata);
  PBT_EQ(conv(Romaji, r, Hiragana), hira, "back from ", r);
  PBT_EQ(conv(Romaji, r, Katakana), kata, "back from ", r);
  PBT_EQ(conv(Romaji, kref::upper(r), Hiragana), hira, "back from upper ", r);
  // whole text conversions take the same route
  for (const auto& s : {hira, kata, r}) {
    Converter c;
    PBT_EQ(c.convert(s, Hiragana), hira, "from ", s);
    PBT_EQ(c.convert(s, Katakana), kata, "from ", s);
    if (s != r) PBT_EQ(c.convert(s, Romaji), r, "from ", s);
  }
  if (pure)
    for (auto x : kref::chars(r)) {
      bool ok{x == "'" || (x.size() == 1 && x[0] >= 'a' && x[0] <= 'z')};
      for (auto& m : kref::macrons()) ok = ok || m.first == x;
      PBT_CHECK(ok, "Romaji output ", r, " of ", hira, " contains ", x);
    }
}

bool special(const std::string& s) {
  const auto c{kref::chars(s)};
  if (c.size() < 2) return false;
  for (auto& i : c)
    if (i == "っ" || i == "ん" || i == "ー" || i == "ゃ" || i == "ぁ" ||
        i == "ょ" || i == "ぇ")
      return true;
  return false;
}

} // namespace

PBT_SUB(kana_text, 70000, 1200000) {
  const auto h{gen::kanaText(c.g, false, 14)};
  c.describe(h);
  if (special(h)) c.nontrivial(h);
  // a narrow quote mark can't be distinguished from wide punctuation mapping
  roundTrip(h, false);
}

PBT_SUB(pure_kana, 70000, 1200000) {
  const auto h{gen::kanaText(c.g, false, 10, false, false)};
  c.describe(h);
  if (special(h)) c.nontrivial(h);
  roundTrip(h, true);
}

PBT_SUB(long_text, 300, 10000) {
  std::string h;
  for (auto n{c.g.below(60) + 5}; n; --n) h += gen::kanaText(c.g, false, 40);
  c.describe(h.substr(0, 300));
  c.nontrivial(h);
  roundTrip(h, false);
}

// tens of thousands of kana
PBT_SUB(huge, 16, 400) {
  const auto h{gen::huge(c.g, [&] { return gen::kanaText(c.g, false, 6); })};
  c.describe(pbt::cat("length ", h.size(), ": ", h.substr(0, 300)));
  c.nontrivial(h);
  roundTrip(h, false);
}

// every kana after every other kana, alone and before a long mark
PBT_ENUM(all_pairs, 204) {
  const auto n{c.g.below(204)};
  const std::string a{kref::Table.at(n).hira};
  c.describe("all pairs starting with " + a);
  c.nontrivial(a);
  for (auto& b : kref::Table) {
    // a pair that is a longer digraph is still the same text
    roundTrip(a + b.hira, true);
    roundTrip(a + b.hira + "ー", false);
  }
}

PBT_SUB(triples, 70000, 2000000) {
  std::string h;
  for (int i{}; i < 3; ++i) h += gen::anyKana(c.g, false);
  c.describe(h);
  c.nontrivial(h);
  roundTrip(h, true);
}

// kana written with combining marks convert like the composed ones
PBT_SUB(combining, 20000, 500000) {
  std::string plain, composed;
  for (auto n{c.g.below(6) + 1}; n; --n) {
    const ref::Code k{0x3041 + c.g.below(0x56)},
        m{0x3099 + c.g.below(2)};
    if (const auto x{ref::compose(k, m)}; x && c.g.boolean()) {
      plain += ref::enc(k) + ref::enc(m);
      composed += ref::enc(*x);
    } else {
      plain += ref::enc(k);
      composed += ref::enc(k);
    }
  }
  c.describe(pbt::show(plain));
  if (plain != composed) c.nontrivial(plain);
  for (auto to : {Katakana, Romaji})
    PBT_EQ(conv(Hiragana, plain, to), conv(Hiragana, composed, to), "");
  PBT_EQ(conv(Katakana, kref::toKata(plain), Romaji),
      conv(Hiragana, composed, Romaji), "");
}

// the kana tables: accent relations, lookups and the maps agree
PBT_ENUM(table, 204) {
  auto& row{kref::Table.at(c.g.below(204))};
  const std::string h{row.hira}, k{kref::toKata(h)};
  c.describe(h);
  c.nontrivial(h);
  auto& m{Kana::getMap(Hiragana)};
  const auto i{m.find(h)};
  PBT_CHECK(i != m.end(), h, " is unknown");
  auto& x{*i->second};
  PBT_EQ(x.hiragana(), h, "");
  PBT_EQ(x.katakana(), k, "");
  PBT_EQ(Kana::getMap(Katakana).at(k), &x, k);
  PBT_EQ(Kana::getMap(Romaji).at(row.romaji), &x, h);
  for (auto v : row.variants) PBT_EQ(Kana::getMap(Romaji).at(v), &x, v);
  PBT_EQ(m.size(), kref::Table.size(), "");
  PBT_EQ(Kana::getMap(Katakana).size(), kref::Table.size(), "");
  PBT_EQ(Kana::getMap(Romaji).size(), kref::byRomaji().size(), "");
  const auto* d{kref::accented(row)};
  const auto* hd{kref::accented(row, 0x309a)};
  const auto* p{kref::plain(row)};
  PBT_EQ(Kana::findDakuten(h).value_or("-"), d ? d->hira : "-", h);
  PBT_EQ(Kana::findDakuten(k).value_or("-"), d ? kref::toKata(d->hira) : "-", k);
  PBT_EQ(Kana::findHanDakuten(h).value_or("-"), hd ? hd->hira : "-", h);
  PBT_EQ(Kana::findHanDakuten(k).value_or("-"), hd ? kref::toKata(hd->hira) : "-", k);
  PBT_EQ(x.plain() ? x.plain()->hiragana() : "-", p ? p->hira : "-", h);
  const auto n{ref::decode(h).size()};
  PBT_EQ(x.isMonograph(), n == 1, h);
  PBT_EQ(x.isDigraph(), n == 2, h);
  const std::string first{ref::enc(ref::decode(h)[0])};
  const auto& fr{*kref::byHira().at(first)};
  const auto* fp{kref::plain(fr)};
  const bool voiced{fp && kref::accented(*fp) == &fr},
      semi{fp && kref::accented(*fp, 0x309a) == &fr};
  PBT_EQ(x.isDakuten(), voiced, h);
  PBT_EQ(x.isHanDakuten(), semi, h);
  PBT_EQ(x.containsKana(h) && x.containsKana(k) && !x.containsKana(row.romaji),
      true, h);
}
