// libs: kana
#include "kana_ref.h"

#include <kt_kana/Converter.h>
#include <kt_kana/Kana.h>

#include <deque>

using namespace kanji_tools;

const pbt::Info pbt::info{"P07",
    "kana, Romaji and mixed text converted under all 16 flag sets in every "
    "direction; Hepburn and Kunrei output compared with the published charts, "
    "other output with the result without flags and a reference model; "
    "non-trivial = some flag changes the output, distinct by content and flags"};

namespace {

using enum CharType;

struct Chart {
  const char *hira, *hepburn, *kunrei;
};
// published charts (modified Hepburn and Kunrei-shiki, Cabinet Order 1954)
const std::vector<Chart> Published{{"あ", "a", "a"}, {"い", "i", "i"},
    {"う", "u", "u"}, {"え", "e", "e"}, {"お", "o", "o"}, {"か", "ka", "ka"},
    {"き", "ki", "ki"}, {"く", "ku", "ku"}, {"け", "ke", "ke"},
    {"こ", "ko", "ko"}, {"さ", "sa", "sa"}, {"し", "shi", "si"},
    {"す", "su", "su"}, {"せ", "se", "se"}, {"そ", "so", "so"},
    {"た", "ta", "ta"}, {"ち", "chi", "ti"}, {"つ", "tsu", "tu"},
    {"て", "te", "te"}, {"と", "to", "to"}, {"な", "na", "na"},
    {"に", "ni", "ni"}, {"ぬ", "nu", "nu"}, {"ね", "ne", "ne"},
    {"の", "no", "no"}, {"は", "ha", "ha"}, {"ひ", "hi", "hi"},
    {"ふ", "fu", "hu"}, {"へ", "he", "he"}, {"ほ", "ho", "ho"},
    {"ま", "ma", "ma"}, {"み", "mi", "mi"}, {"む", "mu", "mu"},
    {"め", "me", "me"}, {"も", "mo", "mo"}, {"や", "ya", "ya"},
    {"ゆ", "yu", "yu"}, {"よ", "yo", "yo"}, {"ら", "ra", "ra"},
    {"り", "ri", "ri"}, {"る", "ru", "ru"}, {"れ", "re", "re"},
    {"ろ", "ro", "ro"}, {"わ", "wa", "wa"}, {"ゐ", "i", "i"},
    {"ゑ", "e", "e"}, {"を", "o", "o"}, {"ん", "n", "n"}, {"が", "ga", "ga"},
    {"ぎ", "gi", "gi"}, {"ぐ", "gu", "gu"}, {"げ", "ge", "ge"},
    {"ご", "go", "go"}, {"ざ", "za", "za"}, {"じ", "ji", "zi"},
    {"ず", "zu", "zu"}, {"ぜ", "ze", "ze"}, {"ぞ", "zo", "zo"},
    {"だ", "da", "da"}, {"ぢ", "ji", "zi"}, {"づ", "zu", "zu"},
    {"で", "de", "de"}, {"ど", "do", "do"}, {"ば", "ba", "ba"},
    {"び", "bi", "bi"}, {"ぶ", "bu", "bu"}, {"べ", "be", "be"},
    {"ぼ", "bo", "bo"}, {"ぱ", "pa", "pa"}, {"ぴ", "pi", "pi"},
    {"ぷ", "pu", "pu"}, {"ぺ", "pe", "pe"}, {"ぽ", "po", "po"},
    {"きゃ", "kya", "kya"}, {"きゅ", "kyu", "kyu"}, {"きょ", "kyo", "kyo"},
    {"しゃ", "sha", "sya"}, {"しゅ", "shu", "syu"}, {"しょ", "sho", "syo"},
    {"ちゃ", "cha", "tya"}, {"ちゅ", "chu", "tyu"}, {"ちょ", "cho", "tyo"},
    {"にゃ", "nya", "nya"}, {"にゅ", "nyu", "nyu"}, {"にょ", "nyo", "nyo"},
    {"ひゃ", "hya", "hya"}, {"ひゅ", "hyu", "hyu"}, {"ひょ", "hyo", "hyo"},
    {"みゃ", "mya", "mya"}, {"みゅ", "myu", "myu"}, {"みょ", "myo", "myo"},
    {"りゃ", "rya", "rya"}, {"りゅ", "ryu", "ryu"}, {"りょ", "ryo", "ryo"},
    {"ぎゃ", "gya", "gya"}, {"ぎゅ", "gyu", "gyu"}, {"ぎょ", "gyo", "gyo"},
    {"じゃ", "ja", "zya"}, {"じゅ", "ju", "zyu"}, {"じょ", "jo", "zyo"},
    {"ぢゃ", "ja", "zya"}, {"ぢゅ", "ju", "zyu"}, {"ぢょ", "jo", "zyo"},
    {"びゃ", "bya", "bya"}, {"びゅ", "byu", "byu"}, {"びょ", "byo", "byo"},
    {"ぴゃ", "pya", "pya"}, {"ぴゅ", "pyu", "pyu"}, {"ぴょ", "pyo", "pyo"}};

ConvertFlags flags(unsigned f) { return static_cast<ConvertFlags>(f); }
constexpr CharType Types[]{Hiragana, Katakana, Romaji};

std::string conv(CharType from, const std::string& s, CharType to, unsigned f) {
  Converter c{to, flags(f)};
  return c.convert(from, s);
}

} // namespace

PBT_SUB(published, 240000, 2000000) {
  // sequences of chart syllables with doubled consonants; 'n' never before a
  // vowel or y (there the apostrophe is covered elsewhere)
  std::string hira, hep, kun;
  for (auto n{c.g.below(8) + 1}; n; --n) {
    auto& i{c.g.pick(Published)};
    const std::string h{i.hepburn}, k{i.kunrei};
    if (!hira.empty() && hira.ends_with("ん") &&
        std::string{"aiueoy"}.find(h[0]) != std::string::npos)
      continue;
    // 'wyi', 'wye', 'wo' are written as vowels but aren't doubled
    if (c.g.chance(1, 5) && std::string{"aiueon"}.find(h[0]) == std::string::npos) {
      hira += "っ";
      hep += h[0] == 'c' ? 't' : h[0];
      kun += k[0];
    }
    hira += i.hira;
    hep += h;
    kun += k;
  }
  c.describe(hira);
  c.nontrivial(hira);
  PBT_EQ(conv(Hiragana, hira, Romaji, 1), hep, hira);
  PBT_EQ(conv(Katakana, kref::toKata(hira), Romaji, 1), hep, hira);
  PBT_EQ(conv(Hiragana, hira, Romaji, 2), kun, hira);
  PBT_EQ(conv(Katakana, kref::toKata(hira), Romaji, 2), kun, hira);
}

// flags not concerning Romaji output never change the script that is not theirs
PBT_SUB(kana_to_kana, 100000, 800000) {
  const bool kata{c.g.boolean()};
  const auto s{gen::kanaText(c.g, kata, 12)};
  const auto f{1 + c.g.below(15)};
  c.describe(pbt::cat(s, " flags ", f));
  c.nontrivial(pbt::cat(s, f));
  const auto from{kata ? Katakana : Hiragana}, to{kata ? Hiragana : Katakana};
  PBT_EQ(conv(from, s, to, f), conv(from, s, to, 0), s);
  // and only the spelling flags matter for Romaji output
  PBT_EQ(conv(from, s, Romaji, f), conv(from, s, Romaji, f & 3U), s);
}

PBT_SUB(romaji_input, 240000, 2000000) {
  const auto s{gen::romajiText(c.g, 10, c.g.boolean())};
  const auto f{c.g.below(16)};
  c.describe(pbt::cat(pbt::show(s), " flags ", f));
  const auto h0{conv(Romaji, s, Hiragana, 0)}, k0{conv(Romaji, s, Katakana, 0)};
  auto noSpace{s};
  std::erase(noSpace, ' ');
  const auto h{conv(Romaji, s, Hiragana, f)}, k{conv(Romaji, s, Katakana, f)};
  if (h != h0 || k != k0) c.nontrivial(pbt::cat(s, f));
  // Hepburn and Kunrei concern output only
  PBT_EQ(h, conv(Romaji, s, Hiragana, f & 12U), s);
  PBT_EQ(k, conv(Romaji, s, Katakana, f & 8U), s);
  if (!(f & 8U)) PBT_EQ(k, k0, s);
  // remove spaces: same as without, less the wide spaces made from spaces
  if (f & 8U && s.find("　") == std::string::npos) {
    auto x{k0};
    for (size_t p{}; (p = x.find("　")) != std::string::npos;) x.erase(p, 3);
    PBT_EQ(k, x, s);
  }
  // no prolong: the kept text is the same, each mark is one vowel
  PBT_EQ(h, kref::fromRomaji(s, kref::Hira, f), s);
  PBT_EQ(k, kref::fromRomaji(s, kref::Kata, f), s);
  if (f & 4U && s.find("ー") == std::string::npos)
    PBT_CHECK(h.find("ー") == std::string::npos, "long mark in ", h, " from ", s);
}

PBT_SUB(any_direction, 240000, 2000000) {
  std::string s;
  switch (c.g.below(4)) {
  case 0: s = gen::kanaText(c.g, false, 10); break;
  case 1: s = gen::kanaText(c.g, true, 10); break;
  case 2: s = gen::romajiText(c.g, 10, true); break;
  default:
    for (auto n{c.g.below(4)}; n; --n)
      s += gen::kanaText(c.g, c.g.boolean(), 4) +
           gen::romajiText(c.g, 4, true) +
           c.g.pick({"ゝ", "ゞ", "ヽ", "ヾ", "", "漢"});
  }
  const auto f{c.g.below(16)};
  const auto from{c.g.below(3)}, to{c.g.below(3)};
  c.describe(pbt::cat(pbt::show(s), " flags ", f, " from ", from, " to ", to));
  const auto r{conv(Types[from], s, Types[to], f)};
  if (r != s) c.nontrivial(pbt::cat(s, f, from, to));
  PBT_EQ(r, kref::convert(static_cast<kref::Script>(from), s,
      static_cast<kref::Script>(to), f), s);
  Converter x;
  PBT_EQ(x.convert(Types[from], s, Types[to], flags(f)), r, s);
  PBT_CHECK(x.target() == Types[to] && x.flags() == flags(f),
      "target or flags not kept");
  PBT_EQ(x.convert(Types[from], s), r, "repeated");
}

// every kana, every flag set, alone, doubled, lengthened and repeated
PBT_ENUM(every_kana, 204) {
  auto& row{kref::Table.at(c.g.below(204))};
  c.describe(row.hira);
  c.nontrivial(row.hira);
  for (unsigned f{}; f < 16; ++f)
    for (const bool kata : {false, true})
      for (const std::string pre : {"", "っ", "ん"})
        for (const std::string post : {"", "ー", "ゝ", "ゞ", "ゝゞ", "ん"}) {
          auto s{pre + row.hira + post};
          if (kata) {
            s = kref::toKata(pre + row.hira);
            for (auto& i : kref::chars(post))
              s += i == "ゝ" ? "ヽ" : i == "ゞ" ? "ヾ" : kref::toKata(i);
          }
          for (auto to : {0, 1, 2})
            PBT_EQ(conv(kata ? Katakana : Hiragana, s, Types[to], f),
                kref::convert(kata ? kref::Kata : kref::Hira, s,
                    static_cast<kref::Script>(to), f), s, " flags ", f);
          PBT_EQ(Kana::getMap(Hiragana).at(row.hira)->getRomaji(flags(f)),
              kref::romaji(row, f), row.hira);
        }
}

PBT_ENUM(flag_names, 16) {
  const auto f{c.g.below(16)};
  c.describe(pbt::cat("flags ", f));
  c.nontrivial(std::to_string(f));
  Converter x{Hiragana, flags(f)};
  std::string e;
  const char* names[]{"Hepburn", "Kunrei", "NoProlongMark", "RemoveSpaces"};
  for (unsigned i{}; i < 4; ++i)
    if (f >> i & 1U) e += (e.empty() ? "" : "|") + std::string{names[i]};
  PBT_EQ(x.flagString(), e.empty() ? "None" : e, "");
}

// a few converters used alternately for a few texts
PBT_SUB(histories, 30000, 500000) {
  std::vector<std::string> texts;
  for (auto n{1 + c.g.below(3)}; n; --n)
    texts.push_back(gen::kanaText(c.g, c.g.boolean(), 12) + gen::romajiText(c.g, c.g.longSize(12), true));
  if (c.g.boolean()) texts.push_back(texts[0] + c.g.pick({" ", "a", "ー", "ん", "n"}));
  struct State {
    Converter x;
    uint32_t target, flags;
    State(uint32_t t, uint32_t f) : x{Types[t], ::flags(f)}, target{t}, flags{f} {}
  };
  std::deque<State> all;
  for (auto n{1 + c.g.below(3)}; n; --n) {
    const auto t{c.g.below(3)}, f{c.g.below(16)};
    all.emplace_back(t, f);
  }
  std::string log;
  for (auto n{3 + c.g.below(10)}; n; --n) {
    const auto number{c.g.below(static_cast<uint32_t>(all.size()))};
    auto& i{all[number]};
    auto& s{c.g.pick(texts)};
    const auto from{static_cast<kref::Script>(c.g.below(3))};
    const auto op{c.g.below(6)};
    const auto t{c.g.chance(1, 3) ? i.target : c.g.below(3)}, f{c.g.chance(1, 3) ? i.flags : c.g.below(16)};
    log += pbt::cat(op, ' ', t, ' ', f, ' ', from, ' ', number, ' ', pbt::show(s), "; ");
    c.describe(log);
    std::string r;
    switch (op) {
    case 0:
      i.x.target(Types[i.target = t]);
      break;
    case 1:
      i.x.flags(flags(i.flags = f));
      break;
    case 2:
      r = i.x.convert(s, Types[i.target = t], flags(i.flags = f));
      break;
    case 3:
      r = i.x.convert(Types[from], s, Types[i.target = t], flags(i.flags = f));
      break;
    case 4: r = i.x.convert(s); break;
    default: r = i.x.convert(Types[from], s);
    }
    const auto to{static_cast<kref::Script>(i.target)};
    if (op > 1) PBT_EQ(r, op % 2 ? kref::convert(from, s, to, i.flags) : kref::convert(s, to, i.flags), log);
    for (auto& j : all)
      PBT_CHECK(j.x.target() == Types[j.target] && j.x.flags() == flags(j.flags), "target or flags changed after ", log);
  }
  c.nontrivial(log);
}
