// Reference model of kana <-> Romaji conversion, written from the documentation
// (README, Converter.h, KanaEnums.h) with its own spelling table. Katakana and
// accented forms are derived from Unicode code points. Nothing here uses the
// code under test.
#pragma once

#include "text.h"

#include <map>
#include <set>

namespace kref {

enum Script { Hira, Kata, Roma };
enum Flags : unsigned { None = 0, Hepburn = 1, Kunrei = 2, NoProlong = 4, NoSpace = 8 };

struct Row {
  const char *hira, *romaji, *hepburn, *kunrei;
  std::vector<const char*> variants;
};

// clang-format off
inline const std::vector<Row> Table{
{"ぁ", "la", "la", "la", {"xa"}},
{"あ", "a", "a", "a", {}},
{"ぃ", "li", "li", "li", {"xi"}},
{"い", "i", "i", "i", {}},
{"いぇ", "ye", "ye", "ye", {}},
{"ぅ", "lu", "lu", "lu", {"xu"}},
{"う", "u", "u", "u", {"wu"}},
{"うぃ", "wi", "wi", "wi", {}},
{"うぇ", "we", "we", "we", {}},
{"ぇ", "le", "le", "le", {"xe", "lye", "xye"}},
{"え", "e", "e", "e", {}},
{"ぉ", "lo", "lo", "lo", {"xo"}},
{"お", "o", "o", "o", {}},
{"か", "ka", "ka", "ka", {}},
{"が", "ga", "ga", "ga", {}},
{"き", "ki", "ki", "ki", {}},
{"きぃ", "kyi", "kyi", "kyi", {}},
{"きぇ", "kye", "kye", "kye", {}},
{"きゃ", "kya", "kya", "kya", {}},
{"きゅ", "kyu", "kyu", "kyu", {}},
{"きょ", "kyo", "kyo", "kyo", {}},
{"ぎ", "gi", "gi", "gi", {}},
{"ぎぃ", "gyi", "gyi", "gyi", {}},
{"ぎぇ", "gye", "gye", "gye", {}},
{"ぎゃ", "gya", "gya", "gya", {}},
{"ぎゅ", "gyu", "gyu", "gyu", {}},
{"ぎょ", "gyo", "gyo", "gyo", {}},
{"く", "ku", "ku", "ku", {}},
{"くぁ", "qa", "qa", "qa", {"kwa"}},
{"くぃ", "qi", "qi", "qi", {"kwi", "qwi"}},
{"くぅ", "qu", "qu", "qu", {"kwu", "qwu"}},
{"くぇ", "qe", "qe", "qe", {"kwe", "qwe"}},
{"くぉ", "qo", "qo", "qo", {"kwo", "qwo"}},
{"くゎ", "qwa", "qwa", "qwa", {}},
{"ぐ", "gu", "gu", "gu", {}},
{"ぐぁ", "gwa", "gwa", "gwa", {}},
{"ぐぃ", "gwi", "gwi", "gwi", {}},
{"ぐぅ", "gwu", "gwu", "gwu", {}},
{"ぐぇ", "gwe", "gwe", "gwe", {}},
{"ぐぉ", "gwo", "gwo", "gwo", {}},
{"け", "ke", "ke", "ke", {}},
{"げ", "ge", "ge", "ge", {}},
{"こ", "ko", "ko", "ko", {}},
{"ご", "go", "go", "go", {}},
{"さ", "sa", "sa", "sa", {}},
{"ざ", "za", "za", "za", {}},
{"し", "shi", "shi", "si", {"si"}},
{"しぃ", "syi", "syi", "syi", {}},
{"しぇ", "she", "she", "she", {}},
{"しゃ", "sha", "sha", "sya", {"sya"}},
{"しゅ", "shu", "shu", "syu", {"syu"}},
{"しょ", "sho", "sho", "syo", {"syo"}},
{"じ", "ji", "ji", "zi", {"zi"}},
{"じぃ", "jyi", "jyi", "jyi", {"zyi"}},
{"じぇ", "je", "je", "je", {"zye", "jye"}},
{"じゃ", "ja", "ja", "zya", {"zya", "jya"}},
{"じゅ", "ju", "ju", "zyu", {"zyu", "jyu"}},
{"じょ", "jo", "jo", "zyo", {"zyo", "jyo"}},
{"す", "su", "su", "su", {}},
{"すぁ", "swa", "swa", "swa", {}},
{"すぃ", "swi", "swi", "swi", {}},
{"すぅ", "swu", "swu", "swu", {}},
{"すぇ", "swe", "swe", "swe", {}},
{"すぉ", "swo", "swo", "swo", {}},
{"ず", "zu", "zu", "zu", {}},
{"せ", "se", "se", "se", {}},
{"ぜ", "ze", "ze", "ze", {}},
{"そ", "so", "so", "so", {}},
{"ぞ", "zo", "zo", "zo", {}},
{"た", "ta", "ta", "ta", {}},
{"だ", "da", "da", "da", {}},
{"ち", "chi", "chi", "ti", {"ti"}},
{"ちぃ", "tyi", "tyi", "tyi", {}},
{"ちぇ", "che", "che", "che", {"tye"}},
{"ちゃ", "cha", "cha", "tya", {"tya"}},
{"ちゅ", "chu", "chu", "tyu", {"tyu"}},
{"ちょ", "cho", "cho", "tyo", {"tyo"}},
{"ぢ", "di", "ji", "zi", {}},
{"ぢぃ", "dyi", "dyi", "dyi", {}},
{"ぢぇ", "dye", "dye", "dye", {}},
{"ぢゃ", "dya", "ja", "zya", {}},
{"ぢゅ", "dyu", "ju", "zyu", {}},
{"ぢょ", "dyo", "jo", "zyo", {}},
{"っ", "ltu", "ltu", "ltu", {"xtu"}},
{"つ", "tsu", "tsu", "tu", {"tu"}},
{"つぁ", "tsa", "tsa", "tsa", {}},
{"つぃ", "tsi", "tsi", "tsi", {}},
{"つぇ", "tse", "tse", "tse", {}},
{"つぉ", "tso", "tso", "tso", {}},
{"づ", "du", "zu", "zu", {}},
{"て", "te", "te", "te", {}},
{"てぃ", "thi", "thi", "thi", {}},
{"てぇ", "the", "the", "the", {}},
{"てゃ", "tha", "tha", "tha", {}},
{"てゅ", "thu", "thu", "thu", {}},
{"てょ", "tho", "tho", "tho", {}},
{"で", "de", "de", "de", {}},
{"でぃ", "dhi", "dhi", "dhi", {}},
{"でぇ", "dhe", "dhe", "dhe", {}},
{"でゃ", "dha", "dha", "dha", {}},
{"でゅ", "dhu", "dhu", "dhu", {}},
{"でょ", "dho", "dho", "dho", {}},
{"と", "to", "to", "to", {}},
{"とぁ", "twa", "twa", "twa", {}},
{"とぃ", "twi", "twi", "twi", {}},
{"とぅ", "twu", "twu", "twu", {}},
{"とぇ", "twe", "twe", "twe", {}},
{"とぉ", "two", "two", "two", {}},
{"ど", "do", "do", "do", {}},
{"どぁ", "dwa", "dwa", "dwa", {}},
{"どぃ", "dwi", "dwi", "dwi", {}},
{"どぅ", "dwu", "dwu", "dwu", {}},
{"どぇ", "dwe", "dwe", "dwe", {}},
{"どぉ", "dwo", "dwo", "dwo", {}},
{"な", "na", "na", "na", {}},
{"に", "ni", "ni", "ni", {}},
{"にぃ", "nyi", "nyi", "nyi", {}},
{"にぇ", "nye", "nye", "nye", {}},
{"にゃ", "nya", "nya", "nya", {}},
{"にゅ", "nyu", "nyu", "nyu", {}},
{"にょ", "nyo", "nyo", "nyo", {}},
{"ぬ", "nu", "nu", "nu", {}},
{"ね", "ne", "ne", "ne", {}},
{"の", "no", "no", "no", {}},
{"は", "ha", "ha", "ha", {}},
{"ば", "ba", "ba", "ba", {}},
{"ぱ", "pa", "pa", "pa", {}},
{"ひ", "hi", "hi", "hi", {}},
{"ひぃ", "hyi", "hyi", "hyi", {}},
{"ひぇ", "hye", "hye", "hye", {}},
{"ひゃ", "hya", "hya", "hya", {}},
{"ひゅ", "hyu", "hyu", "hyu", {}},
{"ひょ", "hyo", "hyo", "hyo", {}},
{"び", "bi", "bi", "bi", {}},
{"びぃ", "byi", "byi", "byi", {}},
{"びぇ", "bye", "bye", "bye", {}},
{"びゃ", "bya", "bya", "bya", {}},
{"びゅ", "byu", "byu", "byu", {}},
{"びょ", "byo", "byo", "byo", {}},
{"ぴ", "pi", "pi", "pi", {}},
{"ぴぃ", "pyi", "pyi", "pyi", {}},
{"ぴぇ", "pye", "pye", "pye", {}},
{"ぴゃ", "pya", "pya", "pya", {}},
{"ぴゅ", "pyu", "pyu", "pyu", {}},
{"ぴょ", "pyo", "pyo", "pyo", {}},
{"ふ", "fu", "fu", "hu", {"hu"}},
{"ふぁ", "fa", "fa", "fa", {"fwa", "hwa"}},
{"ふぃ", "fi", "fi", "fi", {"fyi", "fwi", "hwi"}},
{"ふぅ", "fwu", "fwu", "fwu", {}},
{"ふぇ", "fe", "fe", "fe", {"fye", "fwe", "hwe"}},
{"ふぉ", "fo", "fo", "fo", {"fwo", "hwo"}},
{"ふゃ", "fya", "fya", "fya", {}},
{"ふゅ", "fyu", "fyu", "fyu", {}},
{"ふょ", "fyo", "fyo", "fyo", {}},
{"ぶ", "bu", "bu", "bu", {}},
{"ぷ", "pu", "pu", "pu", {}},
{"へ", "he", "he", "he", {}},
{"べ", "be", "be", "be", {}},
{"ぺ", "pe", "pe", "pe", {}},
{"ほ", "ho", "ho", "ho", {}},
{"ぼ", "bo", "bo", "bo", {}},
{"ぽ", "po", "po", "po", {}},
{"ま", "ma", "ma", "ma", {}},
{"み", "mi", "mi", "mi", {}},
{"みぃ", "myi", "myi", "myi", {}},
{"みぇ", "mye", "mye", "mye", {}},
{"みゃ", "mya", "mya", "mya", {}},
{"みゅ", "myu", "myu", "myu", {}},
{"みょ", "myo", "myo", "myo", {}},
{"む", "mu", "mu", "mu", {}},
{"め", "me", "me", "me", {}},
{"も", "mo", "mo", "mo", {}},
{"ゃ", "lya", "lya", "lya", {"xya"}},
{"や", "ya", "ya", "ya", {}},
{"ゅ", "lyu", "lyu", "lyu", {"xyu"}},
{"ゆ", "yu", "yu", "yu", {}},
{"ょ", "lyo", "lyo", "lyo", {"xyo"}},
{"よ", "yo", "yo", "yo", {}},
{"ら", "ra", "ra", "ra", {}},
{"り", "ri", "ri", "ri", {}},
{"りぃ", "ryi", "ryi", "ryi", {}},
{"りぇ", "rye", "rye", "rye", {}},
{"りゃ", "rya", "rya", "rya", {}},
{"りゅ", "ryu", "ryu", "ryu", {}},
{"りょ", "ryo", "ryo", "ryo", {}},
{"る", "ru", "ru", "ru", {}},
{"れ", "re", "re", "re", {}},
{"ろ", "ro", "ro", "ro", {}},
{"ゎ", "lwa", "lwa", "lwa", {"xwa"}},
{"わ", "wa", "wa", "wa", {}},
{"ゐ", "wyi", "i", "i", {}},
{"ゑ", "wye", "e", "e", {}},
{"を", "wo", "o", "o", {}},
{"ん", "n", "n", "n", {}},
{"ゔ", "vu", "vu", "vu", {}},
{"ゔぁ", "va", "va", "va", {}},
{"ゔぃ", "vi", "vi", "vi", {}},
{"ゔぇ", "ve", "ve", "ve", {}},
{"ゔぉ", "vo", "vo", "vo", {}},
{"ゔゃ", "vya", "vya", "vya", {}},
{"ゔゅ", "vyu", "vyu", "vyu", {}},
{"ゔょ", "vyo", "vyo", "vyo", {}},
{"ゕ", "lka", "lka", "lka", {"xka"}},
{"ゖ", "lke", "lke", "lke", {"xke"}},
};
// clang-format on

inline std::string toKata(std::string_view hira) {
  ref::Codes r;
  for (auto c : ref::decode(hira))
    r += c >= 0x3041 && c <= 0x3096 ? c + 0x60 : c;
  return ref::enc(r);
}
inline std::string toHira(std::string_view kata) {
  ref::Codes r;
  for (auto c : ref::decode(kata))
    r += c >= 0x30a1 && c <= 0x30f6 ? c - 0x60 : c;
  return ref::enc(r);
}
inline std::string lower(std::string s) {
  for (auto& c : s)
    if (c >= 'A' && c <= 'Z') c = static_cast<char>(c + 32);
  return s;
}
inline std::string upper(std::string s) {
  for (auto& c : s)
    if (c >= 'a' && c <= 'z') c = static_cast<char>(c - 32);
  return s;
}

inline const std::map<std::string, const Row*>& byHira() {
  static const auto m{[] {
    std::map<std::string, const Row*> r;
    for (auto& i : Table) r[i.hira] = &i;
    return r;
  }()};
  return m;
}
inline const std::map<std::string, const Row*>& byRomaji() {
  static const auto m{[] {
    std::map<std::string, const Row*> r;
    for (auto& i : Table) {
      r[i.romaji] = &i;
      for (auto v : i.variants) r[v] = &i;
    }
    return r;
  }()};
  return m;
}
inline const Row* find(std::string_view kana, Script s) {
  if (s == Kata)
    for (auto c : ref::decode(kana))
      if (!(c >= 0x30a1 && c <= 0x30f6)) return nullptr;
  const auto i{byHira().find(s == Kata ? toHira(kana) : std::string{kana})};
  return i == byHira().end() ? nullptr : i->second;
}

// accented / unaccented forms through Unicode composition (null if the result
// isn't in the table)
inline const Row* accented(const Row& r, ref::Code mark = 0x3099) {
  auto c{ref::decode(r.hira)};
  const auto x{ref::compose(c[0], mark)};
  if (!x) return nullptr;
  c[0] = *x;
  return find(ref::enc(c), Hira);
}
inline const Row* plain(const Row& r) {
  auto c{ref::decode(r.hira)};
  for (ref::Code p{0x3041}; p <= 0x3096; ++p)
    for (const ref::Code m : {0x3099, 0x309a})
      if (const auto x{ref::compose(p, m)}; x && *x == c[0]) {
        c[0] = p;
        return find(ref::enc(c), Hira);
      }
  return nullptr;
}

inline std::string romaji(const Row& r, unsigned f) {
  if (f & Hepburn && std::string{r.hepburn} != r.romaji) return r.hepburn;
  if (f & Kunrei) return r.kunrei;
  return r.romaji;
}
inline std::string get(const Row& r, Script target, unsigned f) {
  return target == Hira ? r.hira
         : target == Kata ? toKata(r.hira) : romaji(r, f);
}

// text as a sequence of user-visible characters (malformed bytes and marks
// that modify nothing are left out)
inline std::vector<std::string> chars(std::string_view s) {
  s = ref::toNul(s);
  std::vector<std::string> r;
  for (size_t i{}; i < s.size();) {
    const auto x{ref::decodeAt(s, i)};
    if (x.kind == ref::Kind::Bad) {
      ++i;
      continue;
    }
    i += x.bytes;
    if (x.kind == ref::Kind::Ascii) {
      r.push_back(std::string(1, static_cast<char>(x.code)));
      continue;
    }
    if (ref::isNonSpacing(x.code)) continue;
    auto t{ref::enc(x.code)};
    if (const auto n{ref::decodeAt(s, i)};
        i < s.size() && n.kind == ref::Kind::Valid) {
      if (ref::isVS(n.code)) {
        i += n.bytes;
        t += ref::enc(n.code);
      } else if (ref::isMark(n.code)) {
        i += n.bytes;
        if (const auto k{ref::compose(x.code, n.code)}) t = ref::enc(*k);
      }
    }
    r.push_back(t);
  }
  return r;
}

inline const std::string Long{"ー"}, SmallTsu{"っ"}, N{"ん"};
inline const std::vector<std::pair<char, std::string>>& delims() {
  static const std::vector<std::pair<char, std::string>> d{{' ', "　"},
      {'!', "！"}, {'"', "”"}, {'#', "＃"}, {'$', "＄"}, {'%', "％"},
      {'&', "＆"}, {'(', "（"}, {')', "）"}, {'*', "＊"}, {'+', "＋"},
      {',', "、"}, {'.', "。"}, {'/', "・"}, {'0', "０"}, {'1', "１"},
      {'2', "２"}, {'3', "３"}, {'4', "４"}, {'5', "５"}, {'6', "６"},
      {'7', "７"}, {'8', "８"}, {'9', "９"}, {':', "："}, {';', "；"},
      {'<', "＜"}, {'=', "＝"}, {'>', "＞"}, {'?', "？"}, {'@', "＠"},
      {'[', "「"}, {'\\', "￥"}, {']', "」"}, {'^', "＾"}, {'_', "＿"},
      {'`', "｀"}, {'{', "『"}, {'|', "｜"}, {'}', "』"}, {'~', "〜"}};
  return d;
}
inline const std::vector<std::pair<std::string, std::pair<char, std::string>>>&
macrons() {
  static const std::vector<std::pair<std::string, std::pair<char, std::string>>>
      m{{"ā", {'a', "あ"}}, {"ī", {'i', "い"}}, {"ū", {'u', "う"}},
          {"ē", {'e', "え"}}, {"ō", {'o', "お"}}, {"Ā", {'a', "あ"}},
          {"Ī", {'i', "い"}}, {"Ū", {'u', "う"}}, {"Ē", {'e', "え"}},
          {"Ō", {'o', "お"}}};
  return m;
}

// consonants whose doubling is written with a small tsu
inline bool doubling(char c) {
  static const std::string s{"bcdfghjkmpqrstvwyz"};
  return s.find(c) != std::string::npos;
}

inline std::string fromKana(
    std::string_view text, Script source, Script target, unsigned f) {
  const auto t{chars(text)};
  std::string r;
  const Row* prev{};
  const auto at{[&t](size_t i) { return i < t.size() ? t[i] : ""; }};
  const std::string tsu{source == Kata ? "ッ" : SmallTsu},
      n{source == Kata ? "ン" : N}, rep{source == Kata ? "ヽ" : "ゝ"},
      repAcc{source == Kata ? "ヾ" : "ゞ"};
  const auto row{[&](size_t i) {
    return i < t.size() ? find(t[i], source) : nullptr;
  }};
  const auto digraph{[&](size_t i) {
    return i + 1 < t.size() ? find(t[i] + t[i + 1], source) : nullptr;
  }};
  for (size_t i{}; i < t.size();) {
    if (t[i] == rep || t[i] == repAcc) {
      const bool acc{t[i] == repAcc};
      ++i;
      if (target == Hira)
        r += acc ? "ゞ" : "ゝ";
      else if (target == Kata)
        r += acc ? "ヾ" : "ヽ";
      else if (prev) {
        const auto* p{acc ? accented(*prev) : plain(*prev)};
        r += romaji(p ? *p : *prev, f);
      }
      continue;
    }
    if (!row(i)) { // includes the long vowel mark without a preceding kana
      auto out{t[i++]};
      if (target == Roma)
        for (auto& d : delims())
          if (d.second == out) {
            out = d.first;
            break;
          }
      r += out;
      continue;
    }
    std::string unit;
    if (t[i] == n) {
      prev = row(i++);
      unit = get(*prev, target, f);
      if (target == Roma && row(i)) {
        const std::string next{row(i)->romaji};
        static const std::set<std::string> sep{
            "a", "i", "u", "e", "o", "ya", "yu", "yo"};
        if (sep.contains(next)) unit += '\'';
      }
    } else {
      bool sokuon{};
      if (t[i] == tsu) {
        prev = row(i++);
        unit = get(*prev, target, f);
        if (row(i) && target == Roma) {
          const auto* d{digraph(i)};
          const auto* b{d ? d : row(i)};
          if (doubling(b->romaji[0]) && t[i] != tsu && t[i] != n) {
            unit.clear();
            sokuon = true;
          }
        }
      }
      if (sokuon || unit.empty()) {
        const auto* d{digraph(i)};
        prev = d ? d : row(i);
        i += d ? 2 : 1;
        unit = get(*prev, target, f);
        if (sokuon) unit = (unit[0] == 'c' ? 't' : unit[0]) + unit;
      }
    }
    if (at(i) == Long) {
      ++i;
      prev = nullptr;
      std::string m;
      if (target == Roma)
        for (auto& x : macrons())
          if (m.empty() && x.second.first == unit.back()) m = x.first;
      if (m.empty())
        unit += Long;
      else {
        unit.pop_back();
        unit += m;
      }
    }
    r += unit;
  }
  return r;
}

// one run of letters; 'macron' if its last letter had a macron
inline std::string romajiRun(
    const std::string& s, bool macron, Script target, unsigned f) {
  std::string r;
  const auto l{lower(s)};
  const auto end{s.size()};
  bool onlyPairs{}; // just dropped an invalid first letter
  const auto key{[&](size_t i, size_t n) -> const Row* {
    if (i + n > end) return nullptr;
    const auto k{byRomaji().find(l.substr(i, n))};
    return k == byRomaji().end() || k->first == "n" ? nullptr : k->second;
  }};
  for (size_t i{}; i < end;) {
    size_t n{onlyPairs ? 2U : 1U};
    onlyPairs = false;
    for (; n < 4 && !key(i, n);) ++n;
    if (n < 4) {
      r += get(*key(i, n), target, f);
      i += n;
      if (i == end && macron) r += "*";
      continue;
    }
    // letters up to the next 'n' (or the end)
    size_t avail{1};
    while (i + avail < end && l[i + avail] != 'n') ++avail;
    const bool stopped{i + avail < end};
    if (l[i] == 'n' && (avail == 1 || avail > 2)) {
      r += get(*byHira().at(N), target, f);
      ++i;
      onlyPairs = avail > 2;
    } else if (avail > 2) {
      const bool dbl{
          (l[i] == l[i + 1] || (l[i] == 't' && l[i + 1] == 'c')) &&
          doubling(l[i])};
      r += dbl ? get(*byHira().at(SmallTsu), target, f) : s.substr(i, 1);
      ++i;
      onlyPairs = true;
    } else if (stopped) {
      r += s.substr(i, avail);
      i += avail;
    } else if (macron) { // unfinished letters before a macron
      r += s.substr(i, end - 1 - i);
      r += get(*byRomaji().at(l.substr(end - 1)), target, f);
      i = end;
    } else
      r += s[i++];
  }
  return r;
}

inline std::string fromRomaji(
    std::string_view text, Script target, unsigned f) {
  text = ref::toNul(text);
  std::string r;
  const auto letters{[](const std::string& c) {
    return c.size() == 1 && ((c[0] >= 'a' && c[0] <= 'z') ||
                                (c[0] >= 'A' && c[0] <= 'Z'));
  }};
  const auto word{[&](std::string_view w) {
    std::string run;
    const auto flush{[&](bool macron, const std::string& vowel) {
      auto x{romajiRun(run, macron, target, f)};
      run.clear();
      if (macron && x.ends_with('*')) {
        x.pop_back();
        x += target == Hira && f & NoProlong ? vowel : Long;
      }
      r += x;
    }};
    for (auto& c : chars(w)) {
      if (letters(c)) {
        run += c;
        continue;
      }
      const std::pair<char, std::string>* m{};
      for (auto& x : macrons())
        if (x.first == c) m = &x.second;
      if (m) {
        run += m->first;
        flush(true, m->second);
      } else {
        flush(false, "");
        r += c;
      }
    }
    flush(false, "");
  }};
  size_t start{};
  for (size_t i{}; i <= text.size(); ++i) {
    const std::string* wide{};
    bool split{i == text.size()};
    if (!split) {
      split = text[i] == '\'' || text[i] == '-';
      for (auto& d : delims())
        if (d.first == text[i]) {
          split = true;
          wide = &d.second;
        }
    }
    if (!split) continue;
    word(text.substr(start, i - start));
    start = i + 1;
    if (wide && !(f & NoSpace && text[i] == ' ')) r += *wide;
  }
  return r;
}

inline std::string convert(
    Script source, std::string_view text, Script target, unsigned f) {
  if (source == target) return std::string{text};
  return source == Roma ? fromRomaji(text, target, f)
                        : fromKana(text, source, target, f);
}
inline std::string convert(std::string_view text, Script target, unsigned f) {
  std::string r{text};
  for (const auto s : {Hira, Kata, Roma})
    if (s != target) r = convert(s, r, target, f);
  return r;
}

} // namespace kref

namespace gen {

inline std::string anyKana(pbt::Gen& g, bool kata) {
  std::string h{g.pick(kref::Table).hira};
  return kata ? kref::toKata(h) : h;
}

// kana text in one script
inline std::string kanaText(pbt::Gen& g, bool kata, uint32_t maxUnits,
    bool marks = true, bool punct = true) {
  std::string r;
  for (auto n{g.longSize(maxUnits)}; n; --n)
    switch (g.weighted({12, 3, 3, marks ? 2U : 0U, punct ? 2U : 0U, 3})) {
    case 0: r += anyKana(g, kata); break;
    case 1: r += kata ? "ッ" : "っ"; break;
    case 2: r += kata ? "ン" : "ん"; break;
    case 3: r += "ー"; break;
    case 4: r += g.pick(kref::delims()).second; break;
    default: { // vowels, y-row and small letters
      static const std::vector<std::string> v{"あ", "い", "う", "え", "お",
          "や", "ゆ", "よ", "ぁ", "ぃ", "ぅ", "ぇ", "ぉ", "ゃ", "ゅ", "ょ",
          "ゎ", "な", "に", "ち", "つ"};
      auto& k{g.pick(v)};
      r += kata ? kref::toKata(k) : k;
    }
    }
  return r;
}

inline std::string anyCase(pbt::Gen& g, const std::string& s) {
  switch (g.below(4)) {
  case 0: return kref::upper(s);
  case 1: return s;
  default: {
    auto r{s};
    for (auto& c : r)
      if (c >= 'a' && c <= 'z' && g.boolean()) c = static_cast<char>(c - 32);
    return r;
  }
  }
}

// Romaji made of accepted spellings, doubled consonants, macrons, junk
inline std::string romajiText(pbt::Gen& g, uint32_t maxUnits, bool junk) {
  std::string r;
  const auto syllable{[&g]() -> std::string {
    auto& row{g.pick(kref::Table)};
    const auto n{g.below(static_cast<uint32_t>(row.variants.size()) + 1)};
    return n ? row.variants[n - 1] : row.romaji;
  }};
  for (auto n{g.longSize(maxUnits)}; n; --n)
    switch (g.weighted({10, 3, 3, 2, 2, 1, junk ? 2U : 0U, junk ? 2U : 0U})) {
    case 0: r += anyCase(g, syllable()); break;
    case 1: {
      auto s{syllable()};
      r += anyCase(g, (s[0] == 'c' && g.boolean() ? 't' : s[0]) + s);
      break;
    }
    case 2: r += g.boolean() ? "n" : "N"; break;
    case 3: {
      auto s{syllable()};
      const auto v{s.back()};
      s.pop_back();
      std::string m;
      for (auto& x : kref::macrons())
        if (x.second.first == v && (m.empty() || g.chance(1, 3))) m = x.first;
      r += anyCase(g, s) + m;
      break;
    }
    case 4: r += g.pick(kref::delims()).first; break;
    case 5: r += g.boolean() ? "'" : "-"; break;
    case 6: r += anyCase(g, std::string(1, static_cast<char>('a' + g.below(26)))); break;
    default:
      switch (g.below(4)) {
      case 0: r += ref::enc(anyCode(g)); break;
      case 1: r += anyKana(g, g.boolean()); break;
      case 2: r += static_cast<char>(1 + g.below(127)); break;
      default: r += g.pick(kref::macrons()).first;
      }
    }
  return r;
}

} // namespace gen
