// libs: kanji
#include "script.h"
#include "text.h"

#include <kt_kanji/UcdData.h>
#include <kt_utils/String.h>

#include <algorithm>
#include <map>
#include <optional>
#include <set>

using namespace kanji_tools;
using script::S, script::V;

const pbt::Info pbt::info{"P33",
    "Unicode XML files of characters with random attributes (official lists "
    "and their links, variants of all kinds, links in definitions, identifiers "
    "in old and new form, several stroke counts, simplified radicals) given "
    "to parseUcdAllFlat.sh; rows and totals it writes are compared with a "
    "model of the rules in its comments and the file is read back by UcdData; "
    "non-trivial = a row with a link and a character left out, distinct by "
    "file"};

namespace {

using Code = uint32_t;

S hex(Code c) {
  char b[16];
  std::snprintf(b, sizeof b, "%04X", c);
  return b;
}

struct Ref { // one value of kRSAdobe_Japan1_6
  unsigned radical, first, rest;
};

struct Char {
  Code code{};
  S age, blk, mandarin, definition, on, kun, japanese, morohashi, nelson;
  std::map<char, S> irg; // source to value
  unsigned radical{};
  S prime; // ' or '' after the radical
  unsigned rest{};
  V totals;
  std::vector<Ref> adobe;
  bool joyo{}, jinmei{};
  Code official{}; // link of an official list
  std::vector<Code> traditional, simplified, semantic;
  Code compatibility{};

  [[nodiscard]] S get(char c) const {
    const auto i{irg.find(c)};
    return i == irg.end() ? S{} : i->second;
  }
};
using File = std::vector<Char>;

S codes(const std::vector<Code>& v, const V& ends = {""}) {
  S r;
  size_t n{};
  for (auto i : v) r += (r.empty() ? "U+" : " U+") + hex(i) + ends[n++ % ends.size()];
  return r;
}

S xml(const Char& c) {
  S r{"      <char cp=\"" + hex(c.code) + '"'};
  const auto add{[&](const S& n, const S& v, bool empty = false) {
    if (!v.empty() || empty) r += ' ' + n + "=\"" + v + '"';
  }};
  add("age", c.age);
  add("na", "CJK UNIFIED IDEOGRAPH-#");
  add("gc", "Lo");
  add("blk", c.blk);
  add("Ideo", "Y");
  for (auto i : {'G', 'T', 'J', 'K', 'V', 'H', 'M', 'U'}) add(S{"kIRG_"} + i + "Source", c.get(i), true);
  add("kIRG_KPSource", "", true);
  add("kRSUnicode", std::to_string(c.radical) + c.prime + '.' + std::to_string(c.rest));
  add("kCompatibilityVariant", c.compatibility ? codes({c.compatibility}) : "", true);
  add("kTraditionalVariant", codes(c.traditional));
  add("kSimplifiedVariant", codes(c.simplified));
  add("kSemanticVariant", codes(c.semantic, {"&lt;kMatthews", "", "&lt;kLau,kMatthews"}));
  S t;
  for (auto& i : c.totals) t += (t.empty() ? "" : " ") + i;
  add("kTotalStrokes", t);
  S a;
  for (auto& i : c.adobe)
    a += pbt::cat(a.empty() ? "C+" : " V+", 1000 + i.rest * 7, '+', i.radical, '.', i.first, '.', i.rest);
  add("kRSAdobe_Japan1_6", a);
  add("kCantonese", "jat1");
  add("kDefinition", c.definition);
  add("kJapaneseOn", c.on);
  add("kJapaneseKun", c.kun);
  add("kJapanese", c.japanese);
  add("kMandarin", c.mandarin);
  add("kMorohashi", c.morohashi);
  add("kNelson", c.nelson);
  if (c.joyo) add("kJoyoKanji", c.official ? "U+" + hex(c.official) : "2010");
  if (c.jinmei) add("kJinmeiyoKanji", c.official ? "2010:U+" + hex(c.official) : "2010");
  return r + "/>\n";
}

S xml(const File& f) {
  S r{"<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n<ucd xmlns=\"http://www.unicode.org/ns/2003/ucd/1.0\">\n   <repertoire>\n"
      "      <char cp=\"0041\" age=\"1.1\" na=\"LATIN CAPITAL LETTER A\" blk=\"ASCII\"/>\n"};
  for (auto& i : f) r += xml(i);
  return r + "   </repertoire>\n</ucd>\n";
}

const V LinkWords{"variant", "interchangeable", "same", "non-classical", "Variant", "standard", "simplified", "ancient"};

struct Row {
  S code, name, block, version, radical, strokes, vstrokes, pinyin, morohashi, nelson, sources, jsource, joyo, jinmei, linkCodes,
      linkNames, linkType, meaning, on, kun, japanese;
  [[nodiscard]] V fields() const {
    return {code, name, block, version, radical, strokes, vstrokes, pinyin, morohashi, nelson, sources, jsource, joyo, jinmei,
        linkCodes, linkNames, linkType, meaning, on, kun, japanese};
  }
};

const V Columns{"Code", "Name", "Block", "Version", "Radical", "Strokes", "VStrokes", "Pinyin", "MorohashiId", "NelsonIds", "Sources",
    "JSource", "Joyo", "Jinmei", "LinkCodes", "LinkNames", "LinkType", "Meaning", "On", "Kun", "Japanese"};

// standard forms that UCD says are variants
const std::set<Code> Mistakes{0x4E98, 0x51DC, 0x5C2D, 0x5DCC, 0x6643, 0x6867, 0x69D9, 0x6E1A, 0x732A, 0x7422, 0x7950, 0x7962,
    0x7977, 0x7984, 0x798E, 0x7A63, 0x840C, 0x9065};
// Kanji with fixed readings or links
const std::map<Code, std::pair<S, S>> Fixed{{0x34E4, {"KATSU", ""}}, {0x3C7E, {"KAI", ""}}, {0x3C83, {"KYUU", ""}},
    {0x4BC2, {"SHIN", ""}}, {0x6479, {"BO", "MO"}}, {0x6532, {"KI", "KATAMUKU SOBADATERU"}},
    {0x6663, {"SEI SETSU", "AKIRAKA KASHIKOI"}}, {0x69D4, {"KOU", "HANETSURUBE"}}, {0x7B53, {"KEI", "KOUGAI KANZASHI"}},
    {0x7CF1, {"GETSU", "KOUJI MOYASHI"}}, {0x83C6, {"SHU", ""}}};
const std::map<Code, Code> FixedLinks{{0x3D4E, 0x6F97}, {0x5ECF, 0x5ED0}, {0x9D25, 0x9D2A}, {0x6AA8, 0x69D8}};

struct Model {
  struct Readings {
    S definition, on, kun;
  };
  std::map<Code, Readings> readings;
  std::map<Code, S> morohashi, jsource;
  std::map<Code, Code> back, links; // links by definition
  std::vector<Row> rows;
  std::set<S> uniqueJ, uniqueM, uniqueN;
  unsigned readingCount{}, joyo{}, jinmei{}, jinmeiLinks{}, meaning{}, pinyin{}, reading{}, direct{}, linked{}, left{};
  std::map<S, unsigned> types;

  [[nodiscard]] bool hasReading(Code c) const { return readings.contains(c); }
  [[nodiscard]] bool hasId(Code c) const { return morohashi.contains(c) || jsource.contains(c); }
  [[nodiscard]] bool canLoad(Code c) const { return hasReading(c) || links.contains(c); }

  // a simplified form isn't included unless it's also used in Japan
  static bool included(const Char& c) { return c.prime.empty() || c.radical == 199 || c.radical == 211; }

  static S id(const S& s) {
    S r;
    size_t i{};
    while (i < s.size() && s[i] == '0') ++i;
    for (; i < s.size() && s[i] != ' ' && s[i] != ':'; ++i) r += s[i] == '\'' ? 'P' : s[i];
    return r;
  }

  static bool mentions(const S& d) {
    for (auto& i : LinkWords)
      if (d.find(i + ' ') != S::npos || d.find(i + ',') != S::npos) return true;
    return false;
  }

  // character that is linked by the part of a definition after 'word'
  [[nodiscard]] std::optional<Code> target(const S& part, const S& word, bool unicode) const {
    const auto at{part.find(word)};
    if (at == S::npos) return {};
    auto i{at + word.size()};
    while (i < part.size() && (part[i] == '-' || part[i] == ',' || part[i] == ' ' || std::islower(static_cast<unsigned char>(part[i])) ||
                                  std::isdigit(static_cast<unsigned char>(part[i]))))
      ++i;
    if (!unicode) {
      for (auto c : ref::decode(part.substr(i))) {
        if (c < 0x80) break;
        if (hasReading(c)) return c;
      }
      return {};
    }
    if (part.compare(i, 2, "U+") != 0) return {};
    const auto c{static_cast<Code>(std::stoul(part.substr(i + 2), nullptr, 16))};
    return hasReading(c) ? std::optional{c} : std::nullopt;
  }

  void definitionLinks(const Char& c) {
    if (!c.prime.empty() || !mentions(c.definition)) return;
    V parts;
    S d{c.definition};
    for (size_t i{}; i < 3; ++i) {
      const auto e{d.find(')')};
      parts.push_back(d.substr(0, e));
      if (e == S::npos) break;
      d = d.substr(e + 1);
    }
    for (auto& w : LinkWords)
      for (auto& p : parts)
        for (auto u : {false, true})
          if (const auto t{target(p, w, u)}; t) {
            links.emplace(c.code, *t);
            return;
          }
  }

  // links of one record, only to characters with 'f'
  template <typename F> void traditional(const Char& c, std::vector<Code>& to, S& type, F f) const {
    for (auto i : c.traditional)
      if (i != c.code && std::find(to.begin(), to.end(), i) == to.end() && f(i)) {
        type = "Traditional";
        to.push_back(i);
      }
  }

  void strokes(const Char& c, Row& r) const {
    if (c.adobe.empty()) {
      r.strokes = c.totals[0];
      return;
    }
    const auto sum{[](auto& i) { return i.first + i.rest; }};
    auto strokes{sum(c.adobe[0])};
    unsigned variant{};
    for (size_t i{1}; i < c.adobe.size(); ++i) {
      const auto n{sum(c.adobe[i])};
      if (n == strokes) continue;
      variant = n;
      if (i == 1 && c.prime.empty() && c.adobe[i].radical == c.radical && c.adobe[i].rest == c.rest && c.totals[0] == std::to_string(n))
        std::swap(strokes, variant);
      break;
    }
    r.strokes = std::to_string(strokes);
    if (variant) r.vstrokes = std::to_string(variant);
  }

  void row(const Char& c) {
    Row r;
    auto own{readings.contains(c.code) ? readings.at(c.code) : Readings{}};
    const auto direct{hasReading(c.code)};
    std::vector<Code> to;
    S type;
    Code from{};
    bool isJoyo{};
    if (c.joyo)
      isJoyo = !c.official;
    else if (c.jinmei) {
      if (c.official) {
        from = c.official;
        if (!Mistakes.contains(c.code)) to = {c.official};
      } else if (back.contains(c.code))
        to = {back.at(c.code)};
      if (!to.empty()) type = "Jinmei";
    } else {
      const auto reading{[this](Code x) { return canLoad(x); }};
      const auto japan{[this](Code x) { return hasId(x); }};
      const auto simple{[&](auto f) {
        for (auto i : c.simplified)
          if (type.empty() && i != c.code && f(i)) {
            to = {i};
            type = "Simplified";
          }
      }};
      traditional(c, to, type, reading);
      if (!type.empty())
        traditional(c, to, type, japan);
      else {
        simple(reading);
        if (type.empty() && c.compatibility && canLoad(c.compatibility)) {
          to = {c.compatibility};
          type = "Compatibility";
        }
        if (type.empty() && links.contains(c.code)) {
          to = {links.at(c.code)};
          type = "Definition";
        }
        if (type.empty() && !direct)
          for (auto i : c.semantic)
            if (type.empty() && canLoad(i)) {
              to = {i};
              type = "Semantic";
            }
      }
      if (!type.empty())
        from = to[0];
      else { // no readings to load, but perhaps a character used in Japan
        traditional(c, to, type, japan);
        if (type.empty()) simple(japan);
      }
    }
    auto text{own};
    const auto plain{type};
    if (direct)
      ;
    else if (from) {
      text = readings.at(hasReading(from) ? from : links.at(from));
      type += '*';
    } else if (const auto f{Fixed.find(c.code)}; f != Fixed.end()) {
      text.on = f->second.first;
      text.kun = f->second.second;
    } else if (!hasId(c.code)) {
      ++left;
      // totals for official Kanji are counted before (the generator doesn't make such)
      return;
    }
    r.code = hex(c.code);
    r.name = ref::enc(c.code);
    r.block = c.blk;
    r.version = c.age;
    r.radical = std::to_string(c.radical);
    strokes(c, r);
    r.pinyin = c.mandarin.substr(0, c.mandarin.find(' '));
    if (morohashi.contains(c.code)) r.morohashi = morohashi.at(c.code);
    S n;
    for (auto& i : script::V{[&] {
           V v;
           std::istringstream is{c.nelson};
           for (S s; is >> s;) v.push_back(s);
           return v;
         }()}) {
      const auto s{i.substr(std::min(i.find_first_not_of('0'), i.size()))};
      r.nelson += (r.nelson.empty() ? "" : ",") + s;
      uniqueN.insert(s);
    }
    for (auto i : {'G', 'H', 'J', 'K', 'T', 'V'})
      if (!c.get(i).empty()) r.sources += i;
    r.jsource = c.get('J');
    if (isJoyo) r.joyo = "Y";
    if (c.jinmei) r.jinmei = "Y";
    for (auto i : to) {
      r.linkCodes += (r.linkCodes.empty() ? "" : ",") + hex(i);
      r.linkNames += (r.linkNames.empty() ? "" : ",") + ref::enc(i);
    }
    r.linkType = type;
    r.meaning = text.definition;
    r.on = text.on;
    r.kun = text.kun;
    r.japanese = c.japanese;
    rows.push_back(r);
    joyo += isJoyo;
    if (c.jinmei) (to.empty() ? jinmei : jinmeiLinks) += 1;
    if (!plain.empty()) ++types[plain];
    this->direct += direct;
    if (!direct && from) ++linked;
    reading += !(text.on + text.kun).empty();
    meaning += !text.definition.empty();
    pinyin += !r.pinyin.empty();
    if (!r.jsource.empty()) uniqueJ.insert(r.jsource);
    if (!r.morohashi.empty()) uniqueM.insert(r.morohashi);
  }

  explicit Model(const File& f) {
    for (auto& c : f) {
      if (!included(c)) continue;
      if (const auto m{id(c.morohashi)}; !m.empty()) morohashi[c.code] = m;
      if (!c.get('J').empty()) jsource[c.code] = c.get('J');
      if (c.jinmei && c.official) back[c.official] = c.code;
      if ((c.on + c.kun).empty()) continue;
      readings[c.code] = {c.definition, c.on, c.kun};
      ++readingCount;
      if (c.official) {
        readings[c.official] = readings[c.code];
        ++readingCount;
      }
    }
    for (auto& c : f) definitionLinks(c);
    for (auto& i : FixedLinks) links[i.first] = i.second;
    for (auto& c : f)
      if (!included(c))
        ++left;
      else if (!(c.on + c.kun + c.morohashi + c.get('J') + c.nelson).empty() || mentions(c.definition))
        row(c);
      else
        ++left;
  }
};

struct Maker {
  pbt::Gen& g;
  File f;
  std::vector<Code> all;

  // five digits that end with those of another character
  Code longer() {
    for (auto n{4}; n && !all.empty(); --n)
      if (const auto c{g.pick(all)}; c < 0xa6d0) return c + 0x20000;
    return 0x2034e;
  }
  Code code() {
    for (Code c{g.pick({0x4e00 + g.below(0x5200), 0x4e00 + g.below(0x5200), 0x3400 + g.below(0x19c0), 0x20000 + g.below(0xa6d0), 0xf900 + g.below(0x6d), longer()})};; ++c) {
      if (std::find(all.begin(), all.end(), c) != all.end() || Mistakes.contains(c) || FixedLinks.contains(c)) continue;
      if (std::any_of(FixedLinks.begin(), FixedLinks.end(), [c](auto& i) { return i.second == c; })) continue;
      return c;
    }
  }
  S some(const V& v, uint32_t max) {
    S r;
    for (auto n{1 + g.below(max)}; n; --n) r += (r.empty() ? "" : " ") + g.pick(v);
    return r;
  }
  void readings(Char& c) {
    const auto n{g.below(3)};
    if (n != 1) c.on = some({"ICHI", "ITSU", "KOU", "SHUU", "A"}, 3);
    if (n) c.kun = some({"HITO", "HITOTSU", "AKIRAKA", "TSUGU", "WA"}, 3);
  }
  S words() { return some({"one", "a, an", "alone;", "to sit down", "(Buddhist) monk", "kind of tree", "woman's name", "lush, verdant", "é", "U"}, 3); }
  // definition with links
  S definition() {
    S r;
    const auto target{[&] {
      const auto c{g.chance(1, 8) ? Code{0x9fa0} : g.pick(all)};
      switch (g.below(4)) {
      case 0: return "U+" + hex(c);
      case 1: return "U+" + hex(c) + ' ' + ref::enc(c);
      case 2: return ref::enc(g.pick(all)) + ref::enc(c);
      default: return ref::enc(c);
      }
    }};
    for (auto n{1 + g.below(5)}; n; --n) {
      if (!r.empty()) r += ' ';
      if (g.chance(1, 3))
        r += words();
      else {
        const auto w{g.pick(LinkWords)};
        r += (g.chance(1, 4) ? "a kind, " : "") + S{g.pick({"(", "(", ""})} + w;
        r += g.pick({" ", " of ", " as ", " form of ", ", also ", " with 2 "}) + target() + (g.chance(1, 4) ? ", or so" : "");
      }
      r += g.pick({")", ")", ") one", ")"});
    }
    return r;
  }
  Char make(Code code) {
    Char c;
    c.code = code;
    c.age = g.pick({"1.1", "3.0", "15.1"});
    c.blk = g.pick({"CJK", "CJK_Ext_A", "CJK_Compat_Ideographs"});
    c.radical = g.pick({1U, 199U, 211U, 214U, 120U, 1 + g.below(214)});
    c.rest = g.below(20);
    for (auto n{1 + g.below(2)}; n; --n) c.totals.push_back(std::to_string(1 + g.below(30)));
    if (g.chance(1, 3)) {
      for (auto n{1 + g.below(4)}; n; --n)
        c.adobe.push_back(g.chance(1, 3) && !c.adobe.empty() ? c.adobe.back()
                                                             : Ref{g.chance(3, 4) ? c.radical : 1 + g.below(214), 3 + g.below(3), g.chance(1, 2) ? c.rest : g.below(12)});
      if (g.chance(2, 3)) { // total that fits one of them
        auto& a{g.pick(c.adobe)};
        c.totals[0] = std::to_string(a.first + a.rest);
      }
    }
    if (g.chance(1, 2)) c.mandarin = some({"yī", "lǜ", "ér"}, 2);
    for (auto i : {'G', 'T', 'J', 'K', 'V', 'H', 'M', 'U'})
      if (g.chance(1, 3)) c.irg[i] = S{i} + g.pick({"0-3021", "1-4E00", "A-2E21"});
    if (g.chance(1, 3))
      c.morohashi = g.pick({"00001", "04138", "04138'", "00296 00297", "00012:E0101", "12345''", "H012", "00001:E0101 00002", "100", "00000"});
    if (g.chance(1, 4)) c.nelson = some({"0001", "0125", "5446", "1000", "0020"}, 3);
    if (g.chance(1, 2)) c.definition = words();
    return c;
  }
  void variants(Char& c) {
    const auto to{[&] { return g.chance(1, 8) ? code() : g.pick(all); }};
    const auto list{[&](std::vector<Code>& v) {
      for (auto n{1 + g.below(3)}; n; --n) v.push_back(to());
    }};
    if (g.chance(1, 4)) list(c.traditional);
    if (g.chance(1, 4)) list(c.simplified);
    if (g.chance(1, 4)) list(c.semantic);
    if (g.chance(1, 5)) {
      const auto t{to()};
      if (t != c.code) c.compatibility = t;
    }
    if (g.chance(1, 3)) c.definition = definition();
  }

  void official() {
    // Jouyou
    auto c{make(all.emplace_back(code()))};
    c.irg['J'] = "J0-306C";
    c.joyo = true;
    c.definition = words();
    if (g.chance(1, 6)) { // readings are those of another form
      auto o{make(all.emplace_back(code()))};
      readings(o);
      o.definition = words();
      o.irg['J'] = "J1-306D";
      o.joyo = true;
      o.official = c.code;
      f.push_back(o);
      c.definition.clear();
      f.push_back(c);
      return;
    }
    readings(c);
    if (g.chance(1, 3)) f.push_back(variant(c));
    if (g.chance(1, 6)) { // form of a name and of a definition differ, but not both
      c.traditional = {g.pick(all)};
    }
    f.push_back(c);
  }
  // accepted variant of an official Kanji. If both have readings then these are equal
  Char variant(Char& c) {
    auto v{make(all.emplace_back(code()))};
    v.irg['J'] = "J1-306E";
    v.jinmei = true;
    v.official = c.code;
    if (g.boolean()) {
      v.on = c.on;
      v.kun = c.kun;
      v.definition = c.definition;
      if (g.chance(1, 3)) c.on = c.kun = "";
    }
    return v;
  }
  void jinmei() {
    auto c{make(all.emplace_back(code()))};
    c.irg['J'] = "J3-306C";
    c.jinmei = true;
    readings(c);
    if (g.chance(1, 3)) { // standard form that seems to be a variant
      const auto m{g.pick(Mistakes)};
      if (std::find(all.begin(), all.end(), m) == all.end()) {
        auto s{make(all.emplace_back(m))};
        s.irg['J'] = "J3-306D";
        s.jinmei = true;
        s.official = c.code;
        s.on = c.on;
        s.kun = c.kun;
        s.definition = c.definition;
        if (g.chance(1, 4)) c.on = c.kun = "";
        f.push_back(s);
      }
    }
    f.push_back(c);
  }

  explicit Maker(pbt::Gen& x) : g{x} {
    for (auto n{g.size(4)}; n; --n) official();
    for (auto n{g.size(2)}; n; --n) jinmei();
    const auto others{1 + g.size(14)};
    const auto first{all.size()};
    for (size_t n{}; n < others; ++n) {
      auto x{code()};
      if (g.chance(1, 12)) {
        const auto k{std::next(Fixed.begin(), g.below(static_cast<uint32_t>(Fixed.size())))->first};
        if (std::find(all.begin(), all.end(), k) == all.end()) x = k;
      }
      all.push_back(x);
    }
    for (size_t n{}; n < others; ++n) {
      auto c{make(all[first + n])};
      if (g.chance(1, 5)) {
        c.radical = g.pick({199U, 211U, 120U, 99U, 19U});
        c.prime = g.pick({"'", "''"});
      }
      if (g.chance(2, 5)) readings(c);
      if (g.chance(1, 4)) c.irg.erase('J');
      variants(c);
      f.push_back(c);
    }
    for (auto& c : f)
      if (g.chance(1, 4)) c.japanese = some({"イチ", "ひと", "カン"}, 2);
    std::sort(f.begin(), f.end(), [](auto& a, auto& b) { return a.code < b.code; });
  }
};

void total(const S& out, const S& text) { PBT_CHECK(("\n" + out).find(text) != S::npos, "'", text, "' not in: ", out); }

} // namespace

PBT_SUB(generated, 500, 6000) {
  Maker m{c.g};
  const Model e{m.f};
  const auto file{xml(m.f)};
  c.describe(file);
  script::fresh();
  script::write(script::dir() / "in.xml", file);
  const auto r{script::run("parseUcdAllFlat.sh", {"in.xml", "ucd.txt"})};
  PBT_EQ(r.code, 0, r.out, r.err);
  PBT_EQ(r.err, "", "no errors expected");
  const auto l{script::lines(script::read(script::dir() / "ucd.txt"))};
  PBT_CHECK(!l.empty(), r.out);
  const auto split{[](const S& s) {
    V v{""};
    for (auto i : s)
      if (i == '\t')
        v.emplace_back();
      else
        v.back() += i;
    return v;
  }};
  PBT_EQ(split(l[0]), Columns, "header");
  for (size_t i{1}; i < l.size(); ++i) {
    const auto v{split(l[i])};
    if (i > e.rows.size()) pbt::fail("unexpected row: " + l[i]);
    const auto w{e.rows[i - 1].fields()};
    PBT_EQ(v[0], w[0], "row ", i, ": ", l[i]);
    PBT_EQ(v.size(), w.size(), l[i]);
    for (size_t j{}; j < w.size(); ++j) PBT_EQ(v[j], w[j], Columns[j], " of ", l[i]);
  }
  PBT_EQ(l.size(), e.rows.size() + 1, "number of rows");
  // summary
  const auto n{[](auto x) { return std::to_string(x); }};
  total(r.out, "Reading " + n(e.readingCount) + ", Morohashi " + n(e.morohashi.size()) + ", JSource " + n(e.jsource.size()) + "\n");
  total(r.out, "found " + n(e.links.size()) + "\n");
  PBT_CHECK(r.out.find("ERROR") == S::npos && r.out.find("failed") == S::npos && r.out.find("Errors") == S::npos, r.out);
  total(r.out, "wrote " + n(e.rows.size()) + "\n");
  total(r.out, "Unique JSource: " + n(e.uniqueJ.size()) + " ");
  total(r.out, "Unique Morohashi: " + n(e.uniqueM.size()) + " ");
  total(r.out, "Unique Nelson ID: " + n(e.uniqueN.size()) + " ");
  total(r.out, "Total Jouyou: " + n(e.joyo) + " ");
  total(r.out, "Total Jinmei: " + n(e.jinmei) + " ");
  total(r.out, "Jinmei Links: " + n(e.jinmeiLinks) + " ");
  const auto t{[&](const S& s) { return s + ' ' + n(e.types.contains(s) ? e.types.at(s) : 0); }};
  total(r.out, "  " + t("Traditional") + ", " + t("Simplified") + ", " + t("Compatibility") + ", " + t("Definition") + ", " + t("Semantic") + "\n");
  total(r.out, "  Meaning " + n(e.meaning) + ", Pinyin " + n(e.pinyin) + ", Reading " + n(e.reading) + " (Direct " + n(e.direct) + " Linked " +
                   n(e.linked) + " Manual " + n(e.reading - e.direct - e.linked) + ")\n");
  // the program reads it
  UcdData u;
  u.load(script::dir() / "ucd.txt");
  PBT_EQ(u.map().size(), e.rows.size(), "loaded");
  for (auto& i : e.rows) {
    const auto* k{u.find(i.name)};
    PBT_CHECK(k, i.name, " not found");
    PBT_EQ(hex(static_cast<uint32_t>(k->code())), i.code, i.name);
    PBT_EQ(k->links().size(), i.linkCodes.empty() ? 0U : static_cast<size_t>(1 + std::count(i.linkCodes.begin(), i.linkCodes.end(), ',')), i.name);
    PBT_EQ(AllUcdLinkTypes.toString(k->linkType()), i.linkType.empty() ? "None" : i.linkType, i.name);
    PBT_EQ(k->onReading() + '/' + k->kunReading(), i.on + '/' + i.kun, i.name);
    PBT_EQ(k->sources(), i.sources, i.name);
    PBT_CHECK(k->joyo() == !i.joyo.empty() && k->jinmei() == !i.jinmei.empty(), i.name);
  }
  for (auto& i : e.types) c.label(i.first);
  for (auto& i : e.rows) {
    if (i.linkType.ends_with('*')) c.label("loaded from link");
    if (!i.vstrokes.empty()) c.label("two stroke counts");
  }
  if (!e.types.empty() && e.left) c.nontrivial(file);
}

PBT_ENUM(usage, 2) {
  V args;
  for (auto n{c.g.below(2)}; n; --n) args.push_back("in.xml");
  script::fresh();
  const auto r{script::run("parseUcdAllFlat.sh", args)};
  c.describe("usage");
  PBT_EQ(r.code, 1, r.out);
  PBT_CHECK(r.out.find("usage: ") != S::npos, r.out);
}
