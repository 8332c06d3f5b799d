// libs: kanji
#include "kload.h"

using namespace kanji_tools;
using dict::S, dict::V, dict::Dict, dict::Files;

const pbt::Info pbt::info{"P17",
    "consistent data directories with one or more injected faults: each of a "
    "list of named contradictions and malformed fields, which must be reported "
    "with a message that names it, and random edits of any file, which must "
    "end in an error or in data where all views still agree; non-trivial = "
    "every case (each has a fault), distinct by fault and files"};

namespace {

// ---- edits of files

V lines(const S& s) { return dict::split(s, '\n'); }

S unlines(const V& v) {
  S r;
  for (auto& i : v) r += i + '\n';
  return r;
}

V cells(const S& line) {
  V r{""};
  for (auto c : line)
    if (c == '\t')
      r.emplace_back();
    else
      r.back() += c;
  return r;
}

size_t column(const S& file, const S& name) {
  const auto h{cells(lines(file)[0])};
  const auto i{std::find(h.begin(), h.end(), name)};
  if (i == h.end()) throw std::logic_error{"no column " + name};
  return static_cast<size_t>(i - h.begin());
}

S cell(const S& file, size_t row, const S& col) { return cells(lines(file).at(row)).at(column(file, col)); }

void set(S& file, size_t row, const S& col, const S& value) {
  auto l{lines(file)};
  auto c{cells(l.at(row))};
  c.at(column(file, col)) = value;
  l[row] = dict::join(c, "\t");
  file = unlines(l);
}

size_t rows(const S& file) { return lines(file).size() - 1; }

// a random row (from 1), discards the case if there are none
size_t anyRow(pbt::Gen& g, const S& file) {
  const auto n{rows(file)};
  if (!n) throw pbt::Discard{};
  return 1 + g.below(static_cast<uint32_t>(n));
}

// a random row for which 'f' is true
template <typename F> size_t someRow(pbt::Gen& g, const S& file, F f) {
  std::vector<size_t> v;
  for (size_t i{1}; i <= rows(file); ++i)
    if (f(i)) v.push_back(i);
  if (v.empty()) throw pbt::Discard{};
  return g.pick(v);
}

struct Case {
  pbt::Gen& g;
  Dict& d;
  Files& f;
  V options;
  // expected parts of the message; 'thrown' false if it is printed to 'err'
  V words;
  bool thrown{true}, onlyOptions{};
  S& ucd{f["ucd.txt"]};

  bool joyo(size_t r) { return cell(ucd, r, "Joyo") == "Y"; }
  bool jinmei(size_t r) { return cell(ucd, r, "Jinmei") == "Y"; }
  bool has(size_t r, const S& c) { return !cell(ucd, r, c).empty(); }
  void bad(const S& file, size_t row, V w) {
    w.push_back(file);
    w.push_back("row: " + std::to_string(row));
    words = std::move(w);
  }
  // 'f' with the table file to edit and any of its rows
  size_t row(const S& file) { return anyRow(g, f[file]); }
};

struct Fault {
  const char* name;
  void (*inject)(Case&);
};

S badNumber(pbt::Gen& g) { return g.pick({"", "x", "-1", "1x", " 1", "99999999999999999999999", "+2", "１"}); }

const S NotLoaded{"𪜈"}; // U+2A708, not generated

S officialFile(pbt::Gen& g) { return g.pick({"jouyou.txt", "jinmei.txt", "extra.txt"}); }

template <typename L> auto& pickList(pbt::Gen& g, L& lists) {
  std::vector<V*> v;
  for (auto& i : lists)
    if (!i.empty()) v.push_back(&i);
  if (v.empty()) throw pbt::Discard{};
  return *g.pick(v);
}

V officials(const Dict& d) {
  V r;
  for (auto& i : d.jouyou) r.push_back(i.name);
  for (auto& i : d.jinmei) r.push_back(i.name);
  return r;
}

// add 's' to the list somewhere
void put(pbt::Gen& g, V& v, const S& s) { v.insert(v.begin() + g.below(static_cast<uint32_t>(v.size()) + 1), s); }

void rewriteLists(Case& c) {
  const auto f{dict::files(c.d)};
  for (auto& i : f)
    if (i.first.starts_with("jlpt/") || i.first.starts_with("kentei/") || i.first == "frequency.txt")
      c.f[i.first] = i.second;
}

const std::vector<Fault> Faults{
    {"missing file",
        [](Case& c) {
          const auto s{c.g.pick(c.f).first};
          if (s.starts_with("jukugo/")) throw pbt::Discard{};
          c.f.erase(s);
          c.words = {s.find('/') == S::npos ? "does not contain 10 expected '.txt' files" : s};
        }},
    {"surplus file",
        [](Case& c) {
          c.f["zzz.txt"] = "";
          c.words = {"does not contain 10 expected '.txt' files"};
        }},
    {"renamed file",
        [](Case& c) {
          const S s{c.g.pick({"ucd", "radicals", "jouyou", "jinmei", "extra", "frequency-readings", "linked-jinmei"})};
          c.f.erase(s + ".txt");
          c.f["other.txt"] = "";
          c.words = {"must contain '" + s};
        }},
    {"empty file",
        [](Case& c) {
          const S s{c.g.pick({"ucd", "radicals", "jouyou", "jinmei", "extra", "frequency-readings"})};
          c.f[s + ".txt"] = "";
          c.words = {"missing header row", s + ".txt"};
        }},
    {"column removed",
        [](Case& c) {
          const S s{c.g.pick({"ucd", "radicals", "jouyou", "jinmei", "extra", "frequency-readings"})};
          auto l{lines(c.f[s + ".txt"])};
          auto h{cells(l[0])};
          const auto n{c.g.below(static_cast<uint32_t>(h.size()))};
          c.words = {h[n], "not found", s + ".txt"};
          h.erase(h.begin() + n);
          l[0] = dict::join(h, "\t");
          c.f[s + ".txt"] = unlines(l);
        }},
    {"field removed or added",
        [](Case& c) {
          const S s{c.g.pick({"ucd", "radicals", "jouyou", "jinmei", "extra", "frequency-readings"})};
          const auto r{c.row(s + ".txt")};
          auto l{lines(c.f[s + ".txt"])};
          auto v{cells(l[r])};
          const auto n{c.g.below(static_cast<uint32_t>(v.size()))};
          if (c.g.boolean()) {
            v.erase(v.begin() + n);
            c.bad(s + ".txt", r, {"not enough columns"});
          } else {
            v.insert(v.begin() + n, v[n]);
            c.bad(s + ".txt", r, {"too many columns"});
          }
          l[r] = dict::join(v, "\t");
          c.f[s + ".txt"] = unlines(l);
        }},
    {"-data without directory",
        [](Case& c) {
          c.onlyOptions = true;
          c.options = c.g.boolean() ? V{"-data"} : V{"-info", "-data"};
          c.words = {"must be followed by a directory"};
        }},
    {"two debug options",
        [](Case& c) {
          c.options = {c.g.pick({"-debug", "-info"}), c.g.pick({"-debug", "-info"})};
          c.words = {"can only specify one"};
        }},
    // ---- ucd.txt
    {"ucd: no reading or source",
        [](Case& c) {
          const auto r{c.row("ucd.txt")};
          for (auto i : {"On", "Kun", "MorohashiId", "JSource"}) set(c.ucd, r, i, "");
          c.bad("ucd.txt", r, {"must be populated"});
        }},
    {"ucd: long name",
        [](Case& c) {
          const auto r{c.row("ucd.txt")};
          set(c.ucd, r, "Name", cell(c.ucd, r, "Name") + c.g.pick({"一", "\xef\xb8\x80"}));
          c.bad("ucd.txt", r, {"name more than 4 bytes"});
        }},
    {"ucd: radical",
        [](Case& c) {
          const auto r{c.row("ucd.txt")};
          const S v{c.g.pick({"0", "215", "65537", "256"})};
          set(c.ucd, r, "Radical", v);
          c.bad("ucd.txt", r, {"radical '" + v + "' out of range"});
        }},
    {"ucd: bad number",
        [](Case& c) {
          const auto r{c.row("ucd.txt")};
          const S v{badNumber(c.g)};
          const S col{c.g.pick({"Radical", "Strokes"})};
          set(c.ucd, r, col, v);
          c.bad("ucd.txt", r, {"failed to convert to unsigned number", col});
        }},
    {"ucd: strokes",
        [](Case& c) {
          const auto r{c.row("ucd.txt")};
          if (c.g.boolean()) {
            set(c.ucd, r, "VStrokes", "");
            const S v{c.g.pick({"0", "65", "255", "256", "300"})};
            set(c.ucd, r, "Strokes", v);
            c.bad("ucd.txt", r, {v.size() > 2 && v != "255" ? "exceeded max value" : "out of range"});
          } else {
            set(c.ucd, r, "Strokes", "5");
            const S v{c.g.pick({"1", "2", "34", "5", "0", "257"})};
            set(c.ucd, r, "VStrokes", v);
            c.bad("ucd.txt", r, {v == "5" ? "are the same" : v == "257" ? "exceeded max value" : "out of range"});
          }
        }},
    {"ucd: both joyo and jinmei",
        [](Case& c) {
          const auto r{someRow(c.g, c.ucd, [&](auto i) { return c.joyo(i) || c.jinmei(i); })};
          set(c.ucd, r, c.joyo(r) ? "Jinmei" : "Joyo", c.g.pick({"Y", "T"}));
          c.bad("ucd.txt", r, {"both joyo and jinmei"});
        }},
    {"ucd: bad bool",
        [](Case& c) {
          const auto r{c.row("ucd.txt")};
          set(c.ucd, r, c.g.pick({"Joyo", "Jinmei"}), c.g.pick({"X", "y", "YES", "1", " "}));
          c.bad("ucd.txt", r, {"failed to convert to bool"});
        }},
    {"ucd: joyo without meaning",
        [](Case& c) {
          const auto r{someRow(c.g, c.ucd, [&](auto i) { return c.joyo(i); })};
          set(c.ucd, r, "Meaning", "");
          c.bad("ucd.txt", r, {"meaning is empty"});
        }},
    {"ucd: joyo with links",
        [](Case& c) {
          const auto r{someRow(c.g, c.ucd, [&](auto i) { return c.joyo(i); })};
          set(c.ucd, r, "LinkCodes", "4E00");
          set(c.ucd, r, "LinkNames", "一");
          set(c.ucd, r, "LinkType", "Simplified");
          c.bad("ucd.txt", r, {"joyo shouldn't have links"});
        }},
    {"ucd: incomplete links",
        [](Case& c) {
          const auto r{someRow(c.g, c.ucd, [&](auto i) { return c.has(i, "LinkNames"); })};
          switch (c.g.below(6)) {
          case 0:
            set(c.ucd, r, "LinkNames", "");
            c.bad("ucd.txt", r, {"LinkNames is empty"});
            break;
          case 1:
            set(c.ucd, r, "LinkType", "");
            c.bad("ucd.txt", r, {"LinkType is empty"});
            break;
          case 2:
            set(c.ucd, r, "LinkNames", cell(c.ucd, r, "LinkNames") + ",一");
            c.bad("ucd.txt", r, {"more values than LinkCodes"});
            break;
          case 3:
            set(c.ucd, r, "LinkCodes", "");
            c.bad("ucd.txt", r, {"more values than LinkCodes"});
            break;
          case 4: {
            auto v{dict::split(cell(c.ucd, r, "LinkCodes"), ',')};
            v[c.g.below(static_cast<uint32_t>(v.size()))] = "4DFF";
            set(c.ucd, r, "LinkCodes", dict::join(v, ","));
            c.words = {"doesn't match"};
            break;
          }
          default:
            set(c.ucd, r, "LinkType", c.g.pick({"X", "simplified", "Jinmei**", "None", "R"}));
            c.bad("ucd.txt", r, {"name '"});
          }
        }},
    {"ucd: link type or codes without links",
        [](Case& c) {
          const auto r{someRow(c.g, c.ucd, [&](auto i) { return !c.has(i, "LinkNames"); })};
          const auto b{c.g.boolean()};
          set(c.ucd, r, b ? "LinkType" : "LinkCodes", b ? "Jinmei" : "4E00");
          c.bad("ucd.txt", r, {b ? "LinkType has a value" : "LinkCodes has a value"});
        }},
    {"ucd: code",
        [](Case& c) {
          const auto r{c.row("ucd.txt")};
          const S old{cell(c.ucd, r, "Code")};
          const S v{c.g.pick({"4DFF", "4E0", "4e00", "4E0G", "U4E00", "123456", "", "0x4E"})};
          if (v == old) throw pbt::Discard{};
          set(c.ucd, r, "Code", v);
          c.bad("ucd.txt", r, {v == "4DFF" ? "doesn't match" : "failed to convert to Code"});
        }},
    {"ucd: swapped codes",
        [](Case& c) {
          const auto a{c.row("ucd.txt")}, b{c.row("ucd.txt")};
          if (a == b) throw pbt::Discard{};
          const S x{cell(c.ucd, a, "Code")}, y{cell(c.ucd, b, "Code")};
          set(c.ucd, a, "Code", y);
          set(c.ucd, b, "Code", x);
          c.bad("ucd.txt", std::min(a, b), {"doesn't match"});
        }},
    {"ucd: not a Kanji",
        [](Case& c) {
          const auto r{c.row("ucd.txt")};
          const S v{c.g.pick({"あ", "ア", "A", "。", "é", "", "\xe4\xb8"})};
          set(c.ucd, r, "Name", v);
          c.bad("ucd.txt", r, {"isn't a recognized Kanji"});
        }},
    {"ucd: Morohashi id",
        [](Case& c) {
          const auto r{c.row("ucd.txt")};
          set(c.ucd, r, "MorohashiId", c.g.pick({"x", "P", "H", "H0", "0P", "PP", "1PPP", "HH1", "65536", "1 ", "-1"}));
          c.bad("ucd.txt", r, {"Morohashi ID"});
        }},
    {"ucd: sources",
        [](Case& c) {
          const auto r{c.row("ucd.txt")};
          const S v{c.g.pick({"GG", "GHJG", "X", "g", "GHJKTVG", "G H"})};
          set(c.ucd, r, "Sources", v);
          c.bad("ucd.txt", r, {"sources '" + v + "'"});
        }},
    {"ucd: duplicate entry",
        [](Case& c) {
          const auto r{c.row("ucd.txt")};
          auto l{lines(c.ucd)};
          const auto to{r + 1 + c.g.below(static_cast<uint32_t>(l.size() - r))};
          // the copy must not be rejected for its link
          auto v{cells(l[r])};
          for (auto i : {"LinkCodes", "LinkNames", "LinkType"}) v[column(c.ucd, i)] = "";
          if (c.g.boolean()) { // the other fields may differ
            const auto w{cells(l[c.row("ucd.txt")])};
            for (auto i : {"Radical", "Strokes", "VStrokes", "Pinyin", "Version", "MorohashiId", "NelsonIds", "Sources", "JSource", "On", "Kun"})
              if (c.g.boolean() || S{i}.ends_with("trokes")) v[column(c.ucd, i)] = w[column(c.ucd, i)];
            auto has{false};
            for (auto i : {"On", "Kun", "MorohashiId", "JSource"}) has |= !v[column(c.ucd, i)].empty();
            if (!has) v[column(c.ucd, "On")] = "A";
          }
          l.insert(l.begin() + static_cast<long>(to), dict::join(v, "\t"));
          c.ucd = unlines(l);
          c.bad("ucd.txt", to, {"duplicate entry '" + v[column(c.ucd, "Name")] + "'"});
        }},
    {"ucd: jinmei entries with the same link",
        [](Case& c) {
          const auto a{someRow(c.g, c.ucd, [&](auto i) { return c.jinmei(i) && c.has(i, "LinkNames"); })};
          const auto b{someRow(c.g, c.ucd, [&](auto i) { return i != a && c.jinmei(i); })};
          for (auto i : {"LinkCodes", "LinkNames"}) {
            auto v{dict::split(cell(c.ucd, a, i), ',')};
            set(c.ucd, b, i, v.at(0));
          }
          set(c.ucd, b, "LinkType", "Simplified");
          c.bad("ucd.txt", std::max(a, b), {"link already points to"});
          if (b < a) c.words = {"link already points to", "ucd.txt"};
        }},
    // ---- radicals and official files
    {"radicals: order",
        [](Case& c) {
          const auto r{c.row("radicals.txt")};
          const S v{c.g.pick({std::to_string(r + 1), std::to_string(r - 1), S{"255"}, S{"214"}})};
          if (v == std::to_string(r)) throw pbt::Discard{};
          set(c.f["radicals.txt"], r, "Number", v);
          c.bad("radicals.txt", r, {"must be ordered"});
        }},
    {"radicals: number",
        [](Case& c) {
          const auto r{c.row("radicals.txt")};
          set(c.f["radicals.txt"], r, "Number", c.g.pick({badNumber(c.g), S{"256"}, std::to_string(r + 256)}));
          c.bad("radicals.txt", r, {"Number"});
        }},
    {"radical removed",
        [](Case& c) {
          // the last radical is used by nothing or reported
          auto l{lines(c.f["radicals.txt"])};
          if (l.size() < 3) throw pbt::Discard{};
          const auto n{l.size() - 1};
          const auto name{c.d.radicals.back().name};
          const auto m{dict::model(c.d)};
          bool used{}, first{};
          for (auto* rows : {&c.d.jouyou, &c.d.jinmei, &c.d.extra})
            for (auto& i : *rows) used = used || i.radical == name;
          for (auto& i : m.all) first = first || i.second.radical == n;
          if (!first) throw pbt::Discard{};
          l.pop_back();
          c.f["radicals.txt"] = unlines(l);
          if (used)
            c.words = {};
          else
            c.words = {"'" + std::to_string(n) + "' is not a valid radical number"};
        }},
    {"official: unknown radical",
        [](Case& c) {
          const auto s{officialFile(c.g)};
          const auto r{c.row(s)};
          const S v{c.g.pick({NotLoaded, S{}, S{"x"}})};
          set(c.f[s], r, "Radical", v);
          c.words = {"name not found: " + v};
        }},
    {"official: numbers",
        [](Case& c) {
          const auto s{officialFile(c.g)};
          const auto r{c.row(s)};
          V cols{"Number"};
          if (s != "jinmei.txt") cols.push_back("Strokes");
          if (s != "extra.txt") cols.push_back("Year");
          const S col{c.g.pick(cols)};
          S v{badNumber(c.g)};
          if (v.empty() || c.g.chance(1, 3)) v = col == "Strokes" ? "256" : "65536";
          set(c.f[s], r, col, v);
          c.bad(s, r, {col});
        }},
    {"official: strokes",
        [](Case& c) {
          const S s{c.g.pick({"jouyou.txt", "extra.txt"})};
          const auto r{c.row(s)};
          const S v{c.g.pick({"0", "65", "255"})};
          set(c.f[s], r, "Strokes", v);
          c.words = {"strokes '" + v + "' out of range"};
        }},
    {"jouyou: grade",
        [](Case& c) {
          const auto r{c.row("jouyou.txt")};
          set(c.f["jouyou.txt"], r, "Grade", c.g.pick({"", "0", "7", "s", "S1", "G1", "11", "None"}));
          c.words = {"name '"};
        }},
    {"jinmei: reason",
        [](Case& c) {
          const auto r{c.row("jinmei.txt")};
          set(c.f["jinmei.txt"], r, "Reason", c.g.pick({"", "names", "Name", "X", "None"}));
          c.words = {"name '"};
        }},
    {"official: name",
        [](Case& c) {
          const auto s{officialFile(c.g)};
          const auto r{c.row(s)};
          const S v{c.g.pick({cell(c.f[s], r, "Name") + "一", S{}, S{"一二三"}})};
          set(c.f[s], r, "Name", v);
          c.words = {v};
        }},
    {"frequency-readings: duplicate",
        [](Case& c) {
          auto l{lines(c.f["frequency-readings.txt"])};
          if (l.size() < 2) throw pbt::Discard{};
          const auto v{cells(l[1 + c.g.below(static_cast<uint32_t>(l.size() - 1))])};
          const auto at{1 + c.g.below(static_cast<uint32_t>(l.size()))};
          l.insert(l.begin() + at, v[0] + '\t' + (c.g.boolean() ? S{"オウ"} : v[1]));
          size_t second{};
          for (size_t i{1}, n{}; i < l.size() && n < 2; ++i)
            if (cells(l[i])[0] == v[0] && ++n == 2) second = i;
          c.f["frequency-readings.txt"] = unlines(l);
          c.bad("frequency-readings.txt", second, {"duplicate name"});
        }},
    {"linked: unknown Jouyou",
        [](Case& c) {
          auto l{lines(c.f["linked-jinmei.txt"])};
          l.insert(l.begin() + c.g.below(static_cast<uint32_t>(l.size()) + 1), NotLoaded + "\t一");
          c.f["linked-jinmei.txt"] = unlines(l);
          c.words = {"'" + NotLoaded + "' not found", "linked-jinmei.txt"};
        }},
    {"linked: bad line",
        [](Case& c) {
          auto l{lines(c.f["linked-jinmei.txt"])};
          const S s{c.g.pick({"一", "", "\t", "一 丁", "一\t"})};
          l.insert(l.begin() + c.g.below(static_cast<uint32_t>(l.size()) + 1), s);
          c.f["linked-jinmei.txt"] = unlines(l);
          c.words = {s == "\t" ? "linked-jinmei.txt" : "bad line '" + s + "'", "linked-jinmei.txt"};
        }},
    {"linked: link of a link",
        [](Case& c) {
          auto l{lines(c.f["linked-jinmei.txt"])};
          if (l.empty()) throw pbt::Discard{};
          const auto v{cells(c.g.pick(l))};
          l.push_back(v[1] + "\t" + NotLoaded);
          c.f["linked-jinmei.txt"] = unlines(l);
          c.words = {"wanted type", "LinkedJinmei"};
        }},
    // ---- lists
    {"list: duplicate in one list",
        [](Case& c) {
          auto& v{c.g.boolean() ? pickList(c.g, c.d.levels) : c.g.boolean() ? pickList(c.g, c.d.kyus) : c.d.freq};
          if (v.empty()) throw pbt::Discard{};
          const S s{c.g.pick(v)};
          put(c.g, v, s);
          rewriteLists(c);
          c.words = {"got duplicate token '" + s};
        }},
    {"list: in two lists",
        [](Case& c) {
          const bool lev{c.g.boolean()};
          auto& v{lev ? pickList(c.g, c.d.levels) : pickList(c.g, c.d.kyus)};
          const S s{c.g.pick(v)};
          auto& to{lev ? c.d.levels[c.g.below(5)] : c.d.kyus[c.g.below(12)]};
          if (&to == &v) throw pbt::Discard{};
          put(c.g, to, s);
          rewriteLists(c);
          c.words = {"found 1 duplicates in", s};
        }},
    {"list: bad token",
        [](Case& c) {
          const S s{c.g.pick({"x", "一丁", "\xe4\xb8", "\xff", "一\xef\xb8\x80"})};
          put(c.g, c.g.boolean() ? c.d.levels[c.g.below(5)] : c.g.boolean() ? c.d.kyus[c.g.below(12)] : c.d.freq, s);
          rewriteLists(c);
          c.words = {"invalid multi-byte token '" + s};
        }},
    {"list: two on one line",
        [](Case& c) {
          if (c.d.freq.empty()) throw pbt::Discard{};
          c.f["frequency.txt"] += "一 丁\n";
          c.words = {"got multiple tokens", "line: " + std::to_string(c.d.freq.size() + 1), "frequency"};
        }},
    {"list: unknown Kanji",
        [](Case& c) {
          put(c.g, c.g.boolean() ? c.d.levels[c.g.below(5)] : c.g.boolean() ? c.d.kyus[c.g.below(12)] : c.d.freq, NotLoaded);
          rewriteLists(c);
          c.words = {"UCD entry not found: " + NotLoaded};
        }},
    {"level list: Kanji without level",
        [](Case& c) {
          V names;
          const auto m{dict::model(c.d)};
          for (auto t : {dict::LinkedJinmei, dict::LinkedOld, dict::Extra})
            for (auto& i : m.types[t])
              if (!dict::hasVS(i)) names.push_back(i);
          if (names.empty()) throw pbt::Discard{};
          const S s{c.g.pick(names)};
          put(c.g, c.d.levels[c.g.below(5)], s);
          rewriteLists(c);
          c.words = {"'" + s + "' is in a level list, but can't have a level"};
        }},
    {"frequency list: Extra Kanji",
        [](Case& c) {
          if (c.d.extra.empty()) throw pbt::Discard{};
          const S s{c.g.pick(c.d.extra).name};
          put(c.g, c.d.freq, s);
          rewriteLists(c);
          c.words = {"'" + s + "' is in the frequency list, but can't have a frequency"};
        }},
    // ---- contradictions which are printed while loading goes on
    {"printed: same Kanji twice",
        [](Case& c) {
          const auto to{officialFile(c.g)};
          auto all{officials(c.d)};
          for (auto& i : c.d.linked) all.push_back(i.second);
          if (to == "extra.txt")
            for (auto& i : c.d.extra) all.push_back(i.name);
          if (all.empty()) throw pbt::Discard{};
          const auto m{dict::model(c.d)};
          const S s{c.g.pick(all)};
          if (dict::hasVS(s) && to == "jouyou.txt") throw pbt::Discard{};
          dict::Row r;
          r.number = 999;
          r.name = s;
          r.radical = c.d.radicals[0].name;
          r.strokes = 7;
          r.grade = "3";
          r.reason = "Names";
          r.meaning = "again";
          r.reading = "サイ";
          auto& v{to == "jouyou.txt" ? c.d.jouyou : to == "jinmei.txt" ? c.d.jinmei : c.d.extra};
          v.push_back(r);
          c.f[to] = dict::files(c.d)[to];
          v.pop_back();
          // a Jouyou can also be the duplicate of something loaded later
          const auto before{m.all.at(s).type};
          S other{s};
          if (to == "jouyou.txt" && before != dict::Jouyou) throw pbt::Discard{};
          c.thrown = false;
          c.words = {"failed to insert '" + other + "' into map"};
        }},
    {"printed: not in ucd",
        [](Case& c) {
          if (c.d.jouyou.empty()) throw pbt::Discard{};
          const S s{c.g.pick(c.d.jouyou).name};
          auto l{lines(c.ucd)};
          const auto col{column(c.ucd, "Name")};
          std::erase_if(l, [&](auto& i) { return cells(i)[col] == s; });
          c.ucd = unlines(l);
          c.thrown = false;
          c.words = {s + " [" + "U+" + dict::hex(dict::codeOf(s)) + "]", "not found in _ucd"};
          c.words[0] = s;
        }},
    {"printed: not marked",
        [](Case& c) {
          const auto j{c.g.boolean()};
          V names;
          if (j)
            for (auto& i : c.d.jouyou) names.push_back(i.name);
          else {
            // entries with a variation selector are found by their jinmei link
            for (auto& i : c.d.jinmei) names.push_back(i.name);
            for (auto& i : c.d.linked)
              if (!dict::hasVS(i.second)) names.push_back(i.second);
            for (auto& i : c.d.jinmei)
              for (auto& k : i.old)
                if (!dict::hasVS(k)) names.push_back(k);
          }
          if (names.empty()) throw pbt::Discard{};
          const S s{c.g.pick(names)};
          const auto r{someRow(c.g, c.ucd, [&](auto i) { return cell(c.ucd, i, "Name") == s; })};
          set(c.ucd, r, j ? "Joyo" : "Jinmei", c.g.pick({"N", "F", ""}));
          c.thrown = false;
          c.words = {s, j ? "not marked as 'Joyo'" : "marked as 'Jinmei'"};
        }},
    {"printed: linked jinmei without link",
        [](Case& c) {
          V names;
          for (auto& i : c.d.linked)
            if (!dict::hasVS(i.second)) names.push_back(i.second);
          if (names.empty()) throw pbt::Discard{};
          const S s{c.g.pick(names)};
          const auto r{someRow(c.g, c.ucd, [&](auto i) { return cell(c.ucd, i, "Name") == s; })};
          for (auto i : {"LinkCodes", "LinkNames", "LinkType"}) set(c.ucd, r, i, "");
          c.thrown = false;
          c.words = {s, "missing 'JinmeiLink'"};
        }},
};

// views of whatever was loaded agree with each other
void consistent(const KanjiData& data, bool errors) {
  std::set<const Kanji*> inMap;
  for (auto& i : data.nameMap()) {
    PBT_CHECK(i.second && i.second->name() == i.first, "entry ", i.first);
    auto& k{*i.second};
    PBT_CHECK(inMap.insert(&k).second, "same Kanji twice: ", i.first);
    PBT_CHECK(k.type() != KanjiTypes::None, i.first);
    PBT_CHECK(k.radical().number() >= 1 && k.radical().number() <= Radical::MaxRadicals, i.first);
    PBT_CHECK(k.strokes().value() >= 1 && k.strokes().value() <= Strokes::Max, i.first);
    const auto j{data.findByName(i.first)};
    PBT_CHECK(j, "not found: ", i.first);
    PBT_CHECK(!k.info().empty() && !k.qualifiedName().empty(), i.first);
    PBT_CHECK(!(k.newName() && !k.oldNames().empty()), "old and new: ", i.first);
  }
  if (errors) return; // lists can contain what wasn't inserted
  std::set<const Kanji*> inTypes;
  for (auto t : AllKanjiTypes)
    for (auto& i : data.types()[t]) {
      PBT_CHECK(inTypes.insert(i.get()).second, "in two types: ", i->name());
      PBT_CHECK(inMap.contains(i.get()), "not in map: ", i->name());
      PBT_CHECK(i->is(t), i->name());
    }
  PBT_EQ(inTypes.size(), inMap.size(), "Kanji in types");
  size_t graded{};
  for (auto t : AllKanjiGrades) graded += data.grades()[t].size();
  PBT_EQ(graded, data.types()[KanjiTypes::Jouyou].size(), "graded Kanji");
}

S showErr(const S& e) { return e.empty() ? "(nothing)" : e; }

} // namespace

PBT_SUB(faults, 9000, 150000) {
  auto& g{c.g};
  const auto& fault{Faults[g.below(static_cast<uint32_t>(Faults.size()))]};
  dict::Maker maker{g};
  auto d{maker.make(g.chance(1, 3) ? dict::Options{20, 10, 10, 15} : dict::Options{})};
  auto f{dict::files(d)};
  Case x{g, d, f, {}, {}};
  fault.inject(x);
  c.describe(S{fault.name} + "\n" + dict::describe(f));
  bool thrown{};
  S msg;
  try {
    dict::write(f, dict::dataDir());
    dict::Loaded l{!x.onlyOptions ? dict::Loaded{x.options} : dict::Loaded{false, x.options}};
    msg = l.err.str();
    consistent(*l, !msg.empty());
    if (!x.thrown) {
      // each line is an error; what isn't concerned is as it would be without
      for (auto& i : lines(msg)) PBT_CHECK(i.starts_with("ERROR["), "line '", i, "' in: ", msg);
      const auto m{dict::model(d)};
      V expected, actual;
      for (auto& i : m.all) expected.push_back(i.first);
      for (auto& i : l->nameMap()) actual.push_back(i.first);
      if (S{fault.name} != "printed: not in ucd") PBT_EQ(actual, expected, "names after: ", fault.name);
      if (S{fault.name} == "printed: same Kanji twice")
        for (auto& i : m.all) {
          const auto& k{*l->findByName(i.first)};
          PBT_EQ(toString(k.type()), dict::TypeNames[i.second.type], "type of ", i.first);
          PBT_EQ(k.reading(), i.second.reading, "reading of ", i.first);
          PBT_EQ(k.meaning(), i.second.meaning, "meaning of ", i.first);
          if (i.second.extraInfo) PBT_EQ(k.extraTypeInfo().value_or("-"), *i.second.extraInfo, i.first);
        }
    }
  } catch (const pbt::Failure&) {
    throw;
  } catch (const std::exception& e) {
    thrown = true;
    msg = e.what();
  }
  PBT_CHECK(thrown == x.thrown, fault.name, ": ", thrown ? "ended with " : "no error, printed ", showErr(msg));
  for (auto& i : x.words)
    PBT_CHECK(msg.find(i) != S::npos, fault.name, ": message '", msg, "' doesn't contain '", i, "'");
  PBT_CHECK(!msg.empty(), fault.name, ": empty message");
  // the directory is fine again without the fault
  if (g.chance(1, 4)) {
    auto good{dict::files(d)};
    bool again{};
    try {
      dict::write(f, dict::dataDir());
      if (x.onlyOptions)
        dict::Loaded{false, x.options};
      else
        dict::Loaded{x.options};
    } catch (const std::exception& e) {
      again = true;
      PBT_EQ(S{e.what()}, msg, "second attempt");
    }
    PBT_EQ(again, thrown, "second attempt");
  }
  S all;
  for (auto& i : f) all += i.second;
  c.nontrivial(fault.name + all);
  c.label(fault.name);
}

// random edits: an error or consistent data, nothing else
PBT_SUB(edits, 5000, 100000) {
  auto& g{c.g};
  dict::Maker maker{g};
  auto d{maker.make()};
  auto f{dict::files(d)};
  V names;
  for (auto& i : f)
    if (!i.second.empty() && !i.first.starts_with("jukugo") && i.first.find("group") == S::npos)
      names.push_back(i.first);
  S what;
  for (auto n{1 + g.below(3)}; n; --n) {
    const S name{g.pick(names)};
    auto& s{f[name]};
    auto l{lines(s)};
    if (l.empty()) continue;
    auto& line{l[g.below(static_cast<uint32_t>(l.size()))]};
    what += name + " ";
    switch (g.below(8)) {
    case 0: { // replace a field by another or by something odd
      auto v{cells(line)};
      auto& x{g.pick(l)};
      auto w{cells(x)};
      const S y{g.boolean() ? g.pick(w) : S{g.pick({"0", "1", "64", "65535", "", "一", "あ", "Y", "Jinmei", ","})}};
      v[g.below(static_cast<uint32_t>(v.size()))] = y;
      line = dict::join(v, "\t");
      s = unlines(l);
      break;
    }
    case 1: // swap two lines
      std::swap(line, l[g.below(static_cast<uint32_t>(l.size()))]);
      s = unlines(l);
      break;
    case 2: // copy a line
      l.push_back(line);
      s = unlines(l);
      break;
    case 3: // remove a line
      line.clear();
      std::erase(l, S{});
      s = unlines(l);
      break;
    case 4: // truncate
      s.resize(g.below(static_cast<uint32_t>(s.size()) + 1));
      break;
    case 5: // change a byte
      if (!s.empty()) s[g.below(static_cast<uint32_t>(s.size()))] = static_cast<char>(g.below(256));
      break;
    case 6: { // insert bytes
      S x;
      for (auto k{1 + g.below(4)}; k; --k) x += static_cast<char>(g.boolean() ? g.below(256) : g.pick({'\t', '\n', ' ', '\r', ','}));
      s.insert(g.below(static_cast<uint32_t>(s.size()) + 1), x);
      break;
    }
    default: { // move an entry of a list somewhere else
      auto& other{f[g.pick(names)]};
      auto o{lines(other)};
      if (o.empty()) break;
      const S y{g.pick(o)};
      l.insert(l.begin() + g.below(static_cast<uint32_t>(l.size()) + 1), y);
      s = unlines(l);
    }
    }
  }
  c.describe("edited " + what + "\n" + dict::describe(f));
  dict::write(f, dict::dataDir());
  try {
    dict::Loaded l;
    c.label(l.err.str().empty() ? "loaded" : "loaded with printed errors");
    consistent(*l, !l.err.str().empty());
  } catch (const pbt::Failure&) {
    throw;
  } catch (const std::exception& e) {
    PBT_CHECK(!S{e.what()}.empty(), "empty message");
    c.label("rejected");
  }
  S all;
  for (auto& i : f) all += i.second;
  c.nontrivial(all);
}

// an official variant links to an official Kanji: an old form to a Jouyou, a
// Jinmei variant to a Jouyou or Jinmei; nothing else can be created
PBT_SUB(linked, 1500, 20000) {
  auto& g{c.g};
  dict::Maker maker{g};
  const auto d{maker.make(g.chance(1, 3) ? dict::Options{20, 10, 10, 15} : dict::Options{})};
  const auto f{dict::files(d)};
  dict::Loaded l{f};
  if (l->nameMap().empty()) throw pbt::Discard{};
  S seen;
  for (int n{}; n < 12; ++n) {
    const auto& link{g.pick(l->nameMap()).second};
    // most names have a Unicode record, a name without one can't be created
    const S name{g.chance(1, 10) ? NotLoaded : g.pick(l->nameMap()).first};
    const auto old{g.boolean()}, known{name != NotLoaded};
    const auto t{link->type()};
    const auto allowed{t == KanjiTypes::Jouyou || (!old && t == KanjiTypes::Jinmei)};
    c.describe((old ? "old form " : "Jinmei variant ") + name + " of " + link->name() + " (" + toString(t) + ")");
    S msg;
    std::shared_ptr<Kanji> k;
    try {
      if (old)
        k = std::make_shared<LinkedOldKanji>(*l, name, link);
      else
        k = std::make_shared<LinkedJinmeiKanji>(*l, name, link);
    } catch (const DomainError& e) {
      msg = e.what();
      PBT_CHECK(!msg.empty(), "empty message");
    }
    PBT_EQ(k != nullptr, allowed && known, "created, message: ", msg);
    if (!allowed) {
      for (auto& i : {name, link->name(), toString(t)})
        PBT_CHECK(msg.find(i) != S::npos, "message '", msg, "' doesn't contain '", i, "'");
    }
    if (k) {
      PBT_EQ(k->name(), name, "name");
      PBT_CHECK(k->is(old ? KanjiTypes::LinkedOld : KanjiTypes::LinkedJinmei), "type");
      PBT_CHECK(k->link() == link, "link");
      PBT_EQ(k->newName().value_or("none"), link->name(), "new name");
      PBT_EQ(k->reading(), link->reading(), "reading");
      PBT_EQ(k->meaning(), link->meaning(), "meaning");
      PBT_CHECK(k->linkedReadings() && k->oldNames().empty(), "linked readings, old names");
    }
    seen += toString(t) + (old ? "o" : "j") + name + link->name();
    c.label(S{old ? "old " : "variant "} + (allowed ? "allowed" : "refused"));
  }
  c.nontrivial(seen);
}
