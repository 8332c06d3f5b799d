// libs: stats kanji
#include "furigana.h"
#include "kload.h"

#include <kt_stats/Stats.h>
#include <kt_utils/Exception.h>
#include <kt_utils/UnicodeBlock.h>

#include <algorithm>
#include <cstdio>
#include <fstream>
#include <tuple>

using namespace kanji_tools;
using dict::S, dict::V;
namespace fs = std::filesystem;

const pbt::Info pbt::info{"P24",
    "generated file trees (Kanji of every type with repeated counts, kana, "
    "furigana, symbols, selectors, malformed bytes) and argument lists, "
    "reported with the shipped and with generated Kanji data and compared with "
    "a report made from a separate count; non-trivial = at least two types of "
    "Kanji and two Kanji with the same count, distinct by files and arguments"};

namespace {

struct Node {
  bool dir{};
  S name, content;
  std::vector<Node> children;
};

void make(const Node& n, const fs::path& at) {
  if (n.dir) {
    fs::create_directory(at / n.name);
    for (auto& i : n.children) make(i, at / n.name);
  } else
    std::ofstream{at / n.name} << n.content;
}

S show(const Node& n) {
  if (!n.dir) return pbt::show(n.name) + "=" + pbt::show(n.content);
  S r{pbt::show(n.name) + "{"};
  for (auto& i : n.children) r += show(i) + " ";
  return r + "}";
}

// classes of characters
bool isOne(const S& s, const ref::Ranges& r) { // selectors don't matter
  const auto c{ref::decode(s)};
  return !c.empty() && ref::in(c[0], r);
}

struct Category {
  S name;
  bool removeReadings, kanji;
  std::function<bool(const S&)> has;
};

struct Entry {
  size_t count;
  S name;
  KanjiPtr kanji;
  [[nodiscard]] S type() const { return kanji ? toString(kanji->type()) : "None"; }
  [[nodiscard]] auto key() const {
    const auto t{static_cast<size_t>(std::find(dict::TypeNames.begin(), dict::TypeNames.end(), type()) - dict::TypeNames.begin())};
    const auto f{!kanji ? 100001U : kanji->frequency() ? unsigned{kanji->frequency()} : 100000U};
    return std::tuple{-static_cast<int64_t>(count), f, t, name};
  }
};

S squeeze(const S& s) {
  S r;
  for (auto c : s)
    if (c != ' ' || (!r.empty() && r.back() != ' ')) r += c;
  while (!r.empty() && r.back() == ' ') r.pop_back();
  return r;
}

S percent(size_t a, size_t b, int digits) {
  char x[40];
  std::snprintf(x, sizeof x, "%.*f", digits, static_cast<double>(a) * 100. / static_cast<double>(b));
  return x;
}

struct Report {
  const KanjiData& data;
  bool breakdown{}, verbose{};
  // results
  V lines{};
  size_t replaced{};
  bool exact{true}; // number of replaced lines is known
  bool types2{}, ties{};

  void count(const Node& n, ref::Counter& c, bool remove, bool countName = true) {
    if (n.dir)
      for (auto& i : n.children) count(i, c, remove);
    else if (remove) {
      const auto s{furi::codes(n.content)};
      const auto r{furi::removeReadings(s, 1)};
      exact &= !furi::joins(s) || !r.readings;
      replaced += r.lines.size();
      c.addLines(furi::bytes(r.text), n.name);
    } else
      c.addLines(n.content, n.name);
    if (!countName) return;
    if (remove) {
      const auto r{furi::removeReadings(furi::codes(n.name), 0)};
      replaced += r.readings != 0;
      c.add(furi::bytes(r.text), n.name);
    } else
      c.add(n.name, n.name);
  }

  static std::pair<size_t, size_t> sizes(const Node& n) { // files, directories
    if (!n.dir) return {1, 0};
    std::pair<size_t, size_t> r{0, 1};
    for (auto& i : n.children) {
      const auto [f, d]{sizes(i)};
      r.first += f;
      r.second += d;
    }
    return r;
  }

  void run(const Node& top, bool slash) {
    static const ref::Ranges space{{0x3000, 0x3000}};
    const auto recognized{[](const S& s) {
      for (auto i : {&ref::Hiragana, &ref::Katakana, &ref::CommonKanji, &ref::RareKanji, &ref::Punctuation, &ref::Symbol, &ref::Letter})
        if (isOne(s, *i)) return true;
      return false;
    }};
    const auto ucd{[this](const S& s) { return data.findUcd(s) != nullptr; }};
    const std::vector<Category> categories{
        {"Hiragana", true, false, [](auto& s) { return isOne(s, ref::Hiragana); }},
        {"Katakana", true, false, [](auto& s) { return isOne(s, ref::Katakana); }},
        {"Common Kanji", false, true, [&](auto& s) { return isOne(s, ref::CommonKanji) && ucd(s); }},
        {"Rare Kanji", false, true, [&](auto& s) { return isOne(s, ref::RareKanji) && ucd(s); }},
        {"Non-UCD Kanji", false, true, [&](auto& s) { return (isOne(s, ref::CommonKanji) || isOne(s, ref::RareKanji)) && !ucd(s); }},
        {"MB-Punctuation", false, false, [](auto& s) { return isOne(s, ref::Punctuation) && !isOne(s, space); }},
        {"MB-Symbol", false, false, [](auto& s) { return isOne(s, ref::Symbol); }},
        {"MB-Letter", true, false, [](auto& s) { return isOne(s, ref::Letter); }},
        {"Unrecognized", false, false, [&](auto& s) { return !recognized(s); }}};
    size_t total{}, totalKanji{};

    for (size_t n{}; auto& i : categories) {
      ref::Counter c;
      c.allow = i.has;
      const auto before{replaced};
      count(top, c, i.removeReadings, !slash);
      if (!n) {
        const auto [files, dirs]{sizes(top)};
        auto s{">>> Stats for: '" + top.name + '\''};
        if (files > 1) s += " (" + std::to_string(files) + " files" + (dirs > 1 ? " from " + std::to_string(dirs) + " directories)" : ")");
        lines.push_back(s + " - showing top 5 Kanji per type");
        S e{c.errors ? ", Errors: " + std::to_string(c.errors) : S{}};
        if (replaced - before || c.marks || c.variants || !exact)
          lines.push_back(">>> Furigana Removed: " + std::to_string(replaced - before) + ", Combining Marks Replaced: " + std::to_string(c.marks) + ", Variation Selectors: " + std::to_string(c.variants) + e);
        else
          lines.back() += e;
      } else
        replaced = before;
      std::vector<Entry> entries;
      size_t sum{};
      for (auto& j : c.chars) {
        sum += j.second;
        entries.push_back({j.second, j.first, i.kanji ? data.findByName(j.first) : nullptr});
      }
      std::sort(entries.begin(), entries.end(), [](auto& a, auto& b) { return a.key() < b.key(); });
      if (n < 5) {
        total += sum;
        if (i.kanji) totalKanji += sum;
      }
      ++n;
      if (!sum) continue;
      const auto head{[](const S& name, size_t t, size_t u) {
        return ">>> " + name + ": " + std::to_string(t) + ", unique: " + std::to_string(u);
      }};
      const auto examples{[](const std::vector<Entry>& e) {
        S r;
        for (size_t k{}; k < e.size() && k < 5; ++k) r += (k ? ", " : "(") + e[k].name + ' ' + std::to_string(e[k].count);
        return r + ")";
      }};
      lines.push_back(head(i.name, sum, entries.size()));
      if (i.name == "Common Kanji") {
        lines.back() += ", 100.00%";
        auto types{dict::TypeNames};
        types.push_back("None");
        size_t found{};
        for (auto& t : types) {
          std::vector<Entry> l;
          size_t typeSum{};
          for (auto& k : entries)
            if (k.type() == t) {
              if (!l.empty() && l.back().count == k.count) ties = true;
              l.push_back(k);
              typeSum += k.count;
            }
          if (l.empty()) continue;
          types2 = ++found > 1;
          lines.push_back(head("[" + t + "] ", typeSum, l.size()) + ", " + percent(typeSum, sum, 2) + "% " + examples(l));
        }
      } else if (i.kanji)
        lines.back() += " " + examples(entries);
      if (i.name == "Unrecognized" || (i.kanji && breakdown)) {
        lines.push_back(">>> Showing Breakdown for '" + i.name + "':");
        lines.push_back(S{"Rank [Val Num]"} + (i.kanji && i.name != "Non-UCD Kanji" ? " Freq, LV, Type" : ", Unicode, Highest Count File"));
        for (size_t rank{}; auto& k : entries) {
          S s;
          if (breakdown) s += std::to_string(++rank) + " ";
          s += "[" + k.name + ' ' + std::to_string(k.count) + "]";
          if (k.kanji)
            s += " " + std::to_string(k.kanji->frequency()) + ", " +
                 (k.kanji->hasLevel() ? toString(k.kanji->level()) : "--") + ", " + k.type();
          else {
            s += ", U+";
            for (bool first{true}; auto x : ref::decode(k.name)) {
              s += (first ? "" : " ") + dict::hex(x);
              first = false;
            }
            S file;
            size_t max{};
            for (auto& t : c.tags[k.name])
              if (t.second > max) {
                max = t.second;
                file = t.first;
              }
            s += ", " + file;
          }
          lines.push_back(s);
        }
      }

    }
    // totals
    auto s{">>> Total Kana+Kanji: " + std::to_string(total)};
    if (total) {
      s += " (";
      for (size_t n{}; n < 2; ++n) {
        ref::Counter c;
        c.allow = categories[n].has;
        const auto before{replaced};
        count(top, c, true, !slash);
        replaced = before;
        size_t sum{};
        for (auto& j : c.chars) sum += j.second;
        if (sum) s += categories[n].name + ": " + percent(sum, total, 1) + "%, ";
      }
      s += "Kanji: " + percent(totalKanji, total, 1) + "%)";
    }
    lines.push_back(s);
  }
};

// ---- generation

struct Source {
  V kanji, others; // Kanji by type, other characters
};

S text(pbt::Gen& g, const std::vector<V>& byType, uint32_t n) {
  V pool; // few different Kanji, so that counts are often equal
  for (auto k{1 + g.below(12)}; k; --k) pool.push_back(g.pick(g.pick(byType)));
  S r;
  const auto add{[&r](const S& s) { r += s; }};
  for (auto k{g.longSize(n)}; k; --k) switch (g.weighted({10, 5, 2, 1, 2, 2, 2, 1, 1, 1})) {
    case 0: add(g.pick(pool)); break;
    case 1: add(ref::enc((g.boolean() ? 0x3041 : 0x30a1) + g.below(0x50))); break;
    case 2: add(g.pick({"。", "、", "　", "「", "℃", "→", "Ａ", "é", "①", "ё", "한", "😀", "か゚"})); break;
    case 3: add(ref::enc(gen::anyCode(g))); break;
    case 4: add(g.pick({"\n", " ", "a", "\n\n", "\r\n"})); break;
    case 5: { // furigana
      add(g.pick(pool) + "（");
      for (auto x{1 + g.below(4)}; x; --x) add(ref::enc((g.boolean() ? 0x3041 : 0x30a1) + g.below(0x50)));
      add("）");
      break;
    }
    case 6: {
      const auto s{furi::other(g)};
      if (s.find_first_of(S{"\0", 1}) == S::npos && s != "（" && s != "）") add(s);
      break;
    }
    case 7: add(ref::enc(0xfe00 + g.below(3))); break;
    case 8: add(g.pick({"か\xe3\x82\x99", "\xe3\x82\x9a", "は\xe3\x82\x9a"})); break;
    default: add(gen::badPiece(g));
    }
  // a bracket next to a bracket, and marks at the start of what is left of a
  // line after a reading is removed, are decided elsewhere (P23)
  furi::Codes out;
  for (auto x : furi::codes(r)) {
    auto last{out.size()};
    while (last && out[last - 1] == '\n') --last;
    const auto bracket{[](char32_t c) { return c == furi::Open || c == furi::Close; }};
    if (!x || (last && bracket(x) && bracket(out[last - 1]))) continue;
    if (ref::isNonSpacing(x) && (out.empty() || out.back() == '\n' || bracket(out.back()))) continue;
    if (!out.empty() && out.back() == '\n' && x >= furi::Bad + 0x80 && x < furi::Bad + 0xc0) continue;
    out += x;
  }
  return furi::bytes(out);
}

Node tree(pbt::Gen& g, const std::vector<V>& byType, uint32_t depth) {
  Node n;
  n.name = g.pick({"a", "b", "漢字.txt", "かな", "漢（かん）字", "x.txt", "ア", "𠮷", "ё"});
  if (depth && g.chance(2, 3)) {
    n.dir = true;
    for (auto k{g.below(5)}; k; --k) {
      auto x{tree(g, byType, depth - 1)};
      if (std::none_of(n.children.begin(), n.children.end(), [&](auto& i) { return i.name == x.name; })) n.children.push_back(x);
    }
  } else
    n.content = text(g, byType, 80);
  return n;
}

const V HelpLines{"kanjiStats [-bhv] file [file ...]:",
    "-b: show full Kanji breakdown for 'file' (instead of just a summary)",
    "-h: show help message for command-line options",
    "-v: show 'before' and 'after' versions of lines changed by Furigana removal"};

void run(pbt::Ctx& c, const KanjiDataPtr& data, std::ostringstream& out, const std::vector<V>& byType, const S& extra) {
  auto& g{c.g};
  out.str({});
  const fs::path dir{fs::path(pbt::scratch()) / "stats"};
  fs::remove_all(dir);
  fs::create_directory(dir);
  std::vector<Node> roots;
  S d{extra};
  for (auto k{g.chance(1, 20) ? 0U : 1 + g.below(3) * g.below(2)}; k; --k) {
    auto n{tree(g, byType, g.below(3))};
    if (std::any_of(roots.begin(), roots.end(), [&](auto& i) { return i.name == n.name; })) continue;
    make(n, dir);
    d += show(n) + "\n";
    roots.push_back(n);
  }
  // arguments
  V args;
  for (auto& i : roots) args.push_back((dir / i.name).string() + (i.dir && g.chance(1, 8) ? "/" : ""));
  if (!args.empty() && g.chance(1, 5)) args.insert(args.begin() + g.below(static_cast<uint32_t>(args.size() + 1)), S{g.pick(args)}); // the same again
  const auto insert{[&](const V& v) {
    args.insert(args.begin() + g.below(static_cast<uint32_t>(args.size() + 1)), v.begin(), v.end());
  }};
  if (g.boolean()) insert({"-b"});
  if (g.chance(1, 3)) insert({"-v"});
  if (g.chance(1, 10)) insert({g.pick({"-b", "-v", "--"})});
  if (g.chance(1, 20)) insert({"-h"});
  if (g.chance(1, 20)) insert({g.pick({"-", "-x", "-bv", "--help", "-B", "-b ", "-data1"})});
  if (g.chance(1, 20)) insert({g.pick({S{}, (dir / "missing").string(), S{"b"}})});
  if (g.chance(1, 10)) args.insert(args.begin(), {"-data", "anything"}); // used (and skipped) when loading
  for (auto& i : args) d += "'" + i + "' ";
  c.describe(d);
  // model of the arguments
  V lines;
  Report r{*data};
  std::vector<std::pair<const Node*, bool>> reports;
  S error;
  {
    bool end{}, help{};
    V files;
    for (size_t i{args.size() > 1 && args[0] == "-data" ? 2U : 0U}; i < args.size() && error.empty() && !help; ++i)
      if (auto& a{args[i]}; !end && a.starts_with("-")) {
        if (a == "-h")
          help = true;
        else if (a == "-b")
          r.breakdown = true;
        else if (a == "-v")
          r.verbose = true;
        else if (a == "--")
          end = true;
        else
          error = "illegal option '" + a + "' use -h for help";
      } else
        files.push_back(a);
    if (help)
      lines = HelpLines;
    else if (error.empty()) {
      if (files.empty()) error = "please specify at least one option or '-h' for help";
      for (auto& i : files) {
        const Node* n{};
        for (auto& k : roots)
          if (auto p{(dir / k.name).string()}; i == p || i == p + "/") n = &k;
        if (!n) {
          error = "file not found: " + i;
          break;
        }
        reports.emplace_back(n, i.ends_with("/"));
      }
    }
  }
  // run
  std::vector<const char*> argv{"prog"};
  for (auto& i : args) argv.push_back(i.c_str());
  S msg;
  try {
    Stats{Args{static_cast<Args::Size>(argv.size()), argv.data()}, data};
  } catch (const DomainError& e) {
    msg = e.what();
  }
  PBT_EQ(msg, error, "error");
  // compare
  const auto actual{dict::split(out.str().substr(0, out.str().size() - !out.str().empty()), '\n')};
  size_t at{};
  const auto next{[&]() -> S {
    PBT_CHECK(at < actual.size() && !out.str().empty(), "output ends early: ", out.str());
    return actual[at++];
  }};
  for (auto& i : lines) PBT_EQ(squeeze(next()), i, "");
  for (auto& [node, slash] : reports) {
    Report rep{*data, r.breakdown, r.verbose};
    rep.run(*node, slash);
    size_t changed{};
    if (r.verbose) {
      PBT_EQ(next(), ">>> Showing all Furigana replacements:", "");
      S tag;
      while (at < actual.size() && !actual[at].starts_with(">>> Stats for: '")) {
        auto line{next()};
        if (line.starts_with("Tag '")) {
          PBT_CHECK(line != tag, "repeated ", line);
          tag = line;
          continue;
        }
        PBT_CHECK(!tag.empty(), "no tag before: ", line);
        const auto start{"  " + std::to_string(++changed) + " : "};
        PBT_CHECK(line.starts_with(start), "line '", line, "' doesn't start with '", start, "'");
        const auto before{line.substr(start.size())};
        line = next();
        const auto indent{S(start.size() - 2, ' ') + ": "};
        PBT_CHECK(line.starts_with(indent), "line '", line, "' isn't indented by ", indent.size());
        const auto x{furi::removeReadings(furi::codes(before), 0)};
        PBT_CHECK(x.readings, "not changed: ", pbt::show(before));
        PBT_EQ(line.substr(indent.size()), furi::bytes(x.text), pbt::show(before));
      }
    }
    for (size_t n{}; n < rep.lines.size(); ++n) {
      const auto line{squeeze(next())};
      const auto& e{rep.lines[n]};
      static const S removed{">>> Furigana Removed: "};
      if (n == 1 && line.starts_with(removed) && e.starts_with(removed)) {
        const auto count{std::stoul(line.substr(removed.size()))};
        if (r.verbose) PBT_EQ(changed, count, "changed lines in verbose output");
        if (!rep.exact) {
          PBT_CHECK(count > 0, line);
          PBT_EQ(line.substr(line.find(',')), e.substr(e.find(',')), "header of ", out.str());
          continue;
        }
      }
      PBT_EQ(line, squeeze(e), "line ", at, " of ", out.str());
    }
    if (rep.types2 && rep.ties) c.nontrivial(d);
    if (!rep.exact) c.label("joined lines");
  }
  PBT_CHECK(out.str().empty() || at == actual.size(), "more output than expected: ", out.str());
  if (!error.empty()) c.label("error");
}

dict::Loaded* shipped;
std::vector<V> shippedTypes;

std::vector<V> kanjiByType(const KanjiData& data) {
  std::vector<V> r;
  for (auto t : AllKanjiTypes)
    if (t != KanjiTypes::None && !data.types()[t].empty()) {
      r.push_back(dict::names(data.types()[t]));
      V compat;
      for (auto& i : data.types()[t])
        if (i->compatibilityName() != i->name()) compat.push_back(i->compatibilityName());
      if (!compat.empty()) r.push_back(compat);
    }
  return r;
}

const pbt::InitHook hook{[] {
  shipped = new dict::Loaded{dict::files(dict::shipped("/repo/data"))};
  shippedTypes = kanjiByType(**shipped);
}};

} // namespace

PBT_SUB(shipped_data, 5000, 100000) { run(c, shipped->data, shipped->out, shippedTypes, {}); }

PBT_SUB(generated_data, 1500, 40000) {
  dict::Maker m{c.g};
  dict::Options o;
  o.maxJouyou = 8;
  const auto d{m.make(o)};
  const auto f{dict::files(d)};
  dict::Loaded l{f};
  const auto types{kanjiByType(*l)};
  if (types.empty()) throw pbt::Discard{};
  run(c, l.data, l.out, types, dict::describe(f));
}

// order of entries: all pairs and triples
PBT_SUB(ranking, 60000, 1000000) {
  auto& g{c.g};
  std::vector<std::pair<Stats::Count, Entry>> v;
  S d;
  for (auto n{2 + g.below(8)}; n; --n) {
    Entry e{1 + g.below(3), g.pick(g.pick(shippedTypes)), nullptr};
    if (g.chance(3, 4))
      e.kanji = shipped->data->findByName(e.name);
    else
      e.name = ref::enc(0x4e00 + g.below(4));
    v.emplace_back(Stats::Count{e.count, e.name, e.kanji}, e);
    d += e.name + std::to_string(e.count) + (e.kanji ? " " : "? ");
  }
  c.describe(d);
  size_t equal{};
  for (auto& a : v)
    for (auto& b : v) {
      PBT_EQ(a.first < b.first, a.second.key() < b.second.key(), a.second.name, a.second.count, " < ", b.second.name, b.second.count);
      equal += &a != &b && a.second.count == b.second.count;
    }
  if (equal) c.nontrivial(d);
}
