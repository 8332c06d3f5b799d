// libs: kana
// apps: convertMain
#include "capture.h"
#include "kana_ref.h"

#include <kt_kana/KanaConvert.h>

#include <algorithm>
#include <fcntl.h>
#include <map>
#include <optional>
#include <unistd.h>

int app_main_convertMain(int, const char**);

using namespace kanji_tools;

const pbt::Info pbt::info{"P09",
    "whole runs of the conversion program: argument lists mixing options, flag "
    "values, conflicting and unknown options and strings; piped text; "
    "interactive sessions mixing commands, flag prompts, bad options and text, "
    "compared with a model that tracks the named options only; non-trivial = "
    "at least one option and one text that is changed by conversion, distinct "
    "by arguments and input"};

static const pbt::InitHook hook{[] {
  // standard input must not be a terminal
  const auto fd{open("/dev/null", O_RDONLY)};
  dup2(fd, 0);
  close(fd);
}};

namespace {

using enum CharType;

const std::string Usage1{R"(usage: kanaConvert -i
       kanaConvert [-n] string ...
       kanaConvert -m|-p|-?
)"};

struct Model {
  std::optional<CharType> source;
  CharType target{Hiragana};
  unsigned flags{};
  bool interactive{}, noNewLine{};
  bool changed{};

  std::string convert(const std::string& s) {
    const Converter c{target, static_cast<ConvertFlags>(flags)};
    auto r{source ? c.convert(*source, s) : c.convert(s)};
    if (r != s) changed = true;
    return r;
  }

  static const char* name(CharType t) {
    return t == Hiragana ? "Hiragana" : t == Katakana ? "Katakana" : "Romaji";
  }

  std::string options() const {
    std::string f;
    const char* names[]{"Hepburn", "Kunrei", "NoProlongMark", "RemoveSpaces"};
    for (int i{}; i < 4; ++i)
      if (flags & 1U << i) (f += f.empty() ? "" : "|") += names[i];
    if (f.empty()) f = "None";
    return std::string{">>> current options: source="} +
           (source ? name(*source) : "any") + ", target=" + name(target) +
           ", flags=" + f +
           "\n>>> enter string (c=clear flags, f=set flag, q=quit, h=help, "
           "-k|-h|-r|-K|-H|-R):\n";
  }

  bool type(const std::string& a) {
    if (a == "-h")
      target = Hiragana;
    else if (a == "-k")
      target = Katakana;
    else if (a == "-r")
      target = Romaji;
    else if (a == "-H")
      source = Hiragana;
    else if (a == "-K")
      source = Katakana;
    else if (a == "-R")
      source = Romaji;
    else
      return false;
    return true;
  }

  bool flag(const std::string& a) {
    const auto i{std::string{"hknr"}.find(a)};
    if (a.size() != 1 || i == std::string::npos) return false;
    flags |= 1U << i;
    return true;
  }

  enum class Kind { Error, Usage, Chart, Markdown, Text };
  struct Outcome {
    Kind kind;
    std::string text; // exact message or output
  };

  Outcome runArgs(const std::vector<std::string>& args, bool piped,
      const std::vector<std::string>& lines) {
    std::vector<std::string> strings;
    bool chart{}, md{};
    for (size_t i{}; i < args.size(); ++i) {
      auto& a{args[i]};
      if (a == "--") {
        strings.insert(strings.end(), args.begin() + i + 1, args.end());
        break;
      }
      if (a == "-?") return {Kind::Usage, {}};
      if (a == "-f") {
        if (++i == args.size())
          return {Kind::Error, "-f must be followed by a flag value"};
        if (!flag(args[i]))
          return {Kind::Error, "illegal option for -f: " + args[i]};
      } else if (a == "-i" || a == "-m" || a == "-n" || a == "-p") {
        if (interactive || noNewLine || chart || md)
          return {Kind::Error, "can only specify one of -i, -m, -n, or -p"};
        (a == "-i"       ? interactive
            : a == "-m" ? md
            : a == "-n" ? noNewLine
                        : chart) = true;
      } else if (a[0] == '-') {
        if (!type(a)) return {Kind::Error, "illegal option: " + a};
      } else
        strings.push_back(a);
    }
    if (!strings.empty()) {
      if (interactive || chart || md)
        return {Kind::Error,
            "'string' args can't be combined with '-i', '-m' or '-p'"};
      std::string r;
      for (size_t i{}; i < strings.size(); ++i) {
        if (i && target == Romaji)
          r += ' ';
        else if (i && !(flags & 8))
          r += "　";
        r += convert(strings[i]);
      }
      if (!noNewLine) r += '\n';
      return {Kind::Text, r};
    }
    if (chart || md) return {md ? Kind::Markdown : Kind::Chart, {}};
    if (!piped && !interactive)
      return {Kind::Error,
          "provide one or more 'strings' or '-i' for interactive mode"};
    std::string r;
    if (interactive) r += options();
    for (size_t i{}; i < lines.size(); ++i) {
      auto& l{lines[i]};
      if (l == "q") break;
      if (interactive) {
        if (l.empty()) continue;
        if (l == "c")
          flags = 0;
        else if (l == "f") {
          do {
            r += ">>> enter flag option (h=Hepburn, k=Kunrei, n=NoProlongMark,"
                 " r=RemoveSpaces): ";
            if (++i == lines.size()) // can't continue without an answer
              return {Kind::Error, r};
          } while (!flag(lines[i]));
        } else if (l == "h")
          r += shortUsage();
        else if (l[0] == '-') {
          if (!type(l)) r += "  illegal option: " + l + '\n';
        } else {
          r += convert(l) + '\n';
          continue;
        }
        r += options();
      } else {
        r += convert(l);
        if (!noNewLine) r += '\n';
      }
    }
    return {Kind::Text, r};
  }

  static std::string shortUsage() {
    return R"(  -h: set conversion output to Hiragana
  -k: set conversion output to Katakana
  -r: set conversion output to Rōmaji
  -H: restrict conversion input to Hiragana
  -K: restrict conversion input to Katakana
  -R: restrict conversion input to Rōmaji
)";
  }
};

std::string text(pbt::Gen& g) {
  switch (g.below(8)) {
  case 0: return gen::kanaText(g, false, 5);
  case 1: return gen::kanaText(g, true, 5);
  case 2:
  case 3: return gen::romajiText(g, 5, true);
  case 4: return gen::kanaText(g, g.boolean(), 3) + " " + gen::romajiText(g, 3, false);
  case 5:
    return gen::romajiText(g, 2, false) + g.pick({" ", "　", "-", "q", "漢字"}) +
           gen::kanaText(g, g.boolean(), 2);
  case 6: {
    auto s{gen::validText(g, 6)};
    for (auto& i : s)
      if (!i || i == '\n') i = '.';
    return s;
  }
  default: return g.boolean() ? "" : g.dictString().substr(0, 12);
  }
}

std::string clean(std::string s) {
  for (auto& i : s)
    if (!i || i == '\n') i = '.';
  return s;
}

std::vector<std::string> arguments(pbt::Gen& g, bool strings) {
  std::vector<std::string> r;
  for (auto n{g.longSize(6)}; n; --n) switch (g.weighted({8, 6, 1, strings ? 2U : 1U, 1})) {
    case 0:
      r.emplace_back(g.pick({"-h", "-k", "-r", "-H", "-K", "-R"}));
      break;
    case 1:
      r.emplace_back("-f");
      r.emplace_back(g.chance(1, 20) ? clean(text(g)) : g.pick({"h", "k", "n", "r"}));
      break;
    case 2:
      r.emplace_back(g.pick({"-i", "-m", "-n", "-p", "-n", "-?", "--"}));
      break;
    case 3:
      if (strings)
        for (auto k{g.below(3) + 1}; k; --k) r.push_back(clean(text(g)));
      break;
    default:
      if (g.chance(1, 4))
        r.emplace_back(g.chance(1, 2) ? "-" + clean(text(g)) : g.pick({"-", "-f", "-kk", "-a", "-h-", "-F"}));
    }
  return r;
}

std::string showArgs(const std::vector<std::string>& a) {
  std::string r;
  for (auto& i : a) (r += ' ') += pbt::show(i);
  return r;
}

std::vector<std::string> inputLines(pbt::Gen& g, bool interactive) {
  std::vector<std::string> r;
  for (auto n{g.longSize(10)}; n; --n)
    switch (g.weighted({4, interactive ? 6U : 1U, 1, 1})) {
    case 0: r.push_back(clean(text(g))); break;
    case 1:
      switch (g.below(4)) {
      case 0:
        r.emplace_back(g.pick({"-h", "-k", "-r", "-H", "-K", "-R"}));
        break;
      case 1:
        r.emplace_back("f");
        if (g.chance(1, 5)) r.emplace_back(g.pick({"", "x", "hh", "q", "c"}));
        r.emplace_back(g.pick({"h", "k", "n", "r"}));
        break;
      case 2: r.emplace_back("c"); break;
      default: r.emplace_back(g.pick({"h", "", "-", "-x", "-hk", "--", "q "}));
      }
      break;
    case 2:
      r.emplace_back(g.pick({"", "a", "k", "F", "C", "cc", "ff", "n", "r"}));
      break;
    default:
      if (g.chance(1, 8)) r.emplace_back("q");
    }
  return r;
}

std::string join(pbt::Gen& g, const std::vector<std::string>& lines) {
  std::string r;
  for (auto& i : lines) r += i + '\n';
  // last line may be unterminated (an empty one then isn't a line at all)
  if (!lines.empty() && !lines.back().empty() && g.boolean()) r.pop_back();
  return r;
}

void note(pbt::Ctx& c, const Model& m, const std::string& key, bool options) {
  if (m.changed && options) c.nontrivial(key);
}

using Kind = Model::Kind;

void check(const Model::Outcome& e, const run::Result& a, const std::string& s) {
  switch (e.kind) {
  case Kind::Error:
    PBT_CHECK(a.code != 0, "no error reported for", s, "; output: ", a.out);
    if (e.text.starts_with(">>>"))
      PBT_EQ(a.out, e.text, s);
    else {
      PBT_EQ(a.out, "", "output in spite of error;", s);
      PBT_EQ(a.err, e.text + '\n', s);
    }
    break;
  case Kind::Usage:
    PBT_EQ(a.code, 0, s);
    PBT_EQ(a.out.substr(0, Usage1.size()), Usage1, s);
    break;
  case Kind::Chart:
  case Kind::Markdown:
    PBT_EQ(a.code, 0, s);
    PBT_EQ(a.out.substr(0, 10), e.kind == Kind::Chart ? ">>> Notes:" : "**Notes:**", s);
    break;
  case Kind::Text:
    PBT_EQ(a.code, 0, s, " error: ", a.err);
    PBT_EQ(a.out, e.text, s);
    PBT_EQ(a.err, "", s);
  }
}

// run the class with an input stream (as if interactive)
run::Result withStream(const std::vector<std::string>& args, const std::string& in) {
  std::vector<const char*> argv{"kanaConvert"};
  for (auto& i : args) argv.push_back(i.c_str());
  std::ostringstream os;
  std::istringstream is{in};
  run::Result r{};
  try {
    const KanaConvert k{Args{static_cast<int>(argv.size()), argv.data()}, os, &is};
  } catch (const DomainError& e) {
    r.code = 1;
    r.err = e.what() + std::string{"\n"};
  }
  r.out = os.str();
  return r;
}

} // namespace

PBT_SUB(strings, 200000, 3000000) {
  auto args{arguments(c.g, true)};
  if (c.g.boolean()) args.push_back(clean(text(c.g)));
  const auto s{showArgs(args)};
  c.describe("arguments:" + s);
  Model m;
  const auto e{m.runArgs(args, true, {})};
  check(e, run::main(app_main_convertMain, args), s);
  note(c, m, s, args.size() > 1);
}

PBT_SUB(piped, 150000, 2500000) {
  const auto args{arguments(c.g, false)};
  const auto lines{inputLines(c.g, false)};
  const auto in{join(c.g, lines)};
  const auto s{showArgs(args) + " input " + pbt::show(in)};
  c.describe("arguments:" + s);
  Model m;
  // interactive mode with standard input would read choices from a terminal
  if (std::count(args.begin(), args.end(), "-i") &&
      std::count(lines.begin(), lines.end(), "f"))
    throw pbt::Discard{};
  const auto e{m.runArgs(args, true, lines)};
  check(e, run::main(app_main_convertMain, args, in), s);
  note(c, m, s, !args.empty());
}

PBT_SUB(sessions, 200000, 3000000) {
  auto args{arguments(c.g, false)};
  if (c.g.chance(9, 10)) args.insert(args.begin() + c.g.below(args.size() + 1), "-i");
  const auto lines{inputLines(c.g, true)};
  const auto in{join(c.g, lines)};
  const auto s{showArgs(args) + " input " + pbt::show(in)};
  c.describe("arguments:" + s);
  Model m;
  const auto e{m.runArgs(args, false, lines)};
  check(e, withStream(args, in), s);
  note(c, m, s, lines.size() > 1);
}

// the order of options that name different things doesn't matter
PBT_SUB(order, 60000, 1000000) {
  std::vector<std::vector<std::string>> groups;
  if (c.g.boolean()) groups.push_back({c.g.pick({"-h", "-k", "-r"})});
  if (c.g.boolean()) groups.push_back({c.g.pick({"-H", "-K", "-R"})});
  if (c.g.boolean()) groups.push_back({"-n"});
  for (const auto* f : {"h", "k", "n", "r"})
    if (c.g.chance(1, 3)) groups.push_back({"-f", f});
  std::vector<std::string> strings;
  for (auto n{c.g.below(3) + 1}; n; --n) {
    auto t{clean(text(c.g))};
    if (t.starts_with("-")) t = "a" + t;
    strings.push_back(t);
  }
  std::vector<std::string> first, second;
  for (auto& i : groups) first.insert(first.end(), i.begin(), i.end());
  first.insert(first.end(), strings.begin(), strings.end());
  c.g.shuffle(groups);
  // strings stay in order but may be anywhere
  size_t pos{};
  for (auto& i : groups) {
    while (pos < strings.size() && c.g.chance(1, 3)) second.push_back(strings[pos++]);
    second.insert(second.end(), i.begin(), i.end());
  }
  while (pos < strings.size()) second.push_back(strings[pos++]);
  c.describe("arguments:" + showArgs(first) + " /" + showArgs(second));
  const auto a{run::main(app_main_convertMain, first)},
      b{run::main(app_main_convertMain, second)};
  PBT_EQ(a.code, 0, a.err);
  PBT_EQ(b.code, 0, b.err);
  PBT_EQ(b.out, a.out, showArgs(first), " against", showArgs(second));
  if (groups.size() > 1) c.nontrivial(showArgs(second));
}

// the chart shows every kana with its spellings
PBT_ENUM(chart, 2) {
  const bool md{c.g.below(2) == 1};
  const auto r{run::main(app_main_convertMain, {md ? "-m" : "-p"})};
  PBT_EQ(r.code, 0, r.err);
  c.describe(md ? "markdown chart" : "chart");
  std::vector<std::vector<std::string>> rows;
  std::istringstream in{r.out};
  std::string last;
  for (std::string line; std::getline(in, line); last = line)
    if (line.starts_with("| ")) {
      std::vector<std::string> cells;
      std::string cell;
      for (size_t i{1}; i < line.size(); ++i)
        if (line[i] == '|') {
          // NOLINTNEXTLINE
          while (cell.ends_with(' ')) cell.pop_back();
          const auto b{cell.find_first_not_of(' ')};
          cell = b == std::string::npos ? "" : cell.substr(b);
          if (md && cell.size() > 4 && cell.starts_with("**") && cell.ends_with("**"))
            cell = cell.substr(2, cell.size() - 4);
          cells.push_back(cell);
          cell.clear();
        } else
          cell += line[i];
      PBT_EQ(cells.size(), 10, line);
      rows.push_back(cells);
    }
  rows.erase(rows.begin()); // header
  if (md && rows[0][0].starts_with("---")) rows.erase(rows.begin());
  PBT_EQ(rows.size(), kref::Table.size() + 4, "kana and 4 other rows");
  size_t variants{};
  static constexpr std::u32string_view Small{U"ぁぃぅぇぉっゃゅょゎゕゖ"};
  const auto accent{[](char32_t x) {
    // か-ち and て-と are followed by their Dakuten form, は-ほ by both forms
    if (x == U'ゔ') return 'D';
    if (x >= U'か' && x <= U'ぢ') return (x - U'か') % 2 ? 'D' : 'P';
    if (x >= U'つ' && x <= U'ど') return (x - U'つ') % 2 ? 'D' : 'P';
    if (x >= U'は' && x <= U'ぽ') return "PDH"[(x - U'は') % 3];
    return 'P';
  }};
  std::map<char, size_t> counts[2];
  for (auto& k : kref::Table) {
    const auto i{std::find_if(rows.begin(), rows.end(), [&](auto& x) { return x[3] == k.hira; })};
    PBT_CHECK(i != rows.end(), k.hira, " isn't in the chart");
    auto& x{*i};
    PBT_EQ(x[4], kref::toKata(k.hira), k.hira);
    PBT_EQ(x[2], k.romaji, k.hira);
    const auto h{ref::decode(x[3])}, kt{ref::decode(x[4])};
    char buf[16];
    snprintf(buf, sizeof buf, "%04X", static_cast<unsigned>(h[0]));
    PBT_EQ(x[5], h.size() == 1 ? buf : "", k.hira);
    snprintf(buf, sizeof buf, "%04X", static_cast<unsigned>(kt[0]));
    PBT_EQ(x[6], kt.size() == 1 ? buf : "", k.hira);
    for (const unsigned f : {1U, 2U}) {
      const auto s{kref::romaji(k, f)};
      const auto& cell{x[f == 1 ? 7 : 8]};
      if (s == k.romaji)
        PBT_EQ(cell, "", k.hira);
      else
        PBT_EQ(cell, kref::convert(kref::Roma, s, kref::Hira, 0) == k.hira ? s : "(" + s + ")", k.hira);
    }
    std::set<std::string> vars, expected;
    std::istringstream v{x[9]};
    for (std::string w; v >> w;) {
      if (w.ends_with(",")) w.pop_back();
      PBT_CHECK(vars.insert(w).second, w, " listed twice for ", k.hira);
    }
    for (auto& w : k.variants) expected.insert(w);
    PBT_EQ(vars, expected, k.hira);
    variants += vars.size();
    const auto one{h.size() == 1};
    const auto type{accent(h[0])};
    PBT_EQ(x[1], std::string(1, type), k.hira);
    ++counts[one ? 0 : 1][one && Small.find(h[0]) != Small.npos ? 'S' : type];
    c.nontrivial(k.hira);
  }
  for (size_t i{}; i < rows.size(); ++i) {
    PBT_EQ(rows[i][0], std::to_string(i + 1), "row number");
    if (i >= kref::Table.size())
      PBT_EQ(rows[i][1], "N", "type of row ", i + 1);
    else if (i)
      PBT_CHECK(rows[i - 1][3] < rows[i][3], rows[i - 1][3], " is before ", rows[i][3]);
  }
  const auto totals{r.out.substr(std::min(r.out.size(), r.out.find("Totals:")))};
  const auto line{[&](const std::string& name, size_t total, const std::string& rest) {
    const auto at{totals.find(name + ':')};
    PBT_CHECK(at != std::string::npos, "no totals for ", name, totals);
    auto l{totals.substr(at, totals.find('\n', at) - at)};
    std::erase_if(l, [](char ch) { return ch == ' ' || ch == '*'; });
    auto e{name + ':' + std::to_string(total) + '(' + rest};
    std::erase(e, ' ');
    PBT_EQ(l, e, "totals of the chart");
  }};
  const auto sum{[&](int n) { return counts[n]['P'] + counts[n]['D'] + counts[n]['H'] + counts[n]['S']; }};
  const auto kinds{[&](int n) {
    using std::to_string;
    return "Plain=" + to_string(counts[n]['P']) + ",Dakuten=" + to_string(counts[n]['D']) + ",HanDakuten=" +
           to_string(counts[n]['H']) + (counts[n]['S'] ? ",Small=" + to_string(counts[n]['S']) : "") + ')';
  }};
  line("Monographs", sum(0), kinds(0));
  line("Digraphs", sum(1), kinds(1));
  line("All Kana", sum(0) + sum(1), "Monographs=" + std::to_string(sum(0)) + ",Digraphs=" + std::to_string(sum(1)) +
                                        "),Rōmaji Variants=" + std::to_string(variants));
  const auto d{counts[0]['D'] + counts[1]['D']}, hd{counts[0]['H'] + counts[1]['H']};
  line("Types", sum(0) + sum(1) + 4, "P=" + std::to_string(sum(0) + sum(1) - d - hd) + ",D=" + std::to_string(d) +
                                         ",H=" + std::to_string(hd) + ",N=4),N types aren't included in'All Kana'");
  PBT_CHECK(r.out.find("Rōmaji Variants=" + std::to_string(variants)) != std::string::npos, "total of variants isn't ", variants);
  PBT_CHECK(r.out.find("All Kana") != std::string::npos && last.find("Types") != std::string::npos, last);
}
