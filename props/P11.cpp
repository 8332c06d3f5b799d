// libs: kana
#include "text.h"

#include <kt_kana/Choice.h>
#include <kt_utils/Exception.h>

using namespace kanji_tools;

const pbt::Info pbt::info{"P11",
    "choice sets (single, runs, described, ranges, with and without quit and "
    "default, impossible ones) prompted several times on one stream of typed "
    "lines (valid, rejected, empty, long, unterminated, ending early); "
    "non-trivial = a prompt that rejected a line, used a default, compressed a "
    "run or was refused, distinct by choices and lines"};

namespace {

using Choices = Choice::Choices;
using Opt = Choice::OptChar;

bool printable(char c) { return c >= 0x20 && c <= 0x7e; }

char anyChar(pbt::Gen& g) {
  switch (g.weighted({6, 4, 3, 2, 1})) {
  case 0: return static_cast<char>('a' + g.below(6));
  case 1: return static_cast<char>('0' + g.below(10));
  case 2: return g.pick({'q', 'z', 'A', 'Z', ' ', '~', '-', '=', ',', '(', '}', '!'});
  case 3: return static_cast<char>(' ' + g.below(95));
  default:
    return g.pick({'\0', '\x1f', '\x7f', '\n', '\x80', '\xff', '\t', '\x01'});
  }
}

char okChar(pbt::Gen& g) {
  const auto c{anyChar(g)};
  return printable(c) || g.chance(1, 10) ? c : 'x';
}

// reference prompt: maximal runs of undescribed consecutive choices
std::string prompt(const std::string& msg, const Choices& c, Opt def) {
  std::vector<std::string> parts;
  for (auto i{c.begin()}; i != c.end();) {
    std::string p{i->first};
    if (i->second.empty()) {
      auto last{i->first};
      for (++i; i != c.end() && i->second.empty() && i->first == last + 1; ++i)
        last = i->first;
      if (last != p[0]) (p += '-') += last;
    } else {
      p += '=' + i->second;
      ++i;
    }
    parts.push_back(p);
  }
  auto r{msg.empty() ? std::string{"("} : msg + " ("};
  for (size_t i{}; i < parts.size(); ++i) r += (i ? ", " : "") + parts[i];
  r += ")";
  if (def) r += std::string{" def '"} + *def + "'";
  return r + ": ";
}

Choices anyChoices(pbt::Gen& g) {
  static const std::vector<std::string> names{
      "x", "one", "a=b", "漢字", ", ", "(z)", "-", "quit"};
  Choices r;
  for (auto n{g.size(12)}; n; --n)
    if (g.chance(1, 3)) // a run
      for (auto a{okChar(g)}, b{static_cast<char>(a + g.below(6))}; a <= b && a < 0x7f; ++a)
        r.emplace(a, g.chance(1, 10) ? g.pick(names) : "");
    else
      r.emplace(okChar(g), g.boolean() ? g.pick(names) : "");
  return r;
}

} // namespace

PBT_SUB(prompts, 450000, 6000000) {
  auto& g{c.g};
  std::string description;
  // typed lines
  std::vector<std::string> lines;
  for (auto n{g.size(14)}; n; --n)
    switch (g.weighted({6, 2, 2, 1})) {
    case 0: lines.emplace_back(1, static_cast<char>(g.chance(1, 12) ? anyChar(g) : g.boolean() ? 'a' + g.below(6) : '0' + g.below(10))); break;
    case 1: lines.emplace_back(g.boolean() ? "" : "q"); break;
    case 2: lines.emplace_back(g.pick({"aa", "a ", " a", "漢", "a\r", "-", "abc", "1q"})); break;
    default: lines.push_back(std::string(1, okChar(g)));
    }
  for (auto& l : lines)
    for (auto& ch : l)
      if (ch == '\n') ch = 'n';
  std::string input;
  for (auto& l : lines) (input += l) += '\n';
  if (!lines.empty() && !lines.back().empty() && g.boolean()) input.pop_back();
  std::ostringstream os;
  std::istringstream is{input};
  size_t pos{}; // lines consumed by the model
  // construct with or without quit
  Opt quit;
  std::string quitName{"quit"};
  std::optional<Choice> choice;
  if (g.boolean()) {
    const auto q{g.boolean() ? 'q' : anyChar(g)};
    if (!printable(q)) {
      try {
        const Choice x{os, &is, q};
        pbt::fail("non-printable quit option accepted");
      } catch (const DomainError&) {}
    } else {
      quit = q;
      if (g.boolean()) {
        quitName = g.pick({"", "end", "終了"});
        choice.emplace(os, &is, q, quitName);
      } else
        choice.emplace(os, &is, q);
    }
  }
  if (!choice) choice.emplace(os, &is);
  auto& x{*choice};
  bool interesting{};
  for (auto rounds{g.below(4) + 1}; rounds; --rounds) {
    // change quit option
    switch (g.below(8)) {
    case 0: x.clearQuit(); quit = {}; break;
    case 1: {
      const auto q{anyChar(g)};
      try {
        x.setQuit(q);
        PBT_CHECK(printable(q), "non-printable quit accepted: ", static_cast<int>(q));
        quit = q;
        quitName = "quit";
      } catch (const DomainError&) {
        PBT_CHECK(!printable(q), "quit refused: ", q);
      }
      break;
    }
    default: break;
    }
    PBT_EQ(x.quit() == quit, true, "quit option");
    const auto probe{anyChar(g)};
    PBT_EQ(x.isQuit(probe), quit && *quit == probe, "isQuit");
    if (quit) PBT_EQ(x.quitDescription(), quitName, "quit description");
    // prompt
    auto choices{anyChoices(g)};
    auto all{choices};
    bool bad{};
    const std::string msg{g.pick({"", "pick", "Choose (one)", " "})};
    std::optional<Choice::Range> range;
    if (g.chance(1, 3)) {
      const auto a{okChar(g)};
      range.emplace(a, g.chance(1, 6) ? anyChar(g) : static_cast<char>(a + g.below(10)));
      if (!printable(range->first) || !printable(range->second) || range->first > range->second)
        bad = true;
      else
        for (int i{range->first}; i <= range->second; ++i)
          if (!all.emplace(static_cast<char>(i), "").second) bad = true;
    }
    Opt def;
    if (g.boolean()) def = all.empty() || g.chance(1, 12) ? anyChar(g)
                         : std::next(all.begin(), g.below(all.size()))->first;
    auto useQuit{g.chance(3, 4)};
    if (!range && choices.empty() && msg.empty()) useQuit = true;
    if (quit && all.contains(*quit)) bad = true;
    if (quit && useQuit) all.emplace(*quit, quitName);
    if (all.empty()) bad = true;
    for (auto& i : all)
      if (!printable(i.first)) bad = true;
    if (def && !all.contains(*def)) bad = true;
    std::string desc{pbt::cat("choices ", prompt(msg, all, def), " quit ", quit ? *quit : '0', " lines ", pbt::show(input))};
    if (range) desc += pbt::cat(" range ", range->first, "..", range->second);
    description += desc + "\n";
    c.describe(description);
    os.str({});
    // expected
    std::string out;
    std::optional<char> answer;
    const auto p{prompt(msg, all, def)};
    const auto start{pos};
    if (!bad)
      for (;;) {
        out += p;
        if (pos == lines.size()) {
          answer = def; // end of input
          break;
        }
        const auto& l{lines[pos++]};
        if (l.empty() && def) {
          answer = def;
          break;
        }
        if (l.size() == 1 && all.contains(l[0])) {
          answer = l[0];
          break;
        }
      }
    if (bad || pos - start > 1 || def || p.find('-') != std::string::npos)
      interesting = true;
    try {
      char r{};
      if (range) {
        if (!useQuit)
          r = x.get(*range, msg, useQuit, choices, def);
        else if (choices.empty() && g.boolean())
          r = def ? x.get(*range, msg, def) : x.get(*range, msg);
        else if (g.boolean())
          r = def ? x.get(*range, msg, choices, def) : x.get(*range, msg, choices);
        else
          r = x.get(*range, msg, useQuit, choices, def);
      } else if (useQuit && g.boolean())
        r = def ? x.get(msg, choices, def) : x.get(msg, choices);
      else if (!def && g.boolean())
        r = x.get(msg, useQuit, choices);
      else
        r = x.get(msg, useQuit, choices, def);
      PBT_CHECK(answer, "returned '", r, "' instead of an error: ", desc);
      PBT_EQ(r, *answer, desc);
    } catch (const DomainError& e) {
      PBT_CHECK(!answer, "unexpected error ", e.what(), ": ", desc);
    }
    if (!bad) PBT_EQ(os.str(), out, desc);
    // nothing else was consumed
    size_t offset{};
    for (size_t i{}; i < pos; ++i) offset += lines[i].size() + 1;
    const auto state{is.rdstate()};
    is.clear();
    const auto at{static_cast<size_t>(is.tellg())};
    is.clear(state);
    PBT_EQ(at, size_t{std::min(offset, input.size())}, "input consumed: ", desc);
    if (!bad && !answer) break; // end of input
  }
  if (interesting) c.nontrivial(description);
}
