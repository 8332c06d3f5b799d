// libs: quiz kanji
#include "fixed_random.h"
#include "quiz.h"

using namespace kanji_tools;
using dict::S, dict::V, quiz::World;

const pbt::Info pbt::info{"P26",
    "list quizzes and reviews over generated and shipped Kanji lists, played "
    "by a generated player (right and wrong answers, skipping, going back, "
    "toggling meanings, unusable lines, quitting, end of input) while a model "
    "of the session predicts everything that is printed; non-trivial = at "
    "least three prompts answered with two kinds of action, distinct by list "
    "and actions"};

namespace {

std::unique_ptr<World> shipped;
const pbt::InitHook hook{[] {
  shipped = quiz::shippedWorld("/repo/data");
  shipped->load();
}};

class Session {
public:
  Session(pbt::Gen& x, const World& y) : g{x}, w{y} {
    quizMode = g.chance(2, 3);
    order = g.pick({'b', 'e', 'r'});
    chooseList();
    meanings = g.chance(1, 4);
    if (g.chance(1, 3) && !names.empty())
      question = g.chance(1, 12) ? static_cast<unsigned>(names.size()) + 1 + g.below(60000) % (65535 - static_cast<unsigned>(names.size()))
                                 : 1 + g.below(static_cast<uint32_t>(names.size()));
    asked = static_cast<char>(quizMode ? '2' + static_cast<char>(g.below(8)) : '1');
    kanjiToReading = !quizMode || g.boolean();
    if (order == 'e') std::reverse(names.begin(), names.end());
    std::set<S> readings;
    for (auto& i : names) {
      auto& k{w.m.all.at(i)};
      if (k.reading.empty() && noReading.empty()) noReading = i;
      readings.insert(k.reading);
      byReading[k.reading].push_back(i);
    }
    // (in file order, not reversed)
    if (order == 'e' && !noReading.empty())
      for (auto& i : names)
        if (w.m.all.at(i).reading.empty()) noReading = i;
    count = std::max(1U, std::min(static_cast<unsigned>(asked - '0'), static_cast<unsigned>(readings.size())));
    known.resize(names.size());
    if (order != 'r') known.assign(names.begin(), names.end());
    through = g.boolean();
    maxPrompts = 3 + g.size(through ? (g.chance(1, 10) ? 2400 : 300) : 40);
  }

  [[nodiscard]] S describe() const {
    return pbt::cat(quizMode ? "quiz" : "review", " order ", order, " list ", type, list, " (", names.size(), ") start ", question,
        meanings ? " meanings" : "", " choices ", asked, kanjiToReading ? " kanji" : " reading", randomize ? "" : " fixed");
  }

  // option for mode and order, empty if they can't be given as an option
  [[nodiscard]] S modeOption() const {
    const S r{quizMode ? "-t" : "-r"};
    if (order == 'r') return question ? S{} : r + "0";
    return r + (order == 'e' ? "-" : g.boolean() ? "+" : "") + std::to_string(question ? question : 1);
  }

  // lines for the menus shown before the first question
  void addMenus(bool mode, bool ord, bool typ, bool lst) {
    if (mode) menus.push_back(quizMode ? "t" : "r");
    if (ord) menus.emplace_back(1, order);
    if (typ) menus.emplace_back(1, type);
    if (lst) menus.emplace_back(1, list);
    if (quizMode) {
      menus.emplace_back(1, asked);
      menus.emplace_back(kanjiToReading ? "k" : "r");
    }
  }

  std::optional<S> next(const S& shown) {
    if (menuAt < menus.size()) return menus[menuAt++];
    text = shown;
    at = 0;
    PBT_CHECK(noReading.empty(), "quiz started with a Kanji that has no reading: ", shown);
    PBT_CHECK(question <= names.size(), "quiz started at question ", question, ": ", shown);
    PBT_CHECK(!over(), "prompt after the end: ", shown);
    if (!started) {
      take(header());
      started = true;
      if (question) cur = first = question - 1;
    }
    take(feedback);
    feedback.clear();
    if (!repeatPrompt) ask();
    take(prompt());
    rest("prompt");
    return act();
  }

  // called when the quiz ended
  void finish(const std::optional<S>& error, const S& tail) {
    text = tail;
    at = 0;
    if (!noReading.empty()) {
      PBT_EQ(error.value_or("none"), noReading + " has no reading", "error");
      return;
    }
    if (question > names.size()) {
      PBT_EQ(error.value_or("none"), pbt::cat("entry num '", question, "' is larger than total questions: ", names.size()).substr(0, 400), "error");
      return;
    }
    if (!started) {
      PBT_CHECK(names.empty(), "quiz didn't start: ", tail);
      take(header());
      started = true;
    }
    PBT_CHECK(over() || ended, "quiz ended after question ", cur + 1, " of ", names.size(), ": ", tail);
    take(feedback);
    if (quizMode) {
      const auto n{cur - first};
      S s{pbt::cat("\nFinal score: ", right, '/', n)};
      if (n) {
        const auto skipped{n - right - wrong.size()};
        if (skipped) s += pbt::cat(", skipped: ", skipped);
        if (!wrong.empty())
          s += " - mistakes: " + dict::join(wrong, " ");
        else if (!skipped)
          s += " - Perfect!";
      }
      take(s + "\n");
    }
    rest("end");
    PBT_EQ(error.value_or("none"), eof ? "no more input to get a choice from" : "none", "error");
    if (quizMode && randomize && positions.size() == 1 && count > 1)
      PBT_CHECK(fresh < 40, "correct answer was always choice ", *positions.begin() + 1);
    if (order == 'r' && fresh > 24) {
      V l{w.list(type, list)};
      bool same{true};
      for (size_t i{first}; i < known.size() && !known[i].empty(); ++i) same = same && known[i] == l[i];
      PBT_CHECK(!same, "random order is the order of the list");
    }
  }

  const S& name(size_t i) const { return known[i]; }

  pbt::Gen& g;
  const World& w;
  bool quizMode{}, meanings{}, kanjiToReading{}, randomize{true}, through{};
  char order{}, type{}, list{}, asked{};
  unsigned question{}, count{};
  V names; // in the order asked (order 'r': in any order)
  S noReading;
  V menus;
  size_t menuAt{};
  S actions;
  std::set<char> kinds;

private:
  void chooseList() {
    std::vector<std::pair<char, char>> all, filled;
    for (auto c : S{"0123456789"}) all.emplace_back('f', c);
    for (auto c : S{"123456s"}) all.emplace_back('g', c);
    for (auto c : S{"12345"}) all.emplace_back('l', c);
    for (auto c : S{"123456789abc"}) all.emplace_back('k', c);
    for (auto& i : all)
      if (w.list(i.first, i.second).size() > 1) filled.push_back(i);
    std::tie(type, list) = filled.empty() || g.chance(1, 12) ? g.pick(all) : g.pick(filled);
    names = w.list(type, list);
  }

  [[nodiscard]] bool over() const { return ended || (started && cur >= names.size()); }
  [[nodiscard]] size_t total() const { return names.size(); }

  [[nodiscard]] S header() const {
    return pbt::cat(">>>\n>>> Starting ", quizMode ? "quiz" : "review", " for ", total(), " kanji\n>>>\n",
        kanjiToReading ? World::legend(type != 'l', type != 'k', type != 'g') : S{});
  }

  void take(const S& s) {
    if (text.compare(at, s.size(), s) != 0)
      pbt::fail(pbt::cat("printed ", pbt::show(text.substr(at, s.size() + 60)), ", expected ", pbt::show(s), " after ", actions));
    at += s.size();
  }
  void rest(const S& what) const {
    PBT_CHECK(at == text.size(), "more than expected before ", what, ": ", text.substr(at), " after ", actions);
  }

  [[nodiscard]] S questionText(const S& name) const {
    auto& k{w.m.all.at(name)};
    S r;
    if (kanjiToReading) {
      r = name;
      const auto exclude{type == 'f' ? Kanji::Info::Freq : type == 'g' ? Kanji::Info::Grade : type == 'k' ? Kanji::Info::Kyu : Kanji::Info::Level};
      if (const auto s{w.kanji(name)->info(Kanji::Info::All ^ exclude)}; !s.empty()) r += "  " + s;
      if (!quizMode) r += w.typeInfo(name);
    } else
      r = "Reading:  " + k.reading;
    if (meanings && !k.meaning.empty()) r += (quizMode ? " : " : "\n    Meaning: ") + k.meaning;
    return r + '\n';
  }

  void ask() {
    take(pbt::cat(quizMode ? "\nQuestion " : "\n", cur + 1, '/', total(), ":  "));
    auto& name{known[cur]};
    const bool isNew{!repeatQuestion && !seen.contains(cur)};
    V candidates;
    if (name.empty()) {
      std::set<S> done(known.begin(), known.end());
      for (auto& i : names)
        if (!done.contains(i)) {
          const auto s{questionText(i)};
          if (text.compare(at, s.size(), s) == 0) candidates.push_back(i);
        }
      PBT_CHECK(!candidates.empty(), "not a Kanji of the list that wasn't asked yet: ", text.substr(at, 200), " after ", actions);
      if (kanjiToReading) {
        PBT_EQ(candidates.size(), 1U, "matching Kanji");
        name = candidates[0];
      }
    } else
      candidates = {name};
    take(questionText(candidates[0]));
    if (!quizMode)
      take(w.details(name));
    else {
      const auto start{at};
      V shown;
      for (unsigned i{}; i < count; ++i) {
        take(pbt::cat("    ", i + 1, ".  "));
        const auto end{text.find('\n', at)};
        PBT_CHECK(end != S::npos, "line break missing");
        shown.push_back(text.substr(at, end - at));
        at = end + 1;
      }
      const auto choices{text.substr(start, at - start)};
      if (repeatQuestion)
        PBT_EQ(choices, lastChoices, "choices for the same question");
      else {
        lastChoices = choices;
        const auto reading{w.m.all.at(candidates[0]).reading};
        std::set<S> readings;
        correct = count;
        for (unsigned i{}; i < count; ++i) {
          auto& s{shown[i]};
          S r;
          if (kanjiToReading) {
            PBT_CHECK(byReading.contains(s), "choice is not a reading of the list: ", s);
            r = s;
          } else {
            PBT_CHECK(std::find(names.begin(), names.end(), s) != names.end(), "choice is not in the list: ", s);
            r = w.m.all.at(s).reading;
          }
          PBT_CHECK(readings.insert(r).second, "two choices for reading ", r, ":\n", choices);
          if (r == reading) {
            correct = i;
            if (!kanjiToReading) {
              PBT_CHECK(std::find(candidates.begin(), candidates.end(), s) != candidates.end(), "correct choice is ", s, ", but the question is ",
                  dict::join(candidates, " "), ":\n", choices);
              name = s;
            }
          }
        }
        PBT_CHECK(correct < count, "correct answer ", reading, " missing:\n", choices);
        if (!randomize) PBT_EQ(correct, 0U, "first choice should be correct");
        positions.insert(correct);
      }
    }
    fresh += isNew;
    seen.insert(cur);
    repeatQuestion = false;
  }

  [[nodiscard]] S prompt() const {
    S r{!quizMode ? "  Select (" : kanjiToReading ? "  Select correct reading (" : "  Select correct kanji ("};
    if (!quizMode && cur) r += ",=prev, ";
    r += meanings ? "-=hide meanings, .=" : "-=show meanings, .=";
    r += cur + 1 == total() ? "finish" : quizMode ? "skip" : "next";
    r += ", /=quit";
    if (quizMode) r += count > 1 ? pbt::cat(", 1-", count) : S{", 1"};
    return r + "): ";
  }

  [[nodiscard]] bool valid(const S& s) const {
    if (s.size() != 1) return false;
    const auto c{s[0]};
    return c == '-' || c == '.' || c == '/' || (c == ',' && !quizMode && cur) || (quizMode && c >= '1' && c < static_cast<char>('1' + count));
  }

  std::optional<S> act() {
    repeatPrompt = repeatQuestion = false;
    const uint32_t stop{++prompts > maxPrompts ? 1000U : through ? 0U : 1U};
    switch (g.weighted({quizMode ? 14U : 0U, quizMode && count > 1 ? 8U : 0U, quizMode ? 5U : 14U, !quizMode && cur ? 10U : 0U, 3, 3, stop, stop})) {
    case 0:
      feedback = pbt::cat("  Correct! (", ++right, '/', cur - first + 1, ")\n");
      ++cur;
      return done('c', S(1, static_cast<char>('1' + correct)));
    case 1: {
      auto i{g.below(count - 1)};
      i += i >= correct;
      feedback = pbt::cat("  Incorrect (correct answer is ", correct + 1, ")\n");
      wrong.push_back(known[cur]);
      ++cur;
      return done('w', S(1, static_cast<char>('1' + i)));
    }
    case 2: ++cur; return done('s', ".");
    case 3: --cur; return done('p', ",");
    case 4:
      meanings = !meanings;
      repeatQuestion = true;
      return done('m', "-");
    case 5: {
      S s{g.pick({"", "x", "0", "9", "12", ",", "1 ", " 1", "あ", "..", "\t", "'", "*", "-1", "a"})};
      if (g.chance(1, 3)) s = g.dictString();
      s = s.substr(0, s.find('\n'));
      if (valid(s)) s += s;
      repeatPrompt = true;
      return done('i', s);
    }
    case 6: ended = true; return done('q', "/");
    default:
      ended = eof = true;
      actions += 'E';
      kinds.insert('E');
      return {};
    }
  }

  S done(char kind, const S& line) {
    actions += kind;
    kinds.insert(kind);
    return line;
  }

  std::map<S, V> byReading;
  V known; // name by question index, empty if not known yet
  S text, feedback, lastChoices;
  size_t at{};
  bool started{}, ended{}, eof{}, repeatPrompt{}, repeatQuestion{};
  unsigned cur{}, first{}, right{}, correct{};
  V wrong;
  std::set<unsigned> positions;
  std::set<unsigned> seen;
  size_t fresh{}, prompts{}, maxPrompts{};
};

void play(pbt::Ctx& c, const World& w) {
  auto& g{c.g};
  S desc;
  Session* current{};
  quiz::Player player{w.l->out, [&](const S& s) { return current->next(s); }};
  const auto finish{[&](const Session& s) {
    desc += " actions " + s.actions + '\n';
    c.describe(desc);
    for (auto i : s.kinds) c.label(S{"action "} + i);
    if (s.kinds.size() > 1 && s.actions.size() > 2) c.nontrivial(desc);
    if (s.order == 'r') c.label("random order");
    if (s.count < 4 && s.quizMode) c.label("less than 4 choices");
  }};
  if (g.boolean()) { // options
    Session s{g, w};
    current = &s;
    V args;
    if (const auto m{s.modeOption()}; !m.empty() && (g.chance(3, 4) || s.question)) {
      args.push_back(m);
      if (!s.question && s.order != 'r') s.question = 1;
      s.addMenus(false, false, false, false);
    } else if (s.question = 0; g.boolean()) {
      args.push_back(s.quizMode ? "-t" : "-r");
      s.addMenus(false, true, false, false);
    } else
      s.addMenus(true, true, false, false);
    const bool lst{g.boolean()};
    args.push_back(S{"-"} + s.type + (lst ? S(1, s.list) : S{}));
    if (!lst) s.menus.insert(s.menus.begin() + static_cast<long>(s.menus.size() - (s.quizMode ? 2 : 0)), S(1, s.list));
    if (s.meanings) args.push_back("-s");
    g.shuffle(args);
    desc = "options " + dict::join(args, " ") + ": " + s.describe();
    c.describe(desc);
    std::vector<const char*> argv{"program"};
    for (auto& i : args) argv.push_back(i.c_str());
    const auto error{player.play([&] {
      QuizLauncher{Args{static_cast<Args::Size>(argv.size()), argv.data()}, w.l->data, w.groups, w.jukugo, &player.stream};
    })};
    s.finish(error, player.tail());
    finish(s);
    return;
  }
  QuizLauncher launcher{{}, w.l->data, w.groups, w.jukugo, &player.stream};
  for (auto n{1 + g.below(3)}; n; --n) {
    w.l->out.str("");
    Session s{g, w};
    current = &s;
    const bool typ{g.boolean()}, lst{g.boolean()};
    s.randomize = !g.chance(1, 3);
    s.addMenus(true, true, !typ, !lst);
    desc += "menus " + s.describe();
    c.describe(desc);
    using O = QuizLauncher::OptChar;
    const auto error{player.play([&] {
      launcher.start(typ ? O{s.type} : O{}, lst ? O{s.list} : O{}, static_cast<QuizLauncher::Question>(s.question), s.meanings, s.randomize);
    })};
    s.finish(error, player.tail());
    finish(s);
    if (error) return; // (the launcher isn't usable any more)
  }
}

} // namespace

PBT_SUB(generated, 5000, 100000) {
  const auto w{quiz::make(c.g, c.g.boolean() ? dict::Options{} : dict::Options{25, 15, 10, 20}, c.g.chance(1, 4) ? 9 : 4, 12)};
  w->load();
  play(c, *w);
}

PBT_SUB(shipped, 3000, 60000) { play(c, *shipped); }
