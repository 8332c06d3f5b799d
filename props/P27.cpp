// libs: quiz kanji
#include "fixed_random.h"
#include "quiz.h"

using namespace kanji_tools;
using dict::S, dict::V, quiz::World;

const pbt::Info pbt::info{"P27",
    "group quizzes and reviews over generated and shipped groups (2 to 58 "
    "members), played by a generated player (right and wrong readings, "
    "editing, refreshing, toggling meanings, skipping, going back, unusable "
    "lines, quitting, end of input) while a model of the session predicts "
    "everything that is printed; non-trivial = at least four prompts answered "
    "with three kinds of action, distinct by groups and actions"};

namespace {

std::unique_ptr<World> shipped;
const pbt::InitHook hook{[] {
  shipped = quiz::shippedWorld("/repo/data");
  shipped->load();
}};

using Choices = std::map<char, S>;

S format(const Choices& c) {
  S r;
  for (auto i{c.begin()}; i != c.end();) {
    if (!r.empty()) r += ", ";
    r += i->first;
    if (!i->second.empty()) {
      r += '=' + i->second;
      ++i;
      continue;
    }
    auto last{i->first};
    const auto first{last};
    for (++i; i != c.end() && i->second.empty() && i->first == last + 1; ++i) last = i->first;
    if (last != first) r += S{"-"} + last;
  }
  return r;
}

S pad(S s, size_t n) {
  const auto w{ref::width(s)};
  return w < n ? s + S(n - w, ' ') : s;
}

char letter(size_t i) { return static_cast<char>(i < 26 ? 'a' + i : 'A' + (i - 26)); }
size_t position(char c) { return c >= 'a' ? static_cast<size_t>(c - 'a') : static_cast<size_t>(c - 'A') + 26; }

// row of the first Katakana of a reading in the menu for pattern groups
int rowOf(const S& reading) {
  static const V rows{"アイウエオ", "カガキギクグケゲコゴ", "サザシジスズセゼソゾ", "タダチヂツヅテデトドナニヌネノ",
      "ハバパヒビピフブプヘベペホボポマミムメモ", "ヤユヨラリルレロワヰヱヲ"};
  for (size_t i{}; i < rows.size(); ++i)
    if (rows[i].find(reading.substr(0, 3)) != S::npos) return static_cast<int>(i);
  return -1;
}

class Session {
public:
  Session(pbt::Gen& x, const World& y, const std::map<const dict::ModelGroup*, int>& buckets) : g{x}, w{y} {
    quizMode = g.chance(3, 4);
    order = g.pick({'b', 'e', 'r'});
    meanings = g.chance(1, 4);
    pattern = g.boolean();
    type = static_cast<char>('1' + g.below(4));
    bucket = static_cast<char>('1' + g.below(6));
    for (auto& i : pattern ? w.pattern : w.meaning) {
      if (pattern && buckets.at(&i) != bucket - '1') continue;
      if (members(i).size() > 1) groups.push_back(&i);
    }
    if (order == 'e') std::reverse(groups.begin(), groups.end());
    if (g.chance(1, 3) && !groups.empty())
      question = g.chance(1, 12) ? static_cast<unsigned>(groups.size()) + 1 + g.below(60000) : 1 + g.below(static_cast<uint32_t>(groups.size()));
    known.resize(groups.size());
    if (order != 'r') known.assign(groups.begin(), groups.end());
    through = g.boolean();
    right_ = 1 + g.below(20);
    maxPrompts = 3 + g.size(through ? 400 : 60);
  }

  [[nodiscard]] S describe() const {
    return pbt::cat(quizMode ? "quiz" : "review", pattern ? " pattern " : " meaning ", pattern ? S(1, bucket) : S{}, " order ", order, " members ",
        type, " (", groups.size(), " groups) start ", question, meanings ? " meanings" : "", randomize ? "" : " fixed");
  }

  [[nodiscard]] S modeOption() const {
    const S r{quizMode ? "-t" : "-r"};
    if (order == 'r') return question ? S{} : r + "0";
    return r + (order == 'e' ? "-" : g.boolean() ? "+" : "") + std::to_string(question ? question : 1);
  }

  void addMenus(bool mode, bool ord, bool typ, bool members) {
    if (mode) menus.push_back(quizMode ? "t" : "r");
    if (ord) menus.emplace_back(1, order);
    if (typ) menus.emplace_back(pattern ? "p" : "m");
    if (members) menus.emplace_back(1, type);
    if (pattern) {
      quitMenu = g.chance(1, 20);
      menus.emplace_back(1, quitMenu ? '/' : bucket);
    }
  }

  std::optional<S> next(const S& shown) {
    if (menuAt < menus.size()) return menus[menuAt++];
    text = shown;
    at = 0;
    PBT_CHECK(!quitMenu, "not ended by quitting a menu: ", shown);
    PBT_CHECK(question <= groups.size(), "quiz started at question ", question, ": ", shown);
    PBT_CHECK(!over(), "prompt after the end: ", shown);
    if (!started) {
      take(header());
      started = true;
      if (question) cur = first = question - 1;
    }
    take(feedback);
    feedback.clear();
    switch (state) {
    case New:
    case Again: ask(); [[fallthrough]];
    case Main: take(assigned()); [[fallthrough]];
    case Repeat:
      take((quizMode ? pbt::cat("  Reading for: ", answers.size() + 1) : "  Select") + " (" + format(choices()) + "): ");
      rest("prompt");
      return act();
    case EditWhich: {
      take("    Answer to edit:  (" + format(which()) + "): ");
      rest("prompt");
      return edit1();
    }
    default:
      take(pbt::cat("    New reading for Entry: ", entry + 1, " (", format(letters(entry)), ") def '", letter(answers[entry]), "': "));
      rest("prompt");
      return edit2();
    }
  }

  void finish(const std::optional<S>& error, const S& tail) {
    text = tail;
    at = 0;
    if (quitMenu) {
      PBT_CHECK(!error, *error);
      if (quizMode) take("\nFinal score: 0/0\n");
      rest("end");
      return;
    }
    if (question > groups.size()) {
      PBT_EQ(error.value_or("none"), pbt::cat("entry num '", question, "' is larger than total questions: ", groups.size()), "error");
      return;
    }
    if (!started) {
      PBT_CHECK(groups.empty(), "quiz didn't start: ", tail);
      take(header());
      started = true;
    }
    PBT_CHECK(over(), "quiz ended at group ", cur + 1, " of ", groups.size(), ": ", tail);
    take(feedback);
    if (eof && (state == EditWhat)) // default taken, no answer for the next prompt
      take(assigned() + pbt::cat("  Reading for: ", answers.size() + 1, " (", format(choices()), "): "));
    if (quizMode) {
      const auto n{cur - first};
      S s{pbt::cat("\nFinal score: ", right, '/', n)};
      if (n) {
        const auto skipped{n - right - wrong.size()};
        if (skipped) s += pbt::cat(", skipped: ", skipped);
        if (!wrong.empty())
          s += " - mistakes: " + dict::join(wrong, " ");
        else if (!skipped)
          s += " - Perfect!";
      }
      take(s + "\n");
    }
    rest("end");
    PBT_EQ(error.value_or("none"), eof ? "no more input to get a choice from" : "none", "error");
    if (order == 'r') {
      size_t n{};
      bool same{true};
      for (; first + n < known.size() && known[first + n]; ++n) same = same && known[first + n] == groups[first + n];
      PBT_CHECK(n < 13 || !same, "random order is the order of the list");
    }
  }

  pbt::Gen& g;
  const World& w;
  bool quizMode{}, meanings{}, pattern{}, randomize{true}, through{}, quitMenu{};
  char order{}, type{}, bucket{};
  unsigned question{};
  std::vector<const dict::ModelGroup*> groups;
  V menus;
  size_t menuAt{}, largest{};
  S actions;
  std::set<char> kinds;

private:
  enum State { New, Again, Main, Repeat, EditWhich, EditWhat };

  [[nodiscard]] V members(const dict::ModelGroup& x) const {
    V r;
    for (auto& i : x.members) {
      auto& k{w.m.all.at(i)};
      if (!k.reading.empty() &&
          (k.type == dict::Jouyou || type == '4' || (type >= '2' && k.level >= 0) || (type >= '3' && k.freq)))
        r.push_back(i);
    }
    return r;
  }

  [[nodiscard]] bool over() const { return ended || (started && cur >= groups.size()); }

  [[nodiscard]] S header() const {
    return pbt::cat(">>>\n>>> Starting ", quizMode ? "quiz" : "review", " for ", groups.size(), pattern ? " Pattern" : " Meaning", " groups\n",
        type > '1' ? ">>>   " + World::suffixLegend() + '\n' : S{});
  }

  void take(const S& s) {
    if (text.compare(at, s.size(), s) != 0)
      pbt::fail(pbt::cat("printed ", pbt::show(text.substr(at, s.size() + 60)), ", expected ", pbt::show(s), " after ", actions));
    at += s.size();
  }
  void rest(const S& what) const {
    PBT_CHECK(at == text.size(), "more than expected before ", what, ": ", text.substr(at), " after ", actions);
  }

  [[nodiscard]] S title(const dict::ModelGroup& x) const {
    const auto n{members(x).size()};
    return '[' + (x.pattern == dict::Peer ? "Peers " + x.members[0] : S{}) + x.name + "], " +
           (n == x.members.size() ? std::to_string(n) : pbt::cat("showing ", n, " out of ", x.members.size())) + " members\n";
  }

  // left side of a line
  [[nodiscard]] S left(const S& name) const {
    auto& k{w.m.all.at(name)};
    auto s{w.kanji(name)->qualifiedName()};
    s += pad(k.pinyin.empty() ? S{} : "  (" + k.pinyin + ')', 12);
    if (!quizMode)
      for (auto& i : pattern ? w.meaning : w.pattern)
        if (std::find(i.members.begin(), i.members.end(), name) != i.members.end()) {
          s += pbt::cat(pattern ? 'm' : 'p', ':', i.number);
          break;
        }
    return pad(s, 22);
  }

  [[nodiscard]] S reading(const S& name) const {
    auto& k{w.m.all.at(name)};
    return k.reading + (meanings && !k.meaning.empty() ? " : " + k.meaning : S{});
  }

  // true if the lines from 'pos' are for 'm' (in this order if not random)
  [[nodiscard]] bool shows(const V& m, size_t pos) const {
    std::set<S> left_;
    for (auto& i : m) left_.insert(left(i));
    for (size_t i{}; i < m.size(); ++i) {
      const auto n{std::to_string(i + 1)};
      const auto start{S(4 - n.size(), ' ') + n + ":  "};
      if (text.compare(pos, start.size(), start) != 0) return false;
      pos += start.size();
      const auto shown{[&](const S& x) { return text.compare(pos, x.size(), x) == 0; }};
      if (!quizMode || !randomize) {
        if (!shown(left(m[i]))) return false;
      } else if (const auto j{std::find_if(left_.begin(), left_.end(), shown)}; j == left_.end())
        return false;
      else
        left_.erase(j);
      pos = text.find('\n', pos);
      if (pos == S::npos) return false;
      ++pos;
    }
    return true;
  }

  void ask() {
    take(pbt::cat(quizMode ? "\nQuestion " : "\n", cur + 1, '/', groups.size(), ":  "));
    if (!known[cur]) {
      std::set<const dict::ModelGroup*> done(known.begin(), known.end());
      // names of groups need not be unique, look at all members as well
      for (auto* i : groups)
        if (!done.contains(i) && text.compare(at, title(*i).size(), title(*i)) == 0 && shows(members(*i), at + title(*i).size())) {
          known[cur] = i;
          break;
        }
      PBT_CHECK(known[cur], "not a group of the list that wasn't asked yet: ", text.substr(at, 300), " after ", actions);
    }
    const auto& group{*known[cur]};
    take(title(group));
    const auto all{members(group)};
    largest = std::max(largest, all.size());
    if (state == New) {
      questions.assign(all.size(), {});
      readings.assign(all.size(), {});
      answers.clear();
      if (!randomize || !quizMode) {
        questions = all;
        for (size_t i{}; i < all.size(); ++i) readings[i] = w.m.all.at(all[i]).reading;
      }
    }
    V shown; // readings with meanings
    for (size_t i{}; i < all.size(); ++i) {
      const auto n{std::to_string(i + 1)};
      take(S(4 - n.size(), ' ') + n + ":  ");
      if (questions[i].empty()) {
        for (auto& j : all)
          if (std::find(questions.begin(), questions.end(), j) == questions.end() && text.compare(at, left(j).size(), left(j)) == 0)
            questions[i] = j;
        PBT_CHECK(!questions[i].empty(), "not a member that wasn't shown yet: ", text.substr(at, 100));
      }
      take(left(questions[i]));
      S a(4, ' ');
      for (size_t j{}; j < answers.size(); ++j)
        if (answers[j] == i) a = (j < 9 ? " " : "") + std::to_string(j + 1) + "->";
      take(a + (quizMode ? letter(i) : ' ') + ":  ");
      const auto end{text.find('\n', at)};
      PBT_CHECK(end != S::npos, "line break missing");
      shown.push_back(text.substr(at, end - at));
      at = end + 1;
      const auto r{shown.back().substr(0, shown.back().find(" : "))};
      if (readings[i].empty()) readings[i] = r;
      PBT_EQ(r, readings[i], "reading of line ", i + 1, " of ", group.line());
      if (!quizMode || !randomize) PBT_EQ(shown.back(), reading(all[i]), "reading of line ", i + 1, " of ", group.line());
    }
    take("\n");
    V expected;
    for (auto& i : all) expected.push_back(reading(i));
    lines = shown;
    if (quizMode && randomize) {
      if (state == New && all.size() > 11) {
        PBT_CHECK(questions != all, "members are not in random order");
        PBT_CHECK(std::set<S>(expected.begin(), expected.end()).size() < 12 || shown != expected, "readings are not in random order");
      }
      std::sort(shown.begin(), shown.end());
      std::sort(expected.begin(), expected.end());
      PBT_EQ(shown, expected, "readings shown for ", group.line());
    }
  }

  [[nodiscard]] S assigned() const {
    S r;
    for (size_t i{}; i < answers.size(); ++i) r += pbt::cat(i ? "" : "   ", ' ', i + 1, "->", letter(answers[i]));
    return r.empty() ? r : r + '\n';
  }

  // letters not used (or used for 'also')
  [[nodiscard]] Choices letters(std::optional<size_t> also = {}) const {
    Choices r;
    for (size_t i{}; i < questions.size(); ++i)
      if (const auto j{std::find(answers.begin(), answers.end(), i)}; j == answers.end() || (also && answers[*also] == i)) r[letter(i)] = {};
    return r;
  }
  [[nodiscard]] Choices which() const {
    Choices r;
    for (auto i : answers) r[letter(i)] = {};
    return r;
  }
  [[nodiscard]] Choices choices() const {
    Choices r;
    if (quizMode) r = letters();
    r['-'] = meanings ? "hide meanings" : "show meanings";
    r['.'] = cur + 1 == groups.size() ? "finish" : quizMode ? "skip" : "next";
    r['/'] = "quit";
    if (!quizMode && cur) r[','] = "prev";
    if (!answers.empty()) {
      r['*'] = "edit";
      r['\''] = "refresh";
    }
    return r;
  }

  S invalid(const Choices& c, bool def) {
    S s{g.pick({"x", "aa", " a", "1", "0", ",", "あ", "{", "`", "@", "[", "A", "\t", "'", "*", "-", ".", "/", ""})};
    if (g.chance(1, 4)) s = g.dictString();
    s = s.substr(0, s.find('\n'));
    if ((s.size() == 1 && c.contains(s[0])) || (s.empty() && def)) s += "##";
    return s;
  }

  bool matches(size_t question, size_t line) const {
    auto& k{w.m.all.at(questions[question])};
    return meanings ? reading(questions[question]) == lines[line] : k.reading == readings[line];
  }

  void nextGroup() {
    ++cur;
    state = New;
  }

  void check() {
    if (answers.size() < questions.size()) return;
    size_t n{};
    for (size_t i{}; i < answers.size(); ++i) n += matches(i, answers[i]);
    if (n == answers.size())
      feedback = pbt::cat("  Correct! (", ++right, '/', cur - first + 1, ")\n");
    else {
      feedback = pbt::cat("  Incorrect (got ", n, " right out of ", answers.size(), ")\n");
      wrong.push_back(known[cur]->name);
    }
    nextGroup();
  }

  std::optional<S> end() {
    ended = eof = true;
    actions += 'E';
    kinds.insert('E');
    return {};
  }

  std::optional<S> act() {
    const uint32_t stop{++prompts > maxPrompts ? 1000U : through ? 0U : 1U};
    const auto free{quizMode ? letters() : Choices{}};
    S good, bad;
    for (auto& i : free) (matches(answers.size(), position(i.first)) ? good : bad) += i.first;
    const auto any{answers.empty() ? 0U : 1U};
    switch (g.weighted({good.empty() ? 0U : 60U * right_, bad.empty() ? 0U : good.empty() ? 60U : 12U, quizMode ? 4U : 20U, !quizMode && cur ? 12U : 0U, 4, 4, 8 * any, 3 * any, stop, stop})) {
    case 0:
    case 1: break;
    case 2: nextGroup(); return done('s', ".");
    case 3: --cur; state = New; return done('p', ",");
    case 4:
      meanings = !meanings;
      state = Again;
      return done('m', "-");
    case 5: state = Repeat; return done('i', invalid(choices(), false));
    case 6:
      state = answers.size() == 1 ? EditWhat : EditWhich;
      entry = 0;
      return done('e', "*");
    case 7: state = Again; return done('r', "'");
    case 8: ended = true; return done('q', "/");
    default: return end();
    }
    // answer
    const auto useGood{!good.empty() && (bad.empty() || !g.chance(1, right_ + 1))};
    const auto c{g.pick(useGood ? good : bad)};
    answers.push_back(position(c));
    state = Main;
    const auto r{done(useGood ? 'c' : 'w', S(1, c))};
    check();
    return r;
  }

  std::optional<S> edit1() {
    if (++prompts > maxPrompts) return end();
    if (g.chance(1, 8)) return done('i', invalid(which(), false));
    entry = g.below(static_cast<uint32_t>(answers.size()));
    state = EditWhat;
    return done('1', S(1, letter(answers[entry])));
  }

  std::optional<S> edit2() {
    if (++prompts > maxPrompts) return end();
    const auto c{letters(entry)};
    switch (g.weighted({6, 2, 1})) {
    case 0:
      answers[entry] = position(g.pick(c).first);
      state = Main;
      return done('2', S(1, letter(answers[entry])));
    case 1: state = Main; return done('d', "");
    default: return done('i', invalid(c, true));
    }
  }

  S done(char kind, const S& line) {
    actions += kind;
    kinds.insert(kind);
    return line;
  }

  std::vector<const dict::ModelGroup*> known;
  S text, feedback;
  size_t at{};
  State state{New};
  bool started{}, ended{}, eof{};
  unsigned cur{}, first{}, right{};
  uint32_t right_{};
  V wrong;
  V questions, readings, lines; // names, readings and lines as shown (with meanings)
  std::vector<size_t> answers;
  size_t entry{};
  size_t prompts{}, maxPrompts{};
};

using Buckets = std::map<const dict::ModelGroup*, int>;

void play(pbt::Ctx& c, const World& w, const Buckets& buckets) {
  auto& g{c.g};
  if (w.meaning.empty() || w.pattern.empty()) throw pbt::Discard{};
  S desc;
  Session* current{};
  quiz::Player player{w.l->out, [&](const S& s) { return current->next(s); }};
  const auto finish{[&](const Session& s) {
    desc += " actions " + s.actions + '\n';
    c.describe(desc);
    for (auto i : s.kinds) c.label(S{"action "} + i);
    if (s.kinds.size() > 2 && s.actions.size() > 3) c.nontrivial(desc);
    if (s.order == 'r') c.label("random order");
    if (s.largest > 26 && s.quizMode) c.label("over 26 members");
  }};
  if (g.boolean()) { // options
    Session s{g, w, buckets};
    current = &s;
    V args;
    const bool withType{g.boolean()};
    if (const auto m{s.modeOption()}; !m.empty() && (g.chance(3, 4) || s.question)) {
      args.push_back(m);
      if (!s.question && s.order != 'r' && !s.groups.empty()) s.question = 1;
      if (s.groups.empty() && s.order != 'r') args.back() = args.back().substr(0, args.back().size() - 1) + "00"; // number 0, in order
      s.addMenus(false, false, false, !withType);
    } else if (s.question = 0; g.boolean()) {
      args.push_back(s.quizMode ? "-t" : "-r");
      s.addMenus(false, true, false, !withType);
    } else
      s.addMenus(true, true, false, !withType);
    args.push_back(S{"-"} + (s.pattern ? 'p' : 'm') + (withType ? S(1, s.type) : S{}));
    if (s.meanings) args.push_back("-s");
    g.shuffle(args);
    desc = "options " + dict::join(args, " ") + ": " + s.describe();
    c.describe(desc);
    std::vector<const char*> argv{"program"};
    for (auto& i : args) argv.push_back(i.c_str());
    const auto error{player.play([&] {
      QuizLauncher{Args{static_cast<Args::Size>(argv.size()), argv.data()}, w.l->data, w.groups, w.jukugo, &player.stream};
    })};
    s.finish(error, player.tail());
    finish(s);
    return;
  }
  QuizLauncher launcher{{}, w.l->data, w.groups, w.jukugo, &player.stream};
  for (auto n{1 + g.below(3)}; n; --n) {
    w.l->out.str("");
    Session s{g, w, buckets};
    current = &s;
    const bool typ{g.boolean()}, lst{g.boolean()};
    s.randomize = !g.chance(1, 3);
    s.addMenus(true, true, !typ, !lst);
    desc += "menus " + s.describe();
    c.describe(desc);
    using O = QuizLauncher::OptChar;
    const auto error{player.play([&] {
      launcher.start(typ ? O{s.pattern ? 'p' : 'm'} : O{}, lst ? O{s.type} : O{}, static_cast<QuizLauncher::Question>(s.question), s.meanings,
          s.randomize);
    })};
    s.finish(error, player.tail());
    finish(s);
    if (error) return; // (the launcher isn't usable any more)
  }
}

// give pattern groups readings in the order of the menu: every row up to some
// row starts with a group named after its first Katakana
Buckets addReadings(pbt::Gen& g, dict::Groups& groups) {
  static const std::vector<V> rows{{"ア", "イ", "エン", "オウ"}, {"カ", "キ", "ガ", "コク"}, {"サ", "シ", "ジュ", "ソウ"},
      {"タ", "チ", "ダ", "ナ", "ノウ"}, {"ハ", "ヒ", "バ", "マ", "モク"}, {"ヤ", "ユ", "ラ", "レイ", "ワ"}};
  Buckets r;
  size_t row{g.below(2)};
  bool first{row > 0};
  for (auto& i : groups) {
    if (row < 5 && !first && g.chance(1, 3)) {
      ++row;
      first = true;
    }
    auto reading{first ? rows[row][0] + (g.boolean() ? "ン" : "") : g.pick(rows[row])};
    if (g.boolean()) reading += "、" + g.pick(rows[g.below(6)]);
    if (i.pattern == dict::ReadingGroup && first) i.pattern = dict::Peer;
    if (i.pattern == dict::Family)
      i.name = i.name.substr(0, i.name.find("：")) + "：" + reading;
    else
      i.name = (i.pattern == dict::Peer ? "：" : "") + reading;
    first = false;
    r[&i] = static_cast<int>(row);
  }
  return r;
}

} // namespace

PBT_SUB(generated, 5000, 100000) {
  auto& g{c.g};
  auto w{std::make_unique<World>()};
  dict::Maker maker{g};
  w->d = maker.make(g.boolean() ? dict::Options{15, 5, 5, 10} : dict::Options{40, 25, 20, 30});
  w->m = dict::model(w->d);
  w->meaning = dict::meaningGroups(g, w->m, 8);
  w->pattern = dict::patternGroups(g, w->m, 12);
  const auto buckets{addReadings(g, w->pattern)};
  w->d.meaningGroups = dict::groupFile(w->meaning);
  w->d.patternGroups = dict::groupFile(w->pattern);
  w->f = dict::files(w->d);
  w->load();
  play(c, *w, buckets);
}

PBT_SUB(shipped, 2000, 60000) {
  static const auto buckets{[] {
    Buckets r;
    int row{};
    for (auto& i : shipped->pattern) {
      // readings of groups without a colon don't start a row
      if (const auto j{i.name.find("：")}; j != S::npos) row = std::max(row, rowOf(i.name.substr(j + 3)));
      r[&i] = row;
    }
    return r;
  }()};
  play(c, *shipped, buckets);
}
