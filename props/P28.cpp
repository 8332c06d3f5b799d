// libs: quiz kanji
#include "fixed_random.h"
#include "quiz.h"

using namespace kanji_tools;
using dict::S, dict::V, quiz::World;

const pbt::Info pbt::info{"P28",
    "argument lists of the quiz program over generated and shipped Kanji data: "
    "every way to name a Kanji (character, compatibility character, variation "
    "selector, Unicode, Morohashi, Nelson, frequency) compared with the report "
    "expected from the data files, well-formed and malformed options compared "
    "with a model of their syntax, and sessions started from options compared "
    "with the same session started from menus; non-trivial = a report for a "
    "Kanji, an error after a valid argument or a session that reached a "
    "question, distinct by arguments and case"};

namespace {

std::unique_ptr<World> shipped;
const pbt::InitHook hook{[] {
  shipped = quiz::shippedWorld("/repo/data");
  shipped->load();
}};

// ---- lookup

struct Expected {
  bool error{};
  S text; // printed, or the error message
};

Expected bad(const S& s) { return {true, s}; }

bool digits(const S& s) {
  return std::all_of(s.begin(), s.end(), [](char c) { return c >= '0' && c <= '9'; });
}
// value of digits, up to 10 million
unsigned value(const S& s) {
  unsigned r{};
  for (auto c : s) r = std::min(10000000U, r * 10 + static_cast<unsigned>(c - '0'));
  return r;
}

const S Sources{"Sources: G=China / Singapore, H=Hong Kong, J=Japan, K=Korea, T=Taiwan, V=Vietnam\n\n"};

S legend() { return World::legend(true, true, true); }

S report(const World& w, const S& arg) {
  S r{arg + " ["};
  for (auto c : ref::decode(arg)) {
    char b[16];
    std::snprintf(b, sizeof b, "%04X", c);
    r += (r.ends_with('[') ? "" : " ") + S{b};
  }
  r += ']';
  dict::findUcd(w.d, "");
  const auto* u{dict::findUcd(w.d, arg)};
  if (!u) return r + " --- Not found in 'ucd.txt'\n";
  r += ", Blk " + u->block + ", Ver " + u->version;
  if (auto s{u->sources}; !s.empty()) {
    std::sort(s.begin(), s.end());
    r += ", Sources " + s;
    if (!u->jsource.empty()) r += " (" + u->jsource + ')';
  }
  const auto* k{w.m.find(arg)};
  if (!k) return r + " --- Kanji not loaded'\n";
  r += w.typeInfo(k->name) + '\n' + w.kanji(k->name)->info();
  if (!k->meaning.empty()) r += "\n    Meaning: " + k->meaning;
  return r + '\n' + w.details(k->name);
}

Expected matches(const World& w, const std::set<S>& names, const KanjiData::List& l, const S& type, const S& id) {
  // (the order isn't defined)
  const auto found{dict::names(l)};
  PBT_EQ(dict::asSet(found), names, type, ' ', id);
  PBT_EQ(found.size(), names.size(), type, ' ', id);
  if (names.size() == 1) return {false, legend() + Sources + report(w, found[0])};
  S r;
  if (!names.empty()) r = legend() + '\n';
  r += pbt::cat("Found ", names.size(), " matches for ", type, " ID ", id, names.empty() ? "\n" : ":\n\n");
  for (auto& i : found) r += report(w, i);
  return {false, r};
}

Expected morohashi(const World& w, const S& id) {
  auto s{id};
  S prefix, suffix;
  if (s.ends_with("PP") || s.ends_with("''"))
    suffix = "PP", s.resize(s.size() - 2);
  else if (s.ends_with('P') || s.ends_with('\''))
    suffix = "P", s.resize(s.size() - 1);
  else if (s.starts_with('H'))
    prefix = "H", s.erase(0, 1);
  const auto error{[&](const S& e) { return bad("Morohashi ID '" + id + "' " + e); }};
  if (s.empty() && !id.empty()) return error("is invalid");
  unsigned n{};
  for (auto c : s) {
    if (c < '0' || c > '9') return error("is non-numeric");
    n = n * 10 + static_cast<unsigned>(c - '0');
    if (n > 65535) return error("exceeds max");
  }
  if (!n && !(prefix + suffix).empty()) return error("can't be zero");
  const auto text{n ? prefix + std::to_string(n) + suffix : S{}};
  const auto i{w.m.morohashi.find(text)};
  return matches(w, i == w.m.morohashi.end() ? std::set<S>{} : i->second, w.data().findByMorohashiId(text), "Morohashi", text);
}

bool isKanjiArg(const S& arg) {
  const auto c{ref::decode(arg)};
  if (c.empty() || c.size() > 2 || (c.size() == 2 && !ref::isVS(c[1]))) return false;
  return ref::in(c[0], ref::CommonKanji) || ref::in(c[0], ref::RareKanji);
}

Expected lookup(const World& w, const S& arg) {
  const auto single{[&](const S& name) { return Expected{false, legend() + Sources + report(w, name)}; }};
  if (digits(arg)) {
    const auto n{value(arg)};
    if (arg.empty() || n > 65535) return bad("invalid frequency '" + arg + "'");
    if (!n || n > w.m.freq.size()) return bad("Kanji not found for frequency '" + arg + "'");
    return single(w.m.freq[n - 1]);
  }
  const auto id{arg.substr(1)};
  switch (arg[0]) {
  case 'm': return morohashi(w, id);
  case 'n': {
    if (id.empty() || !digits(id)) return bad("Nelson ID '" + id + "' is non-numeric");
    const auto n{value(id)};
    if (n > 65535) return bad("invalid Nelson ID '" + id + "'");
    const auto i{w.m.nelson.find(n)};
    return matches(w, i == w.m.nelson.end() ? std::set<S>{} : i->second, w.data().findByNelsonId(static_cast<Kanji::NelsonId>(n)), "Nelson", id);
  }
  case 'u': {
    if (!std::all_of(id.begin(), id.end(), [](char c) { return (c >= '0' && c <= '9') || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F'); }) ||
        !(id.size() == 4 || (id.size() == 5 && (id[0] == '1' || id[0] == '2'))))
      return bad("Unicode value '" + id + "' is invalid");
    const auto code{static_cast<unsigned>(std::stoul(id, nullptr, 16))};
    return single(ref::enc(ref::isScalar(code) ? code : 0xfffd));
  }
  default: break;
  }
  if (isKanjiArg(arg)) return single(arg);
  return bad("unrecognized 'kanji' value '" + arg + "', use -h for help");
}

S zeros(pbt::Gen& g) { return g.chance(1, 5) ? S(1 + g.below(4), '0') : S{}; }

S hexArg(pbt::Gen& g, unsigned c) {
  char b[16];
  std::snprintf(b, sizeof b, "u%04x", c);
  S r{b};
  for (size_t i{1}; i < r.size(); ++i)
    if (g.boolean()) r[i] = static_cast<char>(std::toupper(r[i]));
  return r;
}

// an argument that names a Kanji or is close to one
S kanjiArg(pbt::Gen& g, const World& w) {
  const auto anyId{[&](const auto& m, const S& prefix) {
    if (m.empty() || g.chance(1, 6)) return prefix + std::to_string(g.number(70000));
    return prefix + zeros(g) + [](const auto& x) {
      if constexpr (std::is_same_v<std::decay_t<decltype(x)>, S>)
        return x;
      else
        return std::to_string(x);
    }(g.pick(m).first);
  }};
  switch (g.weighted({6, 4, 6, 6, 5, 5, 5})) {
  case 0: { // character
    S s{w.m.all.empty() || g.chance(1, 8) ? ref::enc(g.pick({0x4e00U, 0xf900U, 0x3400U, 0x20000U, 0x2e80U, 0x2a700U}) + g.below(64)) : g.pick(w.m.all).first};
    if (g.chance(1, 8)) s += ref::enc(0xfe00 + g.below(16));
    return s;
  }
  case 1: return w.m.compat.empty() ? S{"一"} : g.pick(w.m.compat).first;
  case 2: { // Unicode
    if (w.m.all.empty() || g.chance(1, 8)) return hexArg(g, 1 + g.number(0x2fffe));
    return hexArg(g, ref::decode(g.chance(1, 4) && !w.m.compat.empty() ? g.pick(w.m.compat).first : g.pick(w.m.all).first)[0]);
  }
  case 3: {
    auto s{anyId(w.m.morohashi, "m")};
    if (s.size() > 2 && s.find('H') != S::npos) { // zeros after H
      s.erase(s.find('H'), 1);
      s.insert(1, "H");
    }
    if (g.chance(1, 3))
      std::replace(s.begin(), s.end(), 'P', '\'');
    if (g.chance(1, 6)) s += g.pick({"P", "PP", "'", "''", "H"});
    return s;
  }
  case 4: return anyId(w.m.nelson, "n");
  case 5: { // frequency
    if (w.m.freq.empty() || g.chance(1, 8)) return std::to_string(g.pick({0U, 300U, 1000U, 2000U, 2501U, 2502U, 2503U, 65535U, 65536U, 65537U, 131073U, 999999999U}));
    return zeros(g) + std::to_string(1 + g.below(static_cast<uint32_t>(w.m.freq.size())));
  }
  default: { // malformed
    auto s{g.pick<S>({"", "m", "n", "u", "mH", "mP", "mPP", "m'P", "m0", "m00", "mH0", "m0P", "m12345678901", "m65535", "m65536", "m-1", "m+1", "m 1", "m1 ",
        "nH1", "n-1", "n 1", "n1 ", "n65535", "n65536", "n0", "u4e0", "u04e00", "u30000", "u323af", "u3ffff", "u10000", "u34e00", "u14e0", "u24e0g", "u 4e0", "u+4e0", "u-4e0", "u0x4e", "ud800",
        "udfff", "uffff", "u0041", "u0001", "u12345", "u2ffff", "uu4e00", "1.0", "+1", "1 ", " 1", "1e1", "0x1", "x", "一一", "一二三", "あ", "ア", "a一",
        "一a", "\xe4\xb8", "\xe4\xb8\x80\xef\xb8", "ー", "々", "、", "😀", "U4e00", "M1", "N1", "-", "mm1"})};
    if (g.chance(1, 4)) s = g.dictString();
    if (g.chance(1, 8)) s += g.pick({"1", "P", " ", "一", "a"});
    return s;
  }
  }
}

bool usable(const S& arg) {
  if (arg.find('\0') != S::npos || arg == "u0000" || arg == "-data" || arg == "-debug" || arg == "-info") return false;
  return true;
}

// ---- options

struct Parsed {
  std::optional<bool> quizMode;
  std::optional<char> order, type, list;
  unsigned question{};
  bool meanings{};
  std::optional<Expected> result; // set if no quiz is started
  bool help{};
};

const S UseHelp{", use -h for help"};

Parsed parse(const World& w, const V& args) {
  Parsed r;
  bool end{};
  for (auto& a : args) {
    if (end || a.size() < 2 || a[0] != '-') {
      r.result = lookup(w, a);
      return r;
    }
    if (a == "-h") {
      r.help = true;
      return r;
    }
    if (a == "--") {
      end = true;
      continue;
    }
    if (a == "-s") {
      r.meanings = true;
      continue;
    }
    const S opt{a.substr(0, 2)}, rest{a.substr(2)};
    const auto fail{[&](const S& s) { r.result = bad(s); }};
    switch (a[1]) {
    case 'r':
    case 't':
      if (r.quizMode)
        fail("only one mode (-r or -t) can be specified" + UseHelp);
      else {
        r.quizMode = a[1] == 't';
        if (rest.empty()) break;
        if (rest == "0") {
          r.order = 'r';
          break;
        }
        const auto n{rest[0] == '-' || rest[0] == '+' ? rest.substr(1) : rest};
        r.order = rest[0] == '-' ? 'e' : 'b';
        if (n.empty() || !digits(n))
          fail("invalid format for '" + opt + '\'' + UseHelp);
        else if (r.question = value(n); r.question > 65535)
          fail("value for '" + opt + "' exceeds limit");
      }
      break;
    case 'f':
    case 'g':
    case 'k':
    case 'l':
    case 'm':
    case 'p': {
      static const std::map<char, S> lists{{'f', "0123456789"}, {'g', "123456s"}, {'k', "123456789abc"}, {'l', "12345"}, {'m', "1234"}, {'p', "1234"}};
      if (r.type)
        fail("only one quiz type can be specified" + UseHelp);
      else {
        r.type = a[1];
        if (rest.empty()) break;
        if (rest.size() > 1 || lists.at(a[1]).find(rest[0]) == S::npos)
          fail("invalid format for '" + opt + '\'' + UseHelp);
        else
          r.list = rest[0];
      }
      break;
    }
    default: fail("illegal option '" + a + '\'' + UseHelp);
    }
    if (r.result) return r;
  }
  return r;
}

S optionArg(pbt::Gen& g) {
  switch (g.weighted({5, 6, 2, 1, 1, 3, 2})) {
  case 0: return S{g.pick({"-r", "-t"})} + g.pick({"", "", "0", "1", "+1", "-1", "5", "-3", "+0", "00", "65535", "-65535"});
  case 1: {
    S s{"-"};
    s += g.pick({'f', 'g', 'k', 'l', 'm', 'p'});
    if (g.chance(2, 3)) s += g.pick({'1', '2', '3', '4', '5', '0', '6', '9', 's', 'a', 'b', 'c'});
    return s;
  }
  case 2: return "-s";
  case 3: return "--";
  case 4: return g.pick({"-h", "-hs", "-sh", "-H", "--help"});
  case 5: { // malformed number or list
    S s{"-"};
    s += g.pick({'r', 't', 'f', 'g', 'k', 'l', 'm', 'p'});
    s += g.pick<S>({"65536", "+65536", "-65536", "99999999999999999999", "-", "+", "--1", "+-1", "1a", "a", "1 ", " 1", "1.5", "0x1", "٣", "s", "d", "10", "7", "00", "\xff", "=1", "-f", "１"});
    return s;
  }
  default: {
    S s{"-"};
    s += static_cast<char>('!' + g.below(94));
    if (g.boolean()) s += g.dictString().substr(0, 6);
    return s;
  }
  }
}

V strip(const V& args) {
  V r;
  for (auto& i : args)
    if (i != "-info" && i != "-debug") r.push_back(i);
  return r;
}

V addSkipped(pbt::Gen& g, V args) { // options that the quiz ignores
  for (auto n{g.chance(1, 5) ? 1 + g.below(2) : 0}; n; --n) {
    const auto at{args.begin() + g.below(static_cast<uint32_t>(args.size()) + 1)};
    args.insert(at, g.boolean() ? "-info" : "-debug"); // the data decides what is printed
  }
  return args;
}

struct Run {
  std::optional<S> error;
  S text;       // everything printed
  size_t lines; // read
};

Run run(const World& w, const V& args, const V& input, std::optional<unsigned> question = {}, bool meanings = {}) {
  size_t at{};
  S all;
  quiz::Player player{w.l->out, [&](const S& s) -> std::optional<S> {
                        all += s;
                        if (at == input.size()) return {};
                        return input[at++];
                      }};
  std::vector<const char*> argv{"program"};
  for (auto& i : args) argv.push_back(i.c_str());
  const auto error{player.play([&] {
    QuizLauncher l{Args{static_cast<Args::Size>(argv.size()), argv.data()}, w.l->data, w.groups, w.jukugo, &player.stream};
    if (question) l.start({}, {}, static_cast<QuizLauncher::Question>(*question), meanings);
  })};
  return {error, all + player.tail(), at};
}

void checkLookup(pbt::Ctx& c, const World& w) {
  auto& g{c.g};
  S desc;
  bool odd{};
  for (auto n{1 + g.below(6)}; n; --n) {
    const auto arg{kanjiArg(g, w)};
    if (!usable(arg)) continue;
    V args;
    const bool dash{arg.size() > 1 && arg[0] == '-'};
    for (auto k{g.chance(1, 4) ? 1 + g.below(3) : 0}; k; --k) args.push_back(optionArg(g));
    if (dash) args.push_back("--");
    args.push_back(arg);
    if (g.chance(1, 10)) args.push_back(g.boolean() ? optionArg(g) : kanjiArg(g, w));
    if (std::find(args.begin(), args.end(), "-data") != args.end()) continue;
    args = addSkipped(g, args);
    desc += dict::join(args, " ") + '\n';
    c.describe(desc);
    const auto r{run(w, args, {})};
    const auto plain{strip(args)};
    const auto p{parse(w, plain)};
    if (p.help) {
      c.label("help");
      PBT_CHECK(r.text.starts_with("kanjiQuiz [-"), "help is ", r.text.substr(0, 100));
      PBT_EQ(r.error.value_or("none"), "none", "error");
      continue;
    }
    if (!p.result) {
      // only if '--' was followed by nothing, can't happen here
      pbt::fail("no result for " + dict::join(args, " "));
    }
    if (p.result->error) {
      c.label("error");
      PBT_EQ(r.error.value_or("none"), p.result->text, "error for ", dict::join(args, " "));
      PBT_EQ(r.text, "", "printed for an error");
      odd = odd || plain.size() > 1;
    } else {
      PBT_EQ(r.error.value_or("none"), "none", "error for ", dict::join(args, " "));
      PBT_EQ(r.text, p.result->text, "report for ", dict::join(args, " "));
      c.label(S{"report "} + (arg[0] == 'm' || arg[0] == 'n' || arg[0] == 'u' ? S(1, arg[0]) : digits(arg) ? "frequency" : "character"));
      if (r.text.find("    Reading: ") != S::npos) {
        c.label("found");
        odd = true;
      }
    }
    PBT_EQ(r.lines, 0U, "lines read");
  }
  if (odd) c.nontrivial(desc);
}

// ---- sessions

S noReading(const World& w, char type, char list) {
  for (auto& i : w.list(type, list))
    if (w.m.all.at(i).reading.empty()) return i;
  return {};
}

size_t listSize(const World& w, char type, char list) { return w.list(type, list).size(); }

struct Menu {
  S prompt;
  char answer;
  char def; // 0 if none
};

std::vector<Menu> menus(const Parsed& p, bool quizMode, char order, char type, char list, char choices, char style, char pattern) {
  std::vector<Menu> r;
  if (!p.quizMode) r.push_back({"Mode (/=quit, r=review, t=test) def 't': ", quizMode ? 't' : 'r', 't'});
  if (!p.order) r.push_back({"List order (/=quit, b=from beginning, e=from end, r=random) def 'r': ", order, 'r'});
  if (!p.type) r.push_back({"Type (/=quit, f=freq, g=grade, k=kyu, l=JLPT, m=meaning, p=pattern) def 'g': ", type, 'g'});
  if (!p.list) switch (type) {
    case 'f': r.push_back({"Choose frequency list (/=quit, 0=top 250 Kanji, 1-9): ", list, 0}); break;
    case 'g': r.push_back({"Choose grade (/=quit, 1-6, s=Secondary School) def '6': ", list, '6'}); break;
    case 'k': r.push_back({"Choose kyu (/=quit, 1-9, a=10, b=準１級, c=準２級) def '2': ", list, '2'}); break;
    case 'l': r.push_back({"Choose level (/=quit, 1=N1, 2=N2, 3=N3, 4=N4, 5=N5): ", list, 0}); break;
    default: r.push_back({"Kanji type (/=quit, 1=Jōyō, 2=1+JLPT, 3=2+Freq., 4=all) def '2': ", list, '2'});
    }
  if (type == 'p')
    r.push_back({"Pattern name (/=quit, 1=ア, 2=カ, 3=サ, 4=タ、ナ, 5=ハ、マ, 6=ヤ、ラ、ワ) def '1': ", pattern, '1'});
  if (type != 'm' && type != 'p' && quizMode) {
    r.push_back({"Number of choices (/=quit, 2-9) def '4': ", choices, '4'});
    r.push_back({"Quiz style (/=quit, k=kanji to reading, r=reading to kanji) def 'k': ", style, 'k'});
  }
  return r;
}

// play through the menus of 'm' with some unusable lines; returns what should
// be printed before the first prompt that isn't a menu or nothing if the menus
// were left
struct Script {
  V lines;
  S shown;
  bool quit{};
  std::optional<S> error;
};

Script script(pbt::Gen& g, const std::vector<Menu>& m, bool mayStop) {
  Script r;
  bool eof{};
  for (auto& i : m) {
    if (eof) {
      r.shown += i.prompt;
      if (!i.def) {
        r.error = "no more input to get a choice from";
        return r;
      }
      continue;
    }
    for (auto n{g.chance(1, 10) ? 1 + g.below(2) : 0}; n; --n) {
      r.shown += i.prompt;
      S s{g.pick({"?", "tt", "  ", "あ", "-", ".", "\t", "G"})};
      if (!i.def && g.boolean()) s = "";
      r.lines.push_back(s);
    }
    r.shown += i.prompt;
    if (mayStop && g.chance(1, 12)) {
      r.lines.push_back("/");
      r.quit = true;
      return r;
    }
    r.lines.push_back(i.answer == i.def && g.boolean() ? S{} : S(1, i.answer));
  }
  return r;
}

void checkSession(pbt::Ctx& c, const World& w) {
  auto& g{c.g};
  // what to start
  const bool quizMode{g.boolean()}, meanings{g.chance(1, 4)};
  const char order{g.pick({'b', 'e', 'r'})}, type{g.pick({'f', 'g', 'k', 'l', 'm', 'p'})};
  static const std::map<char, S> lists{{'f', "0123456789"}, {'g', "123456s"}, {'k', "123456789abc"}, {'l', "12345"}, {'m', "1234"}, {'p', "1234"}};
  const auto& all{lists.at(type)};
  char list{g.pick(all)};
  if (type != 'm' && type != 'p')
    for (int n{}; n < 4 && w.list(type, list).size() < 2; ++n) list = g.pick(all);
  const bool groups{type == 'm' || type == 'p'};
  if (groups ? w.meaning.empty() || w.pattern.empty() : w.list(type, list).empty() || !noReading(w, type, list).empty()) throw pbt::Discard{};
  const auto choices{static_cast<char>('2' + g.below(8))}, style{g.pick({'k', 'r'})}, pattern{static_cast<char>('1' + g.below(6))};
  unsigned question{g.boolean() ? 1 + g.below(4) : 0};
  // with options
  V args;
  const bool optMode{g.chance(3, 4)}, optOrder{optMode && (question || order != 'r') && order != 'r' && g.boolean()}, optRandom{optMode && order == 'r' && g.boolean()};
  if (!optOrder) question = 0;
  if (optMode) {
    S s{quizMode ? "-t" : "-r"};
    if (optRandom) s += '0';
    if (optOrder) s += (order == 'e' ? "-" : g.boolean() ? "+" : question ? "" : "0") + zeros(g) + std::to_string(question);
    args.push_back(s);
  }
  const bool optList{g.boolean()};
  args.push_back(S{"-"} + type + (optList ? S(1, list) : S{}));
  if (meanings) args.push_back("-s");
  g.shuffle(args);
  args = addSkipped(g, args);
  const auto plain{strip(args)};
  const auto p{parse(w, plain)};
  const auto name{pbt::cat(dict::join(args, " "), " (", quizMode ? "quiz" : "review", " order ", order, " type ", type, " list ", list, " choices ", choices, " style ",
      style, " pattern ", pattern, " question ", question, ')')};
  c.describe(name);
  if (p.result || p.help) pbt::fail("check is wrong: " + name);
  const bool stop{g.chance(1, 4)};
  const auto a{script(g, menus(p, quizMode, order, type, list, choices, style, pattern), stop)};
  V rest;
  if (!a.quit && !a.error)
    for (auto n{g.size(10)}; n; --n) rest.push_back(g.pick({".", "1", "2", "-", "a", ",", "?", "", "b", "3"}));
  const bool quit{g.boolean()};
  if (quit) rest.push_back("/");
  auto input{a.lines};
  if (!a.quit && !a.error) input.insert(input.end(), rest.begin(), rest.end());
  const auto ra{run(w, args, input)};
  PBT_CHECK(ra.text.starts_with(a.shown), "menus printed ", pbt::show(ra.text.substr(0, a.shown.size() + 40)), ", expected ", pbt::show(a.shown));
  if (a.quit || a.error) {
    // (a quiz already exists when choosing a pattern)
    const auto score{type == 'p' && quizMode && a.shown.ends_with("def '1': ") ? "\nFinal score: 0/0\n" : ""};
    PBT_EQ(ra.text, a.shown + score, "text when quitting a menu");
    PBT_EQ(ra.error.value_or("none"), a.error.value_or("none"), "error");
    PBT_EQ(ra.lines, a.lines.size(), "lines read");
    c.label("left a menu");
    return;
  }
  const auto after{ra.text.substr(a.shown.size())};
  PBT_CHECK((groups && (after.empty() || after.starts_with("\nFinal score: 0/0\n"))) || listSize(w, type, list) < question || after.starts_with(">>>\n>>> Starting " + S{quizMode ? "quiz" : "review"} + " for "), "started with ", after.substr(0, 100));
  // all from menus
  Parsed none;
  const auto b{script(g, menus(none, quizMode, order, type, list, choices, style, pattern), false)};
  auto input2{b.lines};
  input2.insert(input2.end(), rest.begin(), rest.end());
  if (order == 'r') {
    // only compare the start (the order depends on the random source)
    const auto rb{run(w, {}, input2, question, meanings)};
    const auto header{after.substr(0, after.find("\n>>>\n") + 5)};
    PBT_CHECK(rb.text.starts_with(b.shown + header), "from menus: ", pbt::show(rb.text.substr(0, b.shown.size() + 200)), ", expected ", pbt::show(b.shown + header));
    c.label("random order");
  } else {
    // answers are placed randomly unless started by a test: compare what doesn't depend on it
    const auto rb{run(w, {}, input2, question, meanings)};
    PBT_CHECK(rb.text.starts_with(b.shown), "menus printed ", pbt::show(rb.text.substr(0, b.shown.size() + 40)), ", expected ", pbt::show(b.shown));
    const auto line{[&](const S& s) { return s.substr(0, std::min({s.find("    1."), s.find("   1:"), s.find("\n\n", s.find("1/"))})); }};
    const auto x{line(after)}, y{line(rb.text.substr(b.shown.size()))};
    if (style == 'k' || !quizMode || type == 'm' || type == 'p')
      PBT_EQ(x, y, "session from options and from menus, input ", dict::join(rest, " "));
    if (!quizMode) PBT_EQ(after, rb.text.substr(b.shown.size()), "review from options and from menus");
    if (!quizMode) PBT_EQ(ra.error.value_or("none"), rb.error.value_or("none"), "error");
  }
  if (after.find("1/") != S::npos || after.find("Question") != S::npos) {
    c.label(pbt::cat("started ", type));
    c.nontrivial(name);
  }
}



} // namespace

PBT_SUB(lookup, 5000, 100000) {
  const auto w{quiz::make(c.g, c.g.boolean() ? dict::Options{} : dict::Options{25, 15, 10, 20}, c.g.chance(1, 4) ? 9 : 4, 12)};
  c.describe(quiz::show(*w));
  w->load();
  checkLookup(c, *w);
}

PBT_SUB(lookupShipped, 5000, 200000) { checkLookup(c, *shipped); }

// any argument list
PBT_SUB(options, 6000, 100000) {
  auto& g{c.g};
  V args;
  for (auto n{1 + g.below(5)}; n; --n) args.push_back(g.chance(1, 8) ? kanjiArg(g, *shipped) : optionArg(g));
  for (auto& i : args)
    if (!usable(i)) throw pbt::Discard{};
  for (auto& i : args) i = i.substr(0, i.find('\0'));
  const auto name{dict::join(args, " ")};
  c.describe(name);
  const auto p{parse(*shipped, strip(args))};
  const auto r{run(*shipped, args, {})};
  if (p.help)
    PBT_CHECK(r.text.starts_with("kanjiQuiz [-"), "help is ", r.text.substr(0, 100));
  else if (p.result) {
    PBT_EQ(r.error.value_or("none"), p.result->error ? p.result->text : "none", "error");
    PBT_EQ(r.text, p.result->error ? S{} : p.result->text, "printed");
    c.label(p.result->error ? "error" : "report");
    if (args.size() > 1) c.nontrivial(name);
  } else if (!p.type) {
    PBT_EQ(r.error.value_or("none"), "none", "error");
    PBT_EQ(r.text, "", "printed");
  } else {
    // defaults for everything that has one
    S shown;
    const bool quizMode{p.quizMode.value_or(true)};
    const std::map<char, char> defs{{'g', '6'}, {'k', '2'}, {'m', '2'}, {'p', '2'}};
    const auto i{defs.find(*p.type)};
    const auto list{p.list ? *p.list : i == defs.end() ? '\0' : i->second};
    S error{"no more input to get a choice from"};
    bool started{true};
    for (auto& m : menus(p, quizMode, p.order.value_or('r'), *p.type, list, '4', 'k', '1')) {
      shown += m.prompt;
      if (!m.def) {
        started = false;
        break;
      }
    }
    PBT_CHECK(r.text.starts_with(shown), "menus printed ", pbt::show(r.text), ", expected ", pbt::show(shown));
    if (!started) {
      PBT_EQ(r.text, shown, "printed");
      PBT_EQ(r.error.value_or("none"), error, "error");
    } else {
      const auto rest{r.text.substr(shown.size())};
      if (*p.type != 'm' && *p.type != 'p') {
        const auto n{listSize(*shipped, *p.type, list)};
        if (p.question > n && noReading(*shipped, *p.type, list).empty()) {
          PBT_EQ(r.error.value_or("none"), pbt::cat("entry num '", p.question, "' is larger than total questions: ", n), "error");
          PBT_CHECK(rest.empty() || rest.starts_with("\nFinal score: 0/0"), "printed ", rest);
        } else if (!noReading(*shipped, *p.type, list).empty()) {
          PBT_EQ(r.error.value_or("none"), noReading(*shipped, *p.type, list) + " has no reading", "error");
        } else {
          PBT_CHECK(rest.starts_with(pbt::cat(">>>\n>>> Starting ", quizMode ? "quiz" : "review", " for ", n, " kanji\n>>>\n")), "printed ", rest.substr(0, 100));
          PBT_EQ(r.error.value_or("none"), error, "error");
        }
      } else if (!rest.empty() && r.error == error)
        PBT_CHECK(rest.starts_with(S{">>>\n>>> Starting "} + (quizMode ? "quiz" : "review") + " for "), "printed ", rest.substr(0, 100));
      c.label("started");
      c.nontrivial(name);
    }
  }
}

PBT_SUB(session, 3000, 60000) {
  const auto w{quiz::make(c.g, c.g.boolean() ? dict::Options{} : dict::Options{25, 15, 10, 20}, 6, 6)};
  w->load();
  checkSession(c, *w);
}

PBT_SUB(sessionShipped, 2000, 40000) { checkSession(c, *shipped); }
