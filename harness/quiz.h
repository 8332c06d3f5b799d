// A generated (or the shipped) data directory with groups and compound words,
// the text expected for Kanji details, and a player for interactive sessions.
#pragma once

#include "groups.h"
#include "kload.h"
#include "width.h"

#include <kt_quiz/QuizLauncher.h>
#include <kt_utils/Exception.h>

#include <exception>
#include <functional>
#include <iostream>
#include <memory>
#include <streambuf>

namespace quiz {

using dict::S, dict::V;

struct Word {
  S name, reading;
  int grade{};
  [[nodiscard]] S text() const { return name + "（" + reading + "）"; }
};

inline const V WordFiles{"g1", "g2", "g3", "g4", "g5", "g6", "other"};

// Kanji (with variation selectors) in a word
inline V kanjiOf(const S& name) {
  V r;
  const auto c{ref::decode(name)};
  for (size_t i{}; i < c.size(); ++i)
    if (ref::in(c[i], ref::CommonKanji) || ref::in(c[i], ref::RareKanji)) {
      auto s{ref::enc(c[i])};
      if (i + 1 < c.size() && ref::isVS(c[i + 1])) s += ref::enc(c[i + 1]);
      if (std::find(r.begin(), r.end(), s) == r.end()) r.push_back(s);
    }
  return r;
}

struct World {
  dict::Dict d;
  dict::Model m;
  dict::Groups meaning, pattern;
  std::map<S, std::vector<Word>> words; // by Kanji in the order loaded
  dict::Files f;
  std::unique_ptr<dict::Loaded> l;
  kanji_tools::GroupDataPtr groups;
  kanji_tools::JukugoDataPtr jukugo;

  void load(const V& options = {}) {
    l = std::make_unique<dict::Loaded>(f, options);
    finishLoad();
  }
  void finishLoad() {
    groups = std::make_shared<kanji_tools::GroupData>(l->data);
    jukugo = std::make_shared<kanji_tools::JukugoData>(l->data);
    PBT_EQ(l->err.str(), "", "no errors expected");
    l->out.str("");
  }
  [[nodiscard]] auto& data() const { return **l; }

  void index(const std::vector<Word>& w) { // 'w' without duplicates
    for (auto& i : w)
      for (auto& k : kanjiOf(i.name)) words[k].push_back(i);
  }

  // ---- expected lists

  // 'type' and 'list' as in the menus, null if there is no such list
  [[nodiscard]] V list(char type, char list) const {
    switch (type) {
    case 'f': {
      V r;
      const auto b{static_cast<size_t>(list - '0')};
      for (size_t i{b * 250}; i < m.freq.size() && (i < (b + 1) * 250 || b == 9); ++i) r.push_back(m.freq[i]);
      return r;
    }
    case 'g': return m.grades[list == 's' ? 6 : static_cast<size_t>(list - '1')];
    case 'l': return m.levels[static_cast<size_t>('5' - list)];
    default: return m.kyus[kyu(list)];
    }
  }
  // a=10, 9 .. 3, c=pre 2, 2, b=pre 1, 1
  [[nodiscard]] static size_t kyu(char c) {
    return S{"a9876543c2b1"}.find(c);
  }

  // ---- expected text

  [[nodiscard]] kanji_tools::KanjiPtr kanji(const S& name) const {
    const auto r{data().findByName(name)};
    PBT_CHECK(r, "not found: ", name);
    return r;
  }

  [[nodiscard]] S typeInfo(const S& name) const {
    auto& k{m.all.at(name)};
    S r{", " + dict::TypeNames[k.type]};
    if (const auto i{kanji(name)->extraTypeInfo()}; i) r += " (" + *i + ")";
    return r;
  }

  [[nodiscard]] S details(const S& name) const {
    auto& k{m.all.at(name)};
    S r{"    Reading: " + k.reading + '\n'};
    for (auto& i : pattern)
      if (i.pattern != dict::ReadingGroup && std::find(i.members.begin(), i.members.end(), name) != i.members.end()) {
        kanji_tools::KanjiData::List v;
        for (auto& j : i.members)
          if (j != name) v.push_back(kanji(j));
        std::sort(v.begin(), v.end(), kanji_tools::KanjiData::OrderByQualifiedName);
        r += "    Similar:";
        for (auto& j : v) r += ' ' + j->qualifiedName();
        r += '\n';
      }
    if (!k.morohashi.empty() && k.morohashi.find_first_not_of('0') != S::npos) r += "  Morohashi: " + k.morohashi + '\n';
    if (!k.nelson.empty()) {
      r += k.nelson.size() == 1 ? "  Nelson ID:" : " Nelson IDs:";
      for (auto i : k.nelson) r += ' ' + std::to_string(i);
      r += '\n';
    }
    V in;
    for (auto& i : meaning)
      if (std::find(i.members.begin(), i.members.end(), name) != i.members.end()) in.push_back('[' + i.name + ']');
    if (!in.empty()) r += (in.size() == 1 ? "   Category: " : " Categories: ") + dict::join(in, ", ") + '\n';
    if (const auto i{words.find(name)}; i != words.end()) {
      std::vector<Word> same, other;
      for (auto& j : i->second) (k.grade == j.grade ? same : other).push_back(j);
      if (k.grade < 0 || i->second.size() <= 3 || other.empty())
        r += wordList(" Jukugo", i->second);
      else
        r += wordList("Same Grade Jukugo", same) + wordList("Other Grade Jukugo", other);
    }
    return r + '\n';
  }

  static S wordList(const S& title, const std::vector<Word>& w) {
    S r{"    " + title + ':'};
    if (w.size() <= 3) {
      for (auto& i : w) r += ' ' + i.text();
      return r + '\n';
    }
    r += ' ' + std::to_string(w.size());
    size_t widths[3]{};
    for (size_t i{}; i < w.size(); ++i) widths[i % 3] = std::min<size_t>(30, std::max(widths[i % 3], ref::width(w[i].text()) + 2));
    for (size_t i{}; i < w.size(); ++i) {
      const auto s{w[i].text()};
      const auto n{ref::width(s)};
      r += (i % 3 ? "" : "\n") + s + S(widths[i % 3] > n ? widths[i % 3] - n : 0, ' ');
    }
    return r + '\n';
  }

  static S suffixLegend() {
    return ".=常用 '=JLPT \"=Freq ^=人名用 ~=LinkJ %=LinkO +=Extra @=検定 #=1級 *=Ucd";
  }
  static S legend(bool level, bool kyu, bool grade) {
    V v;
    if (level) v.push_back(" N[1-5]=JLPT Level");
    if (kyu) v.push_back(" K[1-10]=Kentei Kyu");
    if (grade) v.push_back(" G[1-6]=Grade (S=Secondary School)");
    return ">>> Legend:\nFields:" + dict::join(v, ",") + "\nSuffix: " + suffixLegend() + '\n';
  }
};

inline std::vector<Word> makeWords(pbt::Gen& g, World& w, uint32_t max) {
  std::vector<Word> r;
  auto pool{dict::names(w.m)};
  if (pool.empty()) return r;
  std::map<std::pair<S, S>, bool> done;
  static const V kana{"の", "り", "カ", "々"}, readings{"あ", "にち", "ほん", "じゃ", "っ", "ー", "ぷ", "しょうがっこう"};
  const auto few{1 + g.below(4)};
  std::array<std::vector<Word>, 7> files;
  for (auto n{g.size(max)}; n; --n) {
    Word x;
    const auto kanji{[&] { return pool[g.below(static_cast<uint32_t>(g.boolean() ? std::min<size_t>(few, pool.size()) : pool.size()))]; }};
    for (auto k{2 + g.weighted({5, 2, 1})}; k; --k) {
      x.name += kanji();
      if (g.chance(1, 6)) x.name += g.pick(kana);
    }
    for (auto k{1 + g.below(3)}; k; --k) x.reading += g.pick(readings);
    if (g.chance(1, 12)) // wider than a column
      for (auto k{g.below(10)}; k; --k) x.reading += g.pick(readings);
    x.grade = static_cast<int>(g.below(7));
    if (done.emplace(std::pair{x.name, x.reading}, true).second) files[static_cast<size_t>(x.grade)].push_back(x);
  }
  for (size_t i{}; i < 7; ++i) {
    S t;
    for (auto& j : files[i]) {
      t += i < 6 ? j.name + " (" + j.reading + ")\n" : kanjiOf(j.name)[0] + " ... " + j.name + '(' + j.reading + ")\n";
      r.push_back(j);
    }
    w.d.jukugo[WordFiles[i]] = t;
  }
  return r;
}

inline std::unique_ptr<World> make(pbt::Gen& g, const dict::Options& o, unsigned maxGroups, unsigned maxWords) {
  auto r{std::make_unique<World>()};
  dict::Maker maker{g};
  r->d = maker.make(o);
  r->m = dict::model(r->d);
  r->meaning = dict::meaningGroups(g, r->m, maxGroups);
  r->pattern = dict::patternGroups(g, r->m, maxGroups);
  r->d.meaningGroups = dict::groupFile(r->meaning);
  r->d.patternGroups = dict::groupFile(r->pattern);
  r->index(makeWords(g, *r, maxWords));
  r->f = dict::files(r->d);
  return r;
}

inline S show(const World& w) {
  S r;
  for (auto i : {"meaning-groups.txt", "pattern-groups.txt"})
    if (const auto j{w.f.find(i)}; j != w.f.end()) r += S{i} + ": " + j->second;
  return r + dict::describe(w.f);
}

inline std::unique_ptr<World> shippedWorld(const S& dir) {
  auto r{std::make_unique<World>()};
  r->d = dict::shipped(dir);
  r->m = dict::model(r->d);
  r->meaning = dict::parseGroups(r->d.meaningGroups, r->m, false);
  r->pattern = dict::parseGroups(r->d.patternGroups, r->m, true);
  std::vector<Word> all;
  std::set<std::pair<S, S>> done;
  for (size_t i{}; i < 7; ++i)
    for (auto& line : dict::split(r->d.jukugo[WordFiles[i]], '\n'))
      for (auto& s : i < 6 ? V{line} : dict::split(line.substr(line.find("...") + 4), ' ')) {
        const auto open{s.find('(')};
        Word w{s.substr(0, i < 6 ? open - 1 : open), s.substr(open + 1, s.find(')') - open - 1), static_cast<int>(i)};
        if (done.emplace(w.name, w.reading).second) all.push_back(w);
      }
  r->index(all);
  r->f = dict::files(r->d);
  return r;
}

// ---- player

// Input stream that gets every line from a function which is given what was
// printed since the line before; no value is the end of the input.
class Player : public std::streambuf {
public:
  using Next = std::function<std::optional<S>(const S& shown)>;

  Player(std::ostringstream& out, Next next) : _out{out}, _next{std::move(next)}, stream{this} {
    _out.str("");
  }
  // text since the last line was read
  [[nodiscard]] S tail() const { return _out.str(); }
  // text of the exception thrown by 'f' if any (failed checks are passed on)
  template <typename F> std::optional<S> play(F f) {
    std::optional<S> r;
    try {
      f();
    } catch (const kanji_tools::DomainError& e) {
      r = e.what();
    } catch (const std::exception& e) {
      if (!_failed) pbt::fail(pbt::cat("unexpected exception ", typeid(e).name(), ' ', e.what()));
    }
    if (_failed) std::rethrow_exception(_failed);
    return r;
  }
  [[nodiscard]] bool ended() const { return _ended; }

protected:
  int_type underflow() override {
    if (_failed || _ended) return traits_type::eof();
    try {
      const auto shown{_out.str()};
      _out.str("");
      if (auto r{_next(shown)}; r) {
        _line = *r + '\n';
        setg(_line.data(), _line.data(), _line.data() + _line.size());
        return traits_type::to_int_type(_line[0]);
      }
    } catch (...) {
      _failed = std::current_exception();
    }
    _ended = true;
    return traits_type::eof();
  }

private:
  std::ostringstream& _out;
  Next _next;
  S _line;
  std::exception_ptr _failed;
  bool _ended{};

public:
  std::istream stream;
};

} // namespace quiz
