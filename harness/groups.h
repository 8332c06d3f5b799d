// Generated meaning and pattern groups over the Kanji of a model.
#pragma once

#include "kdata.h"

namespace dict {

enum Pattern { Family, Peer, ReadingGroup, NoPattern };

struct ModelGroup {
  unsigned number{};
  S name;
  V text;    // members as written in the file
  V members; // expected names (including the parent of a family)
  Pattern pattern{NoPattern};

  [[nodiscard]] S line() const { return std::to_string(number) + '\t' + name + '\t' + join(text, ","); }
};

using Groups = std::vector<ModelGroup>;

inline S groupFile(const Groups& g) {
  S r{"Number\tName\tMembers\n"};
  for (auto& i : g) r += i.line() + '\n';
  return r;
}

// name or compatibility name of a Kanji
inline S written(pbt::Gen& g, const Model& m, const S& name) {
  auto& k{m.all.at(name)};
  return hasVS(name) && g.boolean() ? k.compat : name;
}

inline S groupName(pbt::Gen& g, const V& used) {
  static const V parts{"色", "数字", "あ", "カン", "々", "、", "ー", "ア", "ａ", "１", "é", "𠀋", "（", "部"};
  for (unsigned tries{};; ++tries) {
    S r;
    for (auto n{1 + g.below(4)}; n; --n) r += g.pick(parts);
    if (std::find(used.begin(), used.end(), r) == used.end() || tries > 9 || g.chance(1, 3)) return r;
  }
}

inline S groupReading(pbt::Gen& g) {
  static const V parts{"ア", "カン", "シュウ", "イ", "ひと"};
  V v;
  for (auto n{1 + g.below(3)}; n; --n) v.push_back(g.pick(parts));
  return join(v, "、");
}

inline unsigned groupNumber(pbt::Gen& g, const Groups& v) {
  return g.chance(1, 6) ? g.number(65535) : static_cast<unsigned>(v.size()) + 1;
}

inline V names(const Model& m) {
  V r;
  for (auto& i : m.all) r.push_back(i.first);
  return r;
}

inline unsigned groupSize(pbt::Gen& g, size_t available) {
  const auto max{static_cast<unsigned>(std::min<size_t>(available, 58))};
  if (g.chance(1, 10)) return max;
  return std::min(2 + g.size(max > 2 ? max - 2 : 0), max);
}

inline Groups meaningGroups(pbt::Gen& g, const Model& m, unsigned max) {
  Groups r;
  auto all{names(m)};
  if (all.size() < 2) return r;
  V used;
  S popular; // in each group
  if (g.chance(1, 5)) popular = g.pick(all);
  for (auto n{g.size(max)}; n; --n) {
    ModelGroup x;
    x.number = groupNumber(g, r);
    x.name = groupName(g, used);
    used.push_back(x.name);
    g.shuffle(all);
    if (!popular.empty())
      std::swap(*std::find(all.begin(), all.end(), popular), all[g.below(2)]);
    const auto size{groupSize(g, all.size())};
    for (unsigned i{}; i < size; ++i) {
      x.members.push_back(all[i]);
      x.text.push_back(written(g, m, all[i]));
    }
    r.push_back(x);
  }
  return r;
}

inline Groups patternGroups(pbt::Gen& g, const Model& m, unsigned max) {
  Groups r;
  auto all{names(m)};
  g.shuffle(all);
  for (auto n{g.size(max)}; n && all.size() > 1; --n) {
    ModelGroup x;
    x.number = groupNumber(g, r);
    const auto size{groupSize(g, all.size())};
    for (unsigned i{}; i < size; ++i) {
      x.members.push_back(all.back());
      all.pop_back();
      x.text.push_back(written(g, m, x.members.back()));
    }
    x.pattern = g.pick({Family, Peer, ReadingGroup});
    x.name = groupReading(g);
    if (x.pattern == Peer)
      x.name = "：" + x.name;
    else if (x.pattern == Family) {
      // only the first character before the colon is a member
      static const V more{"", "", "", "ワン", "カン々ーア１（部）数字色あいう"};
      x.name = x.text[0] + g.pick(more) + "：" + x.name;
      x.text.erase(x.text.begin());
    } else if (g.chance(1, 5))
      x.name = written(g, m, x.members[0]); // no colon: just a name
    r.push_back(x);
  }
  return r;
}

inline Pattern patternOf(const S& name) {
  return name.starts_with("：") ? Peer : name.find("：") != S::npos ? Family : ReadingGroup;
}

// groups from a file that is known to be correct
inline Groups parseGroups(const S& file, const Model& m, bool pattern) {
  Groups r;
  auto l{split(file, '\n')};
  for (size_t i{1}; i < l.size(); ++i) {
    const auto v{split(l[i], '\t')};
    ModelGroup x;
    x.number = static_cast<unsigned>(std::stoul(v.at(0)));
    x.name = v.at(1);
    x.text = split(v.at(2), ',');
    if (pattern) x.pattern = patternOf(x.name);
    if (x.pattern == Family) x.members.push_back(m.find(x.name.substr(0, x.name.find("：")))->name);
    for (auto& j : x.text) x.members.push_back(m.find(j)->name);
    r.push_back(x);
  }
  return r;
}

} // namespace dict
