// libs: stats
#include "walk.h"

#include <kt_stats/Utf8Count.h>
#include <kt_utils/Exception.h>

#include <fstream>
#include <memory>

#include <sys/stat.h>
#include <unistd.h>

using namespace kanji_tools;
namespace fs = std::filesystem;

const pbt::Info pbt::info{"P22",
    "generated trees of files and directories (with symbolic links, a pipe, "
    "odd names and read-only files) and sequences of texts with malformed "
    "bytes, selectors and combining marks, counted by the library with and "
    "without tags, names, recursion and filters, compared with a separate "
    "counter; non-trivial = a directory or at least two texts with a repeated "
    "character, distinct by content and options"};

namespace {

using S = std::string;

S text(pbt::Gen& g, uint32_t n) {
  static const std::vector<S> common{"あ", "い", "漢", "字", "。", "ア", "か", "は"};
  S r;
  for (auto k{g.size(n)}; k; --k) switch (g.weighted({6, 4, 2, 2, 1, 1, 1, 3})) {
    case 0: r += g.pick(common); break;
    case 1: r += ref::enc(gen::anyCode(g)); break;
    case 2: r += ref::enc(0x3099 + g.below(2)); break;
    case 3: r += ref::enc(0xfe00 + g.below(16)); break;
    case 4: r += gen::badPiece(g); break;
    case 5: r += g.dictString(); break;
    case 6: r += S(1, static_cast<char>(1 + g.below(127))); break;
    default: r += '\n';
    }
  std::erase(r, '\0');
  // not the characters that are special when a pattern is used (see P23)
  for (auto i : {"\ue000", "（", "）"})
    for (size_t k; (k = r.find(i)) != S::npos;) r.replace(k, 3, "x");
  return r;
}

S name(pbt::Gen& g) {
  S r;
  switch (g.below(4)) {
  case 0: r = g.pick({"a", "b", "same", "x.txt"}); break;
  case 1: r = g.pick({"漢字", "あ.txt", "か\xe3\x82\x99", "逸︁", "字字字"}); break;
  default:
    r = text(g, 6);
    for (auto& i : r)
      if (i == '/' || i == '\n') i = '_';
  }
  if (r.empty() || r == "." || r == ".." || r.size() > 60) r = "n";
  return r;
}

struct Node {
  enum Kind { File, Dir, Link, Pipe } kind{File};
  S name, content;
  std::vector<Node> children;
};

Node tree(pbt::Gen& g, uint32_t depth) {
  Node n;
  n.name = name(g);
  if (depth && g.chance(2, 3)) {
    n.kind = Node::Dir;
    for (auto k{g.below(5)}; k; --k) {
      auto x{tree(g, depth - 1)};
      bool used{};
      for (auto& i : n.children) used |= i.name == x.name;
      if (!used) n.children.push_back(x);
    }
  } else if (g.chance(1, 8))
    n.kind = g.chance(3, 4) ? Node::Link : Node::Pipe;
  else
    n.content = text(g, 20);
  return n;
}

void make(const Node& n, const fs::path& dir, const fs::path& linkTo) {
  const auto p{dir / n.name};
  switch (n.kind) {
  case Node::File: std::ofstream{p} << n.content; break;
  case Node::Dir:
    fs::create_directory(p);
    for (auto& i : n.children) make(i, p, linkTo);
    break;
  case Node::Link: fs::create_symlink(linkTo, p); break;
  case Node::Pipe:
    if (mkfifo(p.c_str(), 0600)) throw pbt::Discard{};
  }
}

S show(const Node& n) {
  switch (n.kind) {
  case Node::Dir: {
    S r{pbt::show(n.name) + "{"};
    for (auto& i : n.children) r += show(i) + " ";
    return r + "}";
  }
  case Node::Link: return pbt::show(n.name) + "->";
  case Node::Pipe: return pbt::show(n.name) + "|";
  default: return pbt::show(n.name) + "=" + pbt::show(n.content);
  }
}

struct Model : ref::Counter {
  size_t files{}, dirs{};
  size_t tree(const Node& n, bool tag, bool names, bool recurse, bool top = true) {
    if (n.kind == Node::Pipe || (n.kind == Node::Link && !top)) return 0;
    size_t added{};
    const auto t{tag ? std::optional(n.name) : std::nullopt};
    if (n.kind == Node::File) {
      ++files;
      added += addLines(n.content, t);
    } else {
      ++dirs;
      for (auto& i : n.children)
        if (recurse || i.kind == Node::File) added += tree(i, tag, names, recurse, false);
    }
    if (names) added += add(n.name, t);
    return added;
  }
};

void compare(const Utf8Count& u, const Model& m) {
  PBT_EQ(u.map(), m.chars, "counts");
  PBT_EQ(u.uniqueEntries(), m.chars.size(), "");
  PBT_EQ(u.errors(), m.errors, "errors");
  PBT_EQ(u.variants(), m.variants, "variants");
  PBT_EQ(u.combiningMarks(), m.marks, "combining marks");
  PBT_EQ(u.files(), m.files, "files");
  PBT_EQ(u.directories(), m.dirs, "directories");
  PBT_EQ(u.replacements(), 0U, "replacements");
  PBT_EQ(u.lastReplaceTag(), "", "");
  for (auto& i : m.chars) {
    PBT_EQ(u.count(i.first), i.second, i.first);
    const auto t{u.tags(i.first)};
    const auto e{m.tags.find(i.first)};
    if (e == m.tags.end())
      PBT_CHECK(!t, "no tags expected for ", i.first);
    else {
      PBT_CHECK(t, "no tags for ", i.first);
      PBT_EQ(*t, e->second, "tags of ", i.first);
    }
  }
  for (auto& i : {"", "a", "か\xe3\x82\x99", "\xff", "ゖ"})
    if (!m.chars.contains(i)) {
      PBT_EQ(u.count(i), 0U, i);
      PBT_CHECK(!u.tags(i), i);
    }
}

// filters
bool notWide(const S& s) { return s < "、" || s > "〿"; }
const std::vector<S> Filters{"", "kana", "none", "short"};
bool allowed(size_t f, const S& s) {
  switch (f) {
  case 1: return s >= "ぁ" && s <= "ヿ" && notWide(s);
  case 2: return false;
  default: return s.size() <= 3;
  }
}

struct Made {
  std::unique_ptr<Utf8Count> u;
  std::unique_ptr<Model> m;
  S filter;
};
// a pattern that no text here has (so it must not change what is counted)
const auto Pattern{L"\ue000"};

Made makeCount(pbt::Gen& g) {
  const auto f{g.chance(1, 3) ? 1 + g.below(3) : 0};
  const auto pattern{g.chance(1, 3) ? std::optional(std::wregex{Pattern}) : std::nullopt};
  Made r{nullptr, std::make_unique<Model>(), Filters[f]};
  if (f) {
    const auto p{[f](const S& s) { return allowed(f, s); }};
    r.u = std::make_unique<Utf8CountIf<decltype(p)>>(p, pattern);
    r.m->allow = p;
  } else
    r.u = std::make_unique<Utf8Count>(pattern);
  if (pattern) r.filter += "/";
  return r;
}

} // namespace

PBT_SUB(texts, 150000, 2000000) {
  auto& g{c.g};
  auto [u, m, filter]{makeCount(g)};
  S d{filter};
  size_t n{};
  for (auto k{1 + g.below(6)}; k; --k, ++n) {
    const auto s{text(g, 30)};
    const auto tag{g.boolean() ? std::optional(g.pick({S{}, S{"t"}, S{"u"}, S{"漢"}})) : std::nullopt};
    d += "|" + pbt::show(s) + (tag ? " " + *tag : S{});
    c.describe(d);
    PBT_EQ(u->add(s, tag), m->add(s, tag), "added by ", pbt::show(s));
    compare(*u, *m);
  }
  size_t max{}, sum{};
  for (auto& i : m->chars) max = std::max(max, i.second);
  for (auto& i : u->map()) sum += i.second;
  if (n > 1 && max > 1) c.nontrivial(d);
  if (m->errors) c.label("errors");
  if (m->variants) c.label("variants");
  if (m->marks) c.label("marks");
}

PBT_SUB(trees, 12000, 200000) {
  auto& g{c.g};
  const auto dir{fs::path(pbt::scratch()) / "tree"};
  fs::remove_all(dir);
  fs::create_directory(dir);
  const auto target{fs::path(pbt::scratch()) / "target"};
  fs::create_directories(target);
  std::ofstream{target / "file"} << "链接\n";
  auto [u, m, filter]{makeCount(g)};
  S d{filter};
  std::vector<Node> roots;
  bool isDir{}, links{};
  for (auto k{1 + g.below(3)}; k; --k) {
    auto n{tree(g, g.below(4))};
    bool used{};
    for (auto& i : roots) used |= i.name == n.name;
    if (used) continue;
    make(n, dir, g.boolean() ? target : target / "file");
    roots.push_back(n);
  }
  for (auto k{1 + g.below(4)}; k; --k) {
    auto& n{g.pick(roots)};
    const bool tag{g.boolean()}, names{g.boolean()}, recurse{g.chance(2, 3)};
    if (n.kind == Node::Link) {
      links = true;
      continue;
    }
    isDir |= n.kind == Node::Dir;
    d += pbt::cat("|tag=", tag, " names=", names, " recurse=", recurse, " ", show(n));
    c.describe(d);
    PBT_EQ(u->addFile(dir / n.name, tag, names, recurse), m->tree(n, tag, names, recurse), "added");
    compare(*u, *m);
  }
  if (g.chance(1, 8)) {
    const auto missing{dir / "no such file"};
    S msg;
    try {
      u->addFile(missing);
    } catch (const DomainError& e) {
      msg = e.what();
    }
    PBT_EQ(msg, "file not found: " + missing.string(), "");
    compare(*u, *m);
  }
  if (isDir) c.nontrivial(d);
  if (links) c.label("links");
}

// totals don't depend on how lines are split into texts or files
PBT_SUB(split, 8000, 150000) {
  auto& g{c.g};
  std::vector<S> lines;
  for (auto k{1 + g.size(12)}; k; --k) {
    auto l{text(g, 12)};
    std::erase(l, '\n');
    lines.push_back(l);
  }
  const auto dir{fs::path(pbt::scratch()) / "split"};
  fs::remove_all(dir);
  fs::create_directory(dir);
  size_t files{};
  S all, d;
  std::ofstream f;
  for (size_t i{}; i < lines.size(); ++i) {
    if (!i || g.chance(1, 3)) {
      f = std::ofstream{dir / std::to_string(files++)};
      d += "#";
    }
    d += pbt::show(lines[i]) + "|";
    f << lines[i] << (g.chance(1, 10) ? "\n\n" : "\n");
    all += lines[i] + '\n';
  }
  f.close();
  c.describe(d);
  Utf8Count a, b, e;
  if (!all.empty() && g.boolean()) all.pop_back();
  std::ofstream{fs::path(pbt::scratch()) / "one"} << all;
  const auto x{a.addFile(dir, true, false)};
  const auto y{b.addFile(fs::path(pbt::scratch()) / "one", false, false)};
  size_t z{};
  g.shuffle(lines);
  for (auto& i : lines) z += e.add(i);
  PBT_EQ(x, z, "");
  PBT_EQ(y, z, "");
  PBT_CHECK(a.map() == e.map() && b.map() == e.map(), "counts depend on files");
  for (auto i : {&a, &b}) {
    PBT_EQ(i->errors(), e.errors(), "");
    PBT_EQ(i->variants(), e.variants(), "");
    PBT_EQ(i->combiningMarks(), e.combiningMarks(), "");
  }
  size_t sum{};
  for (auto& i : a.map()) {
    sum += i.second;
    size_t t{};
    for (auto& k : *a.tags(i.first)) t += k.second;
    PBT_EQ(t, i.second, "tags of ", i.first);
  }
  PBT_EQ(sum, z, "sum of counts");
  PBT_EQ(a.files(), files, "");
  if (files > 1 && !a.map().empty()) c.nontrivial(d);
}

// long lines, files with many lines and directories with many files
PBT_SUB(large, 60, 600) {
  auto& g{c.g};
  const auto dir{fs::path(pbt::scratch()) / "large"};
  fs::remove_all(dir);
  fs::create_directory(dir);
  Utf8Count plain, pattern{std::wregex{Pattern}};
  Model m;
  Node root;
  root.kind = Node::Dir;
  root.name = "large";
  const auto kind{g.below(3)};
  const std::vector<uint32_t> Sizes{255, 1000, 4095, 4096, 8192, 21845, 40000};
  const auto n{g.pick(Sizes) + g.below(3)};
  const auto files{kind == 2 ? std::min(n, 600U) : 1 + g.below(2)};
  const auto part{text(g, 12)};
  for (uint32_t i{}; i < files; ++i) {
    Node f;
    f.name = std::to_string(i);
    if (kind == 2)
      f.content = part;
    else {
      auto p{part};
      std::erase(p, '\n');
      p += "漢";
      if (kind == 1) p += '\n';
      for (uint32_t k{}; k < n && f.content.size() < 400000; ++k) f.content += p;
      f.content += g.pick({"", "字", "\n", "\xe6"});
    }
    std::ofstream{dir / f.name} << f.content;
    root.children.push_back(f);
  }
  c.describe(pbt::cat("kind=", kind, " n=", n, " files=", files, " ", pbt::show(part)));
  c.nontrivial(pbt::cat(kind, n, files, part));
  const bool tags{g.boolean()};
  const auto e{m.tree(root, tags, false, true)};
  PBT_EQ(plain.addFile(dir, tags, false), e, "");
  compare(plain, m);
  PBT_EQ(pattern.addFile(dir, tags, false), e, "");
  compare(pattern, m);
  fs::remove_all(dir);
}

// files that the user may read but not write are counted as well
PBT_SUB(read_only, 300, 3000) {
  auto& g{c.g};
  auto s{text(g, 10)};
  std::erase(s, '\n');
  s += "漢";
  c.describe(pbt::show(s));
  c.nontrivial(s);
  const auto p{fs::path(pbt::scratch()) / "readonly"};
  std::ofstream{p} << s;
  fs::permissions(p, fs::perms{0444});
  fs::permissions(pbt::scratch(), fs::perms{0755});
  const bool root{!geteuid()};
  if (root && seteuid(65534)) throw pbt::Discard{};
  struct Back {
    bool root;
    ~Back() {
      if (root && seteuid(0)) _exit(3);
    }
  };
  Model m;
  Utf8Count u;
  size_t added{};
  {
    Back b{root};
    if (euidaccess(p.c_str(), R_OK)) throw pbt::Discard{};
    added = u.addFile(p, false, false);
  }
  fs::remove(p);
  c.label("checked");
  ++m.files;
  PBT_EQ(added, m.addLines(s), "");
  compare(u, m);
}
