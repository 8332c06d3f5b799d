// libs: utils
#include "script.h"
#include "text.h"

#include <algorithm>

using script::S, script::V;

const pbt::Info pbt::info{"P32",
    "Unicode XML files with a few characters (attributes missing, empty, equal "
    "and different) given to ucdDiff.sh to print one character, its CJK "
    "fields, two characters or one from two files, with the character as code "
    "point in any case or as UTF-8, plus bad arguments; compared with the "
    "fields generated; non-trivial = fields to print and at least one equal "
    "or left out, distinct by files and arguments"};

namespace {

using Field = std::pair<S, S>;
using Fields = std::vector<Field>; // in the order of all characters

struct Char {
  uint32_t code;
  Fields f;
};
using File = std::vector<Char>;

S hex(uint32_t c) {
  char b[16];
  std::snprintf(b, sizeof b, "%04X", c);
  return b;
}

const V& allNames() {
  static const V v{"age", "na", "gc", "blk", "sc", "Ideo", "UIdeo", "Radical", "kIRG_GSource", "kIRG_JSource", "kCompatibilityVariant",
      "kRSUnicode", "kTotalStrokes", "kDefinition", "kJapaneseOn", "kJapaneseKun", "kMandarin", "kMorohashi", "kX", "k3", "kx"};
  return v;
}

S value(pbt::Gen& g) {
  static const V some{"", "", "Y", "N", "1.1", "CJK", "Hani", "J0-306C", "1.0", "7", "one; a, an", "犬", "(same as U+4E00 一) alone", "IN ON",
      "U+4E01", "<", "> <", "'", "age", "kX", "12 5", "CJK UNIFIED IDEOGRAPH-#", "&lt;kMatthews", "kMandarin", "char cp"};
  return g.pick(some);
}

Fields fields(pbt::Gen& g) {
  Fields r;
  const auto all{g.chance(1, 3)};
  for (auto& i : allNames())
    if (all || !g.chance(1, 4)) r.push_back({i, value(g)});
  return r;
}

Fields changed(pbt::Gen& g, const Fields& from) {
  Fields r;
  for (auto& i : allNames()) {
    const auto f{std::find_if(from.begin(), from.end(), [&](auto& x) { return x.first == i; })};
    if (g.chance(1, 6)) {
      if (g.boolean()) r.push_back({i, value(g)});
    } else if (f != from.end())
      r.push_back(*f);
  }
  return r;
}

S text(const File& f) {
  S r{"<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n  <repertoire>\n"};
  for (auto& i : f) {
    r += "    <char cp=\"" + hex(i.code) + '"';
    for (auto& [n, v] : i.f) r += ' ' + n + "=\"" + v + '"';
    r += "/>\n";
  }
  return r + "  </repertoire>\n";
}

const Char& find(const File& f, uint32_t code) {
  return *std::find_if(f.begin(), f.end(), [code](auto& i) { return i.code == code; });
}

S title(uint32_t c, const S& file) { return "Code " + hex(c) + " (" + ref::enc(c) + ") from '" + file + "'\n"; }

// fields of 'a' that aren't the same in 'b'
S different(const Fields& a, const Fields& b, size_t& same) {
  S r;
  for (auto& i : a)
    if (std::find(b.begin(), b.end(), i) == b.end())
      r += "  " + i.first + "=\"" + i.second + "\"\n";
    else
      ++same;
  return r;
}

// as argument: any case of the code point, or the character
S argument(pbt::Gen& g, uint32_t c) {
  auto s{hex(c)};
  switch (g.below(4)) {
  case 0: return ref::enc(c);
  case 1:
    for (auto& i : s)
      if (g.boolean()) i = static_cast<char>(std::tolower(i));
    break;
  default: break;
  }
  return s;
}

} // namespace

PBT_SUB(generated, 2400, 30000) {
  auto& g{c.g};
  File a;
  std::vector<uint32_t> codes;
  for (auto n{2 + g.size(6)}; n; --n) {
    const auto code{g.weighted({3, 1, 1, 1}) == 0 ? 0x4e00 + g.below(0x5200) : g.pick({0x3400 + g.below(0x19c0), 0x20000 + g.below(0xa6e0), 0xf900 + g.below(0x100), 0xa0 + g.below(0x1000),
        0x10000 * (1 + g.below(14)) + g.below(0xff00), 0x10000 * (1 + g.below(14)) + (codes.empty() ? 0x4e00U : codes.back() % 0x10000)})};
    if (std::find(codes.begin(), codes.end(), code) != codes.end() || (code >= 0x300 && code < 0x370)) continue;
    codes.push_back(code);
    a.push_back({code, a.empty() || g.boolean() ? fields(g) : changed(g, a[0].f)});
  }
  if (a.size() < 2) throw pbt::Discard{};
  File b; // another version
  for (auto& i : a) b.push_back({i.code, changed(g, i.f)});
  script::fresh();
  script::write(script::dir() / "a.xml", text(a));
  script::write(script::dir() / "b.xml", text(b));
  const auto x{g.pick(codes)};
  auto y{g.pick(codes)};
  V args;
  S expected, error;
  size_t same{};
  const auto diff{[&](const Char& p, const S& pf, const Char& q, const S& qf) {
    const auto l{different(p.f, q.f, same)}, r{different(q.f, p.f, same)};
    if (!l.empty()) expected += title(p.code, pf) + l;
    if (!r.empty()) expected += title(q.code, qf) + r;
    if (expected.empty()) expected = "no diffs found\n";
  }};
  S what;
  switch (g.below(6)) {
  case 0: {
    what = "all fields";
    args = {"-f", "a.xml", argument(g, x)};
    expected = title(x, "a.xml");
    for (auto& [n, v] : find(a, x).f) {
      S t{v};
      expected += n + ": " + t + '\n';
    }
    break;
  }
  case 1: {
    what = "CJK fields";
    args = g.boolean() ? V{"-p", "-f", "a.xml"} : V{"-f", "a.xml", "-p"};
    args.push_back(argument(g, x));
    expected = "Code " + hex(x) + " (" + ref::enc(x) + ")";
    auto& f{find(a, x).f};
    for (auto n : {"age", "blk", "sc", "Ideo", "Radical"}) {
      expected += ", ";
      for (auto& i : f)
        if (i.first == n) expected += i.first + ": " + i.second;
    }
    expected += '\n';
    for (auto& [n, v] : f)
      if (n[0] == 'k' && std::isupper(static_cast<unsigned char>(n[1])) && !v.empty())
        expected += n + ": " + v + '\n';
      else
        ++same;
    break;
  }
  case 2:
    what = "two characters";
    while (y == x) y = codes[(static_cast<size_t>(std::find(codes.begin(), codes.end(), x) - codes.begin()) + 1) % codes.size()];
    args = {"-f", "a.xml", argument(g, x), argument(g, y)};
    diff(find(a, x), "a.xml", find(a, y), "a.xml");
    break;
  case 3:
    what = "two files";
    args = g.boolean() ? V{"-d", "-o", "a.xml", "-n", "b.xml"} : V{"-d", "-n", "b.xml", "-o", "a.xml"};
    args.push_back(argument(g, x));
    diff(find(a, x), "a.xml", find(b, x), "b.xml");
    break;
  case 4:
    what = "default files";
    std::filesystem::create_directories(script::dir() / "ucd/15");
    std::filesystem::create_directories(script::dir() / "ucd/15.1");
    script::write(script::dir() / "ucd/15/ucd.all.flat.xml", text(a));
    script::write(script::dir() / "ucd/15.1/ucd.all.flat.xml", text(b));
    args = {"-d", argument(g, x)};
    diff(find(a, x), (script::dir() / "ucd/15/ucd.all.flat.xml").string(), find(b, x), (script::dir() / "ucd/15.1/ucd.all.flat.xml").string());
    break;
  default: {
    what = "bad arguments";
    uint32_t none{0x4e00};
    while (std::find(codes.begin(), codes.end(), none) != codes.end()) ++none;
    const auto f{[&](V v, const S& e) {
      args = std::move(v);
      error = e;
    }};
    switch (g.below(12)) {
    case 0: f({}, "must specify at least one code point"); break;
    case 1: f({"-f", "a.xml"}, "must specify at least one code point"); break;
    case 2: f({"-f"}, "'-f' must be followed by a UCD file"); break;
    case 3: f({"-f", "none.xml", hex(x)}, "not a valid file"); break;
    case 4: f({"-d", "-o", "a.xml", "-n", "a.xml", hex(x)}, "'old file' is the same as 'new file'"); break;
    case 5: f({"-d", "-o", "a.xml", "-n", "b.xml", hex(x), hex(y)}, "only one code point should be specified with '-d'"); break;
    case 6: f({"-p", "-f", "a.xml", hex(x), hex(y)}, "only one code point should be specified with '-p'"); break;
    case 7: f({"-f", "a.xml", hex(x), hex(y), hex(x)}, "too many arguments"); break;
    case 8: f({"-f", "a.xml", argument(g, x), argument(g, x)}, "code points are the same"); break;
    case 9: f({"-f", "a.xml", hex(none)}, "'" + hex(none) + "' not found in: a.xml"); break;
    case 10: f({"-f", "a.xml", "犬猫"}, "code point '犬猫' should be a single UTF-8 value"); break;
    default: {
      const auto bad{g.pick<S>({"4E0", "G4E00", "04E00", "4e00g", "4G00", "F4E00", "123456", "x", "U+4E00"})};
      f({"-f", "a.xml", bad}, "invalid code point '" + bad + "'");
    }
    }
  }
  }
  S d{what + ':'};
  for (auto& i : args) d += ' ' + i;
  c.describe(d + "\n--- a.xml\n" + text(a) + "--- b.xml\n" + text(b));
  const auto r{script::run("ucdDiff.sh", args)};
  PBT_EQ(r.err, "", what);
  if (error.empty()) {
    // (the exit status of a comparison isn't documented)
    if (what == "all fields" || what == "CJK fields") PBT_EQ(r.code, 0, r.out);
    PBT_EQ(r.out, expected, d);
  } else {
    PBT_EQ(r.code, 1, r.out);
    PBT_CHECK(r.out.starts_with("ucdDiff.sh: ") && r.out.find(error + "\n") < r.out.find("usage: "), "expected '", error, "': ", r.out);
    PBT_CHECK(r.out.find("usage: ") != S::npos, r.out);
    // nothing about the character
    PBT_CHECK(r.out.find("age: ") == S::npos || r.out.find("Code ") == S::npos, r.out);
  }
  c.label(what);
  if (error.empty() ? same && expected != "no diffs found\n" : true) c.nontrivial(d + text(a) + text(b));
}
