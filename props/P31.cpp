// libs: utils
#include "script.h"
#include "text.h"

#include <kt_utils/Utf8.h>

#include <map>
#include <set>

using script::S, script::V;

const pbt::Info pbt::info{"P31",
    "EastAsianWidth files (single code points and ranges, next to each other "
    "or with gaps, all width types, comments, empty lines) given to "
    "parseEastAsianWidth.sh; the blocks it writes are compared with the wide "
    "code points of the file; non-trivial = ranges of several lines joined "
    "into one block and at least two blocks, distinct by file"};

namespace {

S hex(uint32_t c) {
  char b[16];
  std::snprintf(b, sizeof b, "%04X", c);
  return b;
}

struct Range {
  uint32_t first, last;
  bool operator==(const Range&) const = default;
};

std::ostream& operator<<(std::ostream& o, const Range& r) { return o << hex(r.first) << ".." << hex(r.last); }

// "  makeBlock<0x1100, 0x115F>()," (or one value)
Range block(const S& line, bool last) {
  S s{line};
  const auto eat{[&](const S& x) {
    PBT_CHECK(s.starts_with(x), "'", line, "' instead of a block");
    s = s.substr(x.size());
  }};
  const auto number{[&] {
    eat("0x");
    size_t n{};
    while (n < s.size() && std::isxdigit(static_cast<unsigned char>(s[n]))) ++n;
    PBT_CHECK(n > 3 && n < 7, "'", line, "'");
    const auto r{static_cast<uint32_t>(std::stoul(s.substr(0, n), nullptr, 16))};
    s = s.substr(n);
    return r;
  }};
  eat("  makeBlock<");
  Range r{};
  r.first = r.last = number();
  if (s.starts_with(",")) {
    eat(", ");
    r.last = number();
    PBT_CHECK(r.first < r.last, "'", line, "'");
  }
  eat(">()");
  PBT_EQ(s, last ? "" : ",", "end of '", line, "'");
  return r;
}

} // namespace

PBT_SUB(generated, 1600, 20000) {
  auto& g{c.g};
  S file;
  std::vector<Range> expected;
  bool joined{};
  const auto comment{[&](bool own) {
    static const V some{"# EastAsianWidth-14.0.0.txt", "#", "# W", "# 3400;W  wide", "#  Lo [12] IDEOGRAPH;F..X", "# @missing: 3400..4DBF; W", "   # ;W"};
    return (own ? S{} : g.pick({S{" "}, S{"  "}, S{"\t"}, S{}})) + g.pick(some);
  }};
  uint32_t at{g.pick({0U, 0x20U, 0x1100U, 0xff00U, 0x1f300U, 0xfff0U})};
  for (auto n{g.size(24)}; n; --n) {
    while (g.chance(1, 8)) file += (g.boolean() ? S{} : comment(true)) + '\n';
    // next range: directly after, one after that, or anywhere
    at += g.pick({0U, 0U, 0U, 1U, 2U, 1 + g.below(15), g.below(300)});
    const auto size{g.boolean() ? 1 : g.pick({2U, 3U, 16U, 1 + g.below(40), g.below(9000) + 1})};
    if (at + size > 0x10ffff) break;
    const S width{g.pick({"W", "F", "W", "F", "W", "N", "Na", "A", "H"})};
    const Range r{at, at + size - 1};
    at += size;
    file += hex(r.first) + (size > 1 ? ".." + hex(r.last) : "") + ';' + width + (g.chance(3, 4) ? comment(false) : "") + '\n';
    if (width != "W" && width != "F") continue;
    if (!expected.empty() && expected.back().last + 1 == r.first) {
      expected.back().last = r.last;
      joined = true;
    } else
      expected.push_back(r);
  }
  while (g.chance(1, 8)) file += (g.boolean() ? S{} : comment(true)) + '\n';
  c.describe(file);
  script::fresh();
  script::write(script::dir() / "EastAsianWidth.txt", file);
  const auto r{script::run("parseEastAsianWidth.sh", {"EastAsianWidth.txt"})};
  PBT_EQ(r.code, 0, r.out, r.err);
  PBT_EQ(r.err, "", "no errors expected");
  const auto l{script::lines(r.out)};
  PBT_CHECK(l.size() >= 4 && l[0].starts_with("// --- begin ") && l.back().starts_with("// --- end "), r.out);
  PBT_EQ(l[1], "inline constexpr std::array WideBlocks{", r.out);
  PBT_EQ(l[l.size() - 2], "};", r.out);
  std::vector<Range> actual;
  for (size_t i{2}; i + 2 < l.size(); ++i) actual.push_back(block(l[i], i + 3 == l.size()));
  PBT_EQ(actual, expected, file);
  if (expected.empty()) c.label("nothing wide");
  if (joined) c.label("joined");
  if (joined && expected.size() > 1) c.nontrivial(file);
}

// no file
PBT_ENUM(usage, 1) {
  c.g.below(1);
  script::fresh();
  const auto r{script::run("parseEastAsianWidth.sh", {})};
  c.describe("no arguments");
  PBT_EQ(r.code, 1, r.out);
  PBT_CHECK(r.out.find("please specify") != S::npos, r.out);
}
