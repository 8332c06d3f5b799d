// libs: kana
#include "width.h"

#include <kt_kana/DisplaySize.h>
#include <kt_kana/Table.h>

#include <iomanip>

using namespace kanji_tools;

const pbt::Info pbt::info{"P10",
    "every code point's display width against the Unicode 14 East Asian Width "
    "data; texts and tables (ragged rows, empty cells, sections, counted "
    "rows, any prior stream format) printed and compared with a reference "
    "layout; non-trivial = a width other than 1 or a table mixing narrow and "
    "wide cells, distinct by content"};

namespace {

using ref::width;

std::string cellText(pbt::Gen& g) {
  std::string s;
  switch (g.weighted({3, 4, 4, 2, 1, 2})) {
  case 0: break;
  case 1:
    for (auto n{g.longSize(8) + 1}; n; --n) s += static_cast<char>(' ' + g.below(95));
    break;
  case 2: s = gen::validText(g, 6); break;
  case 3:
    for (auto n{g.below(4) + 1}; n; --n)
      s += g.pick({"漢", "か\xe3\x82\x99", "ア", "逸︀", "|", "\\", "a", "*", "Ｈ", "é", "😀"});
    break;
  case 4: s = gen::anyBytes(g, 4); break;
  default: s = g.pick({"|", "||", "\\|", "-", "---", "+", "1", "**a**", " ", " a ", "a|b|c"});
  }
  for (auto& i : s)
    if (!i || i == '\n') i = '.';
  return s;
}

void scramble(pbt::Gen& g, std::ostream& os) {
  if (g.boolean()) os << std::right;
  if (g.boolean()) os << std::setfill('*');
  if (g.boolean()) os << std::hex << std::showbase;
}

} // namespace

// every code point, in groups of 1024
PBT_ENUM(everyCode, 1088) {
  const auto base{c.g.below(1088) * 1024};
  c.describe(pbt::cat("code points from ", base));
  bool odd{};
  for (uint32_t i{base}; i < base + 1024; ++i) {
    const auto w{width(i)};
    PBT_EQ(displaySize(CodeString{static_cast<Code>(i)}), w, "code point ", i);
    if (ref::isScalar(i) && i) {
      const auto s{ref::enc(i)};
      PBT_EQ(displaySize(s), w, "code point ", i);
      PBT_EQ(displaySize(s.c_str()), w, "code point ", i);
    }
    odd = odd || (w != 1 && ref::isScalar(i));
  }
  if (odd) c.nontrivial(std::to_string(base));
}

PBT_SUB(texts, 250000, 2000000) {
  auto s{c.g.chance(1, 3) ? gen::anyBytes(c.g, 8) : gen::validText(c.g, 10)};
  for (auto& i : s)
    if (!i) i = '.';
  c.describe(pbt::show(s));
  const auto w{width(s)};
  PBT_EQ(displaySize(s), w, s);
  PBT_EQ(displaySize(s.c_str()), w, s);
  const auto codes{ref::decode(s)};
  CodeString u;
  for (const auto i : codes) u += static_cast<Code>(i);
  if (c.g.boolean()) u += Code{}; // an empty code takes no room
  PBT_EQ(displaySize(u), w, s);
  // padded to a number of columns
  const auto n{c.g.below(2) ? c.g.below(40) : static_cast<uint32_t>(w) + c.g.below(3)};
  const auto pad{w < n ? n - w : 0};
  std::ostringstream left, right;
  left << std::left << std::setw(wideSetw(s, n)) << s;
  right << std::right << std::setw(wideSetw(s, n)) << s;
  PBT_EQ(left.str(), s + std::string(pad, ' '), "padded to ", n);
  PBT_EQ(right.str(), std::string(pad, ' ') + s, "padded to ", n);
  if (w != codes.size()) c.nontrivial(s);
}

PBT_SUB(tables, 80000, 800000) {
  using Row = std::vector<std::string>;
  const auto counted{c.g.chance(1, 3)};
  const auto maxCols{c.g.size(6)};
  const auto makeRow{[&](uint32_t max) {
    Row r;
    for (auto n{c.g.below(max + 1)}; n; --n) r.push_back(cellText(c.g));
    return r;
  }};
  const auto title{c.g.chance(1, 4) ? Row{} : makeRow(maxCols)};
  Table t{title, counted};
  std::vector<Row> rows;
  std::vector<bool> sections;
  for (auto n{c.g.chance(1, 12) ? c.g.below(120) : c.g.longSize(8)}; n; --n) {
    auto row{c.g.chance(1, 6) ? Row{} : makeRow(maxCols)};
    const auto section{c.g.chance(1, 4)};
    t.add(row, section);
    if (counted) row.insert(row.begin(), std::to_string(rows.size() + 1));
    rows.push_back(row);
    sections.push_back(section);
  }
  // reference layout
  std::vector<size_t> widths;
  const auto grow{[&](const Row& r) {
    for (size_t i{}; i < r.size(); ++i) {
      if (i == widths.size()) widths.push_back(0);
      widths[i] = std::max(widths[i], width(r[i]));
    }
  }};
  grow(title);
  for (auto& i : rows) grow(i);
  std::string expected, border, markdown, key;
  const auto line{[&](const Row& r) {
    for (size_t i{}; i < widths.size(); ++i) {
      const auto cell{i < r.size() ? r[i] : ""};
      expected += "| " + cell + std::string(widths[i] - width(cell) + 1, ' ');
    }
    expected += "|\n";
  }};
  for (const auto w : widths) border += "+" + std::string(w + 2, '-');
  border += "+\n";
  expected = border;
  if (!title.empty()) line(title);
  for (size_t i{}; i < rows.size(); ++i) {
    if (sections[i]) expected += border;
    line(rows[i]);
  }
  expected += border;
  if (widths.empty()) expected.clear();
  const auto mdLine{[&](const Row& r, bool bold) {
    for (size_t i{}; i < widths.size(); ++i) {
      std::string cell;
      if (i < r.size())
        for (const auto x : r[i]) (cell += x == '|' ? "\\" : "") += x;
      markdown += "| " + (bold && !cell.empty() ? "**" + cell + "**" : cell) + " ";
    }
    markdown += "|\n";
  }};
  if (!widths.empty()) {
    mdLine(title, false);
    mdLine(Row(widths.size(), "---"), false);
    for (size_t i{}; i < rows.size(); ++i) mdLine(rows[i], sections[i]);
  }
  c.describe("table\n" + expected);
  std::ostringstream os, md;
  scramble(c.g, os);
  scramble(c.g, md);
  t.print(os);
  PBT_EQ(os.str(), expected, "table");
  t.printMarkdown(md);
  PBT_EQ(md.str(), markdown, "markdown table");
  // all lines are equally wide
  std::istringstream in{os.str()};
  size_t w{};
  for (std::string i; std::getline(in, i); w = width(i))
    if (w) PBT_EQ(width(i), w, "line width of ", i);
  std::ostringstream again;
  t.print(again);
  PBT_EQ(again.str(), expected, "printing again");
  bool narrow{}, wide{};
  for (auto& r : rows)
    for (auto& i : r) {
      if (!i.empty()) narrow = narrow || width(i) == i.size();
      wide = wide || width(i) != i.size();
    }
  if (narrow && wide) c.nontrivial(expected);
}
