// libs: utils
#include "text.h"

#include <kt_utils/ColumnFile.h>
#include <kt_utils/Exception.h>

#include <algorithm>
#include <filesystem>
#include <fstream>
#include <set>

using namespace kanji_tools;

const pbt::Info pbt::info{"P12",
    "delimited files written from generated rows (any column order, delimiter, "
    "field content, final newline or not) with mutated headers, rows and "
    "values, read back by a generated sequence of row steps and typed reads "
    "and compared with a reference splitter and reference number parsers; "
    "non-trivial = a data row was read with at least one number, flag, code or "
    "empty field, or a malformed part was rejected, distinct by content"};

namespace {

using Strings = std::vector<std::string>;

Strings split(const std::string& s, char d) {
  Strings r(1);
  for (const auto i : s)
    if (i == d)
      r.emplace_back();
    else
      r.back() += i;
  return r;
}

std::string number(pbt::Gen& g) {
  switch (g.weighted({6, 2, 2, 2, 3})) {
  case 0: return std::to_string(g.number(70000));
  case 1:
    return g.pick({"0", "255", "256", "65535", "65536", "4294967295",
        "4294967296", "18446744073709551615", "18446744073709551616", "007", "00",
        "99999999999999999999999"});
  case 2: return g.pick({"-1", "+1", " 1", "1 ", "1a", "a1", "0x10", "1.0", "1,2", "-0", "１", "1e3", "-18446744073709551615"});
  case 3: return "";
  default: return std::to_string(g.below(300));
  }
}

std::string field(pbt::Gen& g) {
  switch (g.weighted({5, 2, 4, 3, 2, 2})) {
  case 0: return number(g);
  case 1: return "";
  case 2: return g.pick({"Y", "N", "T", "F", "y", "YY", "TRUE", "1", "", "n", "X"});
  case 3: {
    std::string s;
    for (auto n{g.below(4) ? 4 + g.below(2) : g.below(8)}; n; --n)
      s += g.chance(1, 20) ? g.pick({'a', 'f', 'G', '@', ':', ' ', '-', '/', 'g'})
                           : "0123456789ABCDEF"[g.below(16)];
    return s;
  }
  case 4: return gen::anyBytes(g, 4);
  default: return gen::validText(g, 5);
  }
}

// reference for unsigned numbers
std::optional<uint64_t> asNumber(const std::string& s) {
  if (s.empty()) return {};
  unsigned __int128 r{};
  for (const auto i : s) {
    if (i < '0' || i > '9') return {};
    r = r * 10 + static_cast<unsigned>(i - '0');
    if (r > UINT64_MAX) return {};
  }
  return static_cast<uint64_t>(r);
}

std::optional<uint32_t> asCode(const std::string& s) {
  if (s.size() != 4 && s.size() != 5) return {};
  uint32_t r{};
  for (const auto i : s) {
    const auto p{std::string{"0123456789ABCDEF"}.find(i)};
    if (p == std::string::npos) return {};
    r = r * 16 + static_cast<uint32_t>(p);
  }
  return r;
}

const Strings& names() {
  static const Strings n{"A", "B", "Name", "Number", "読み", "a b", "AB", "Reading", "x;y"};
  return n;
}

// calls 'f' and compares its result (empty = must throw, naming the place)
template <typename F, typename T>
bool expect(F f, const std::optional<T>& e, const Strings& parts,
    const std::string& what) {
  try {
    const auto r{f()};
    PBT_CHECK(e, what, ": no error, returned ", pbt::toShow(r));
    PBT_EQ(r, *e, what);
    return false;
  } catch (const DomainError& x) {
    PBT_CHECK(!e, what, ": unexpected error ", x.what());
    for (auto& i : parts)
      PBT_CHECK(std::string{x.what()}.find(i) != std::string::npos, what,
          ": error '", x.what(), "' doesn't mention ", i);
    return true;
  }
}

} // namespace

PBT_SUB(files, 150000, 2500000) {
  auto& g{c.g};
  const auto delim{g.pick({'\t', '\t', '\t', ',', '|', ';', ' ', 'A', ':'})};
  // columns
  Strings columns;
  const auto k{g.below(6) + 1};
  auto pool{names()};
  for (auto& i : pool) std::replace(i.begin(), i.end(), delim, '_');
  if (delim == 'A') pool[0] = "a";
  g.shuffle(pool);
  for (size_t i{}; i < k; ++i)
    if (std::find(columns.begin(), columns.end(), pool[i]) == columns.end())
      columns.push_back(pool[i]);
  // file content
  auto header{columns};
  g.shuffle(header);
  std::string headerLine;
  const auto join{[delim](const Strings& s) {
    std::string r;
    for (size_t i{}; i < s.size(); ++i) {
      if (i) r += delim;
      r += s[i];
    }
    return r;
  }};
  auto requested{columns};
  bool mutated{};
  if (g.chance(1, 4)) {
    mutated = true;
    switch (g.below(7)) {
    case 0: header.push_back(g.pick(header)); break;
    case 1: header.erase(header.begin() + g.below(header.size())); break;
    case 2: header.push_back(g.pick(pool)); break;
    case 3: header[g.below(header.size())] = g.pick({"", "a", "NAME", "Name ", "Num"}); break;
    case 4: header.emplace_back(); break;
    case 5: requested.push_back(g.pick(pool)); break;
    default: requested.erase(requested.begin() + g.below(requested.size()));
    }
  }
  std::string content{join(header)};
  const auto noFile{g.chance(1, 60)}, folder{!noFile && g.chance(1, 60)},
      nothing{g.chance(1, 40)};
  for (auto n{g.longSize(8)}; n; --n) {
    Strings row;
    for (size_t i{}; i < columns.size(); ++i) {
      auto s{field(g)};
      for (auto& x : s)
        if (x == delim || x == '\n') x = '~';
      row.push_back(s);
    }
    if (g.chance(1, 12)) switch (g.below(4)) {
      case 0: row.push_back(""); break;
      case 1: row.push_back("z"); break;
      case 2: row.pop_back(); break;
      default: row.clear();
      }
    content += '\n' + join(row);
  }
  if (g.chance(2, 3)) content += '\n';
  if (nothing) content = g.pick({"", "\n"});
  c.describe(pbt::cat("columns ", pbt::toShow(requested), " delimiter '", delim, "' content ", pbt::show(content)));
  const std::filesystem::path path{pbt::scratch() + "/" + g.pick({"file.txt", "データ.txt", "a b"})};
  std::filesystem::remove_all(path);
  if (folder)
    std::filesystem::create_directory(path);
  else if (!noFile) {
    std::ofstream f{path, std::ios::binary};
    f << content;
  }
  // reference
  auto lines{split(content, '\n')};
  if (lines.back().empty()) lines.pop_back();
  bool ok{!noFile && !folder && !requested.empty() && !lines.empty()};
  Strings found;
  if (ok) {
    // a single column may have an empty name
    found = split(lines[0], delim);
    const std::set<std::string> a{found.begin(), found.end()}, b{requested.begin(), requested.end()};
    ok = a.size() == found.size() && b.size() == requested.size() && a == b;
    // an empty header can't be found by name
    if (b.contains("")) throw pbt::Discard{};
  }
  const auto fileName{path.filename().string()};
  ColumnFile::Columns cols;
  for (auto& i : requested) cols.emplace_back(i);
  for (auto& i : pool) static_cast<void>(ColumnFile::Column{i});
  std::optional<ColumnFile> file;
  bool rejected{};
  try {
    file.emplace(path, cols, delim);
    PBT_CHECK(ok, "columns ", pbt::toShow(requested), " accepted for ", content);
  } catch (const DomainError& e) {
    PBT_CHECK(!ok, "rejected with ", e.what(), ": ", content);
    PBT_CHECK(std::string{e.what()}.find(fileName) != std::string::npos, e.what(), " doesn't name the file");
    rejected = true;
  }
  if (!file) {
    c.nontrivial(content + delim + pbt::toShow(requested));
    return;
  }
  auto& f{*file};
  PBT_EQ(f.columns(), found.size(), "columns");
  PBT_EQ(f.fileName(), fileName, "name");
  PBT_EQ(f.currentRow(), 0, "row");
  const ColumnFile::Column late{"late"}, other{"other column"};
  const auto position{[&found](const std::string& s) {
    return static_cast<size_t>(std::find(found.begin(), found.end(), s) - found.begin());
  }};
  expect([&] { return f.get(cols[0]); }, std::optional<std::string>{}, {fileName}, "get before nextRow");
  bool typed{};
  for (size_t row{1};; ++row) {
    if (row >= lines.size()) {
      PBT_EQ(f.nextRow(), false, "after last row");
      PBT_EQ(f.currentRow(), lines.size() - 1, "row");
      if (row > lines.size() + 1) break;
      continue;
    }
    const auto fields{split(lines[row], delim)};
    const auto rowName{"row: " + std::to_string(row)};
    const auto good{fields.size() == found.size()};
    if (expect([&] { return f.nextRow(); }, good ? std::optional{true} : std::nullopt, {fileName, rowName}, "row " + lines[row])) {
      rejected = true;
      PBT_EQ(f.currentRow(), row, "row");
      continue;
    }
    PBT_EQ(f.currentRow(), row, "row");
    expect([&] { return f.get(other); }, std::optional<std::string>{}, {fileName, rowName, "other column"}, "column not in file");
    for (auto n{2 * found.size()}; n; --n) {
      const auto& col{cols[n > found.size() ? n - found.size() - 1 : g.below(cols.size())]};
      const auto& s{fields[position(col.name())]};
      const auto what{"column " + col.name() + " row " + std::to_string(row) + " value " + s};
      if (n > found.size()) {
        PBT_EQ(f.get(col), s, what);
        PBT_EQ(f.isEmpty(col), s.empty(), what);
        continue;
      }
      const Strings place{fileName, rowName, "'" + col.name() + "'", "'" + std::string{s.c_str()}};
      const auto num{asNumber(s)};
      using OptU64 = ColumnFile::OptU64;
      const auto limited{[&](uint64_t max) { return num && *num <= max ? num : std::nullopt; }};
      const auto optional{[&](uint64_t max) {
        return s.empty() ? std::optional<OptU64>{OptU64{}} : num && *num <= max ? std::optional<OptU64>{num} : std::nullopt;
      }};
      typed = true;
      switch (g.below(8)) {
      case 0: expect([&] { return f.getU64(col); }, num, place, "number " + what); break;
      case 1: {
        const uint64_t m{g.boolean() && num ? *num + g.below(3) - 1 : g.number(100000)};
        expect([&] { return f.getU64(col, m); }, limited(m ? m : UINT64_MAX), place, "number " + what);
        break;
      }
      case 2: {
        const uint64_t m{g.number(100000)};
        expect([&] { return f.getOptU64(col, m); }, optional(m ? m : UINT64_MAX), place, "optional number " + what);
        break;
      }
      case 3: expect([&] { return uint64_t{f.getU8(col)}; }, limited(255), place, "8 bit " + what); break;
      case 4: expect([&] { return uint64_t{f.getU16(col)}; }, limited(65535), place, "16 bit " + what); break;
      case 5:
        expect([&] { const auto r{f.getOptU8(col)}; return r ? OptU64{*r} : OptU64{}; }, optional(255), place, "optional 8 bit " + what);
        expect([&] { const auto r{f.getOptU16(col)}; return r ? OptU64{*r} : OptU64{}; }, optional(65535), place, "optional 16 bit " + what);
        expect([&] { return uint64_t{f.getUInt<uint32_t>(col)}; }, limited(UINT32_MAX), place, "32 bit " + what);
        break;
      case 6: {
        const auto yes{s == "Y" || s == "T"}, no{s == "N" || s == "F" || s.empty()};
        expect([&] { return f.getBool(col); }, yes || no ? std::optional{yes} : std::nullopt, place, "flag " + what);
        break;
      }
      default: {
        const auto e{asCode(s)};
        expect([&] { return static_cast<uint32_t>(f.getChar32(col)); }, e, place, "code " + what);
        expect([&] { return static_cast<uint32_t>(f.getChar32(col, s)); }, e, place, "code " + what);
      }
      }
    }
  }
  if (typed || rejected) c.nontrivial(content + delim);
}

// tens of thousands of rows: each row and the row numbers of errors
PBT_SUB(many_rows, 24, 500) {
  auto& g{c.g};
  const auto columns{1 + g.below(4)};
  const Strings names{"A", "B", "Name", "Number"};
  const auto total{(g.boolean() ? 65536 : 1024U << g.below(7)) + g.below(600)};
  std::vector<Strings> kinds;
  for (int i{}; i < 10; ++i) {
    Strings row;
    for (auto n{g.chance(1, 10) ? g.below(6) : columns}; n; --n) {
      auto s{field(g)};
      for (auto& x : s)
        if (x == '\t' || x == '\n') x = '~';
      row.push_back(s);
    }
    kinds.push_back(row);
  }
  const auto step{1 + g.below(9)}, spread{1 + g.below(13)};
  const auto kind{[&](uint32_t i) -> auto& { return kinds[(i * step + i / spread + i / 997) % kinds.size()]; }};
  c.describe(pbt::cat(total, " rows of ", columns, " columns"));
  c.nontrivial(pbt::cat(total, ' ', columns, ' ', step, ' ', spread, pbt::toShow(kinds[0])));
  const std::filesystem::path path{pbt::scratch() + "/rows.txt"};
  {
    std::ofstream f{path, std::ios::binary};
    for (uint32_t i{}; i < columns; ++i) f << (i ? "\t" : "") << names[i];
    for (uint32_t i{}; i < total; ++i) {
      f << '\n';
      for (size_t j{}; j < kind(i).size(); ++j) f << (j ? "\t" : "") << kind(i)[j];
    }
    f << '\n';
  }
  ColumnFile::Columns cols;
  for (uint32_t i{}; i < columns; ++i) cols.emplace_back(names[i]);
  ColumnFile f{path, cols};
  for (uint32_t i{}; i < total; ++i) {
    auto fields{kind(i)};
    if (fields.empty()) fields.emplace_back(); // an empty line is one empty field
    const auto place{"row: " + std::to_string(i + 1)};
    const auto bad{expect([&] { return f.nextRow(); }, fields.size() == columns ? std::optional{true} : std::nullopt,
        {"rows.txt", place}, "row")};
    PBT_EQ(f.currentRow(), i + 1, "row");
    if (bad) continue;
    for (uint32_t j{}; j < columns; ++j) PBT_EQ(f.get(cols[j]), fields[j], place);
    if (i % 64 == 0) {
      const auto& s{fields[0]};
      expect([&] { return f.getU64(cols[0]); }, asNumber(s), {place}, "number " + s);
    }
  }
  PBT_CHECK(!f.nextRow(), "row after the last");
  PBT_EQ(f.currentRow(), total, "row");
}
