// Loads a generated data directory with the code under test.
#pragma once

#include "kdata.h"

#include <kt_kanji/OfficialKanji.h>
#include <kt_kanji/TextKanjiData.h>

#include <sstream>

namespace dict {

inline S dataDir() { return pbt::scratch() + "/data"; }

struct Loaded {
  std::ostringstream out, err;
  std::shared_ptr<kanji_tools::TextKanjiData> data;

  explicit Loaded(const Files& f, const V& options = {}) {
    write(f, dataDir());
    load(options);
  }
  explicit Loaded(const V& options = {}) { load(options); }
  // just 'options', without '-data' and the directory
  Loaded(bool, const V& options) { load(options, false); }

  const kanji_tools::TextKanjiData& operator*() const { return *data; }
  const kanji_tools::TextKanjiData* operator->() const { return data.get(); }

private:
  void load(const V& options, bool add = true) {
    std::vector<const char*> argv{"prog"};
    const auto dir{dataDir()};
    if (add) {
      argv.push_back("-data");
      argv.push_back(dir.c_str());
    }
    for (auto& i : options) argv.push_back(i.c_str());
    data = std::make_shared<kanji_tools::TextKanjiData>(
        kanji_tools::Args{static_cast<kanji_tools::Args::Size>(argv.size()), argv.data()}, out, err);
  }
};

inline V names(const kanji_tools::KanjiData::List& l) {
  V r;
  for (auto& i : l) r.push_back(i ? i->name() : "null");
  return r;
}

inline std::set<S> asSet(const V& v) { return {v.begin(), v.end()}; }

// short description of the files (without ucd.txt unless asked)
inline S describe(const Files& f, bool ucd = true) {
  S r;
  for (auto& i : f)
    if (!i.second.empty() && (ucd || i.first != "ucd.txt") && i.second.find('\n') + 1 != i.second.size())
      r += "--- " + i.first + '\n' + i.second;
    else if (i.second.find('\n') + 1 == i.second.size() && i.first.find('/') != S::npos && !i.second.empty())
      r += "--- " + i.first + '\n' + i.second;
  return r;
}

} // namespace dict
