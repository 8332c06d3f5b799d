// Reference walk over the characters of a text and a reference counter.
#pragma once

#include "text.h"

#include <functional>
#include <map>
#include <optional>
#include <string>
#include <vector>

namespace ref {

struct Counter {
  std::map<std::string, size_t> chars;
  std::map<std::string, std::map<std::string, size_t>> tags;
  size_t errors{}, variants{}, marks{};
  std::function<bool(const std::string&)> allow;

  // count all multi-byte characters of 's', returns the number counted
  size_t add(std::string_view s, const std::optional<std::string>& tag = {}) {
    size_t added{};
    s = toNul(s);
    for (size_t i{}; i < s.size();) {
      const auto x{decodeAt(s, i)};
      if (x.kind == Kind::Ascii) {
        ++i;
        continue;
      }
      if (x.kind == Kind::Bad) {
        ++i;
        ++errors;
        continue;
      }
      i += x.bytes;
      if (isNonSpacing(x.code)) {
        ++errors;
        continue;
      }
      auto t{enc(x.code)};
      if (const auto n{decodeAt(s, i)};
          i < s.size() && n.kind == Kind::Valid) {
        if (isVS(n.code)) {
          i += n.bytes;
          ++variants;
          t += enc(n.code);
        } else if (isMark(n.code)) {
          i += n.bytes;
          if (const auto k{compose(x.code, n.code)}) {
            ++marks;
            t = enc(*k);
          } else
            ++errors;
        }
      }
      if (allow && !allow(t)) continue;
      ++added;
      ++chars[t];
      if (tag) ++tags[t][*tag];
    }
    return added;
  }

  // count each line of a file's content
  size_t addLines(const std::string& content, const std::optional<std::string>& tag = {}) {
    size_t added{};
    for (size_t i{}; i < content.size();) {
      const auto e{content.find('\n', i)};
      added += add(std::string_view{content}.substr(i, e - i), tag);
      if (e == std::string::npos) break;
      i = e + 1;
    }
    return added;
  }
};

} // namespace ref
