// Small property-based-testing engine: every random decision is one entry on a
// 'tape', so shrinking and replay work on tapes and apply to any generator.
#pragma once

#include <cstdint>
#include <functional>
#include <iterator>
#include <sstream>
#include <stdexcept>
#include <string>
#include <string_view>
#include <vector>

namespace pbt {

using Tape = std::vector<uint32_t>;

struct Failure {
  std::string msg;
};
struct Discard {};

class Gen {
public:
  // uniform in [0,n), n >= 1
  uint32_t below(uint32_t n);
  // inclusive
  int64_t range(int64_t lo, int64_t hi) {
    return lo + static_cast<int64_t>(below(static_cast<uint32_t>(hi - lo + 1)));
  }
  bool boolean() { return below(2) != 0; }
  // true in 'num' of 'den' cases; shrinks to false
  bool chance(uint32_t num, uint32_t den) { return below(den) >= den - num; }
  // size in [0,max], biased to small with some large and 'interesting' values
  uint32_t size(uint32_t max);
  // as size(), but once in a while far above 'max'
  uint32_t longSize(uint32_t max);
  // number in [0,max] with bias to small values, boundaries and constants that
  // occur in the code under test
  uint32_t number(uint32_t max);
  template <typename C> const auto& pick(const C& c) {
    if (c.empty()) throw std::logic_error("pick from empty");
    return *std::next(c.begin(), below(static_cast<uint32_t>(c.size())));
  }
  template <typename T> T pick(std::initializer_list<T> c) {
    return *(c.begin() + below(static_cast<uint32_t>(c.size())));
  }
  // index with given weights
  size_t weighted(std::initializer_list<uint32_t> w);
  template <typename C> void shuffle(C& c) {
    for (size_t i{c.size()}; i > 1; --i)
      std::swap(c[i - 1], c[below(static_cast<uint32_t>(i))]);
  }
  // dictionary (literals that occur in the sources under test)
  const std::string& dictString();
  uint32_t dictNumber();
  [[nodiscard]] static bool hasDict();

  // engine internals
  const uint32_t* replay{};
  size_t replayLen{};
  uint64_t s[2]{};
  bool forceFirst{};
  uint32_t firstValue{};
  size_t drawn{};
  void seed(uint64_t);

private:
  uint64_t next();
  uint32_t record(uint32_t);
};

class Ctx {
public:
  Gen& g;
  explicit Ctx(Gen& x) : g{x} {}
  // describe the case being run, kept even if the code under test crashes
  void describe(const std::string&);
  // mark the case non-trivial; 'key' identifies it for counting distinct ones
  void nontrivial(const std::string& key);
  void label(const std::string&);
  bool wantSample() const;
};

using Fn = void (*)(Ctx&);

struct Sub {
  const char* name;
  Fn fn;
  uint32_t quick, thorough; // number of cases
  bool enumerate;           // first draw is the case number
};

struct Registrar {
  Registrar(const char* name, Fn, uint32_t quick, uint32_t thorough,
      bool enumerate = false);
};

// set once by the property source
struct Info {
  const char* id;
  const char* rule;
};
extern const Info info;

// optional one-time init run in the parent before workers are forked
extern void (*init)();
struct InitHook {
  explicit InitHook(void (*f)()) { init = f; }
};

// directory the check may write to (unique per process)
const std::string& scratch();

[[noreturn]] void fail(const std::string&);
std::string show(std::string_view); // printable form with hex for odd bytes

template <typename... A> std::string cat(const A&... a) {
  std::ostringstream o;
  ((o << a), ...);
  return o.str();
}

} // namespace pbt

#define PBT_CHECK(cond, ...)                                                   \
  do {                                                                         \
    if (!(cond)) pbt::fail(pbt::cat(#cond " is false: ", __VA_ARGS__));        \
  } while (0)

#define PBT_EQ(actual, expected, ...)                                          \
  do {                                                                         \
    const auto& pbt_a = (actual);                                              \
    const auto& pbt_e = (expected);                                            \
    if (!(pbt_a == pbt_e))                                                     \
      pbt::fail(pbt::cat(#actual " is ", pbt::toShow(pbt_a), ", expected ",    \
          pbt::toShow(pbt_e), " [" #expected "]: ", __VA_ARGS__));             \
  } while (0)

namespace pbt {
template <typename T> std::string toShow(const T& t) {
  if constexpr (std::is_convertible_v<T, std::string_view>)
    return show(t);
  else if constexpr (std::is_enum_v<T>)
    return std::to_string(static_cast<long long>(t));
  else if constexpr (requires(std::ostream& o) { o << t; }) {
    std::ostringstream o;
    o << t;
    return o.str();
  } else if constexpr (requires { t.begin(); t.end(); t.size(); }) {
    std::string r{"{"};
    size_t n{};
    for (auto& i : t) {
      if (n) r += ", ";
      if (++n > 60) {
        r += "...";
        break;
      }
      r += toShow(i);
    }
    return r + "}#" + std::to_string(t.size());
  } else if constexpr (requires { t.first; t.second; })
    return "(" + toShow(t.first) + ": " + toShow(t.second) + ")";
  else
    return "?";
}
} // namespace pbt

#define PBT_SUB(name, quick, thorough)                                         \
  static void sub_##name(pbt::Ctx&);                                           \
  static const pbt::Registrar reg_##name{#name, sub_##name, quick, thorough};  \
  static void sub_##name([[maybe_unused]] pbt::Ctx& c)

#define PBT_ENUM(name, count)                                                  \
  static void sub_##name(pbt::Ctx&);                                           \
  static const pbt::Registrar reg_##name{                                      \
      #name, sub_##name, count, count, true};                                  \
  static void sub_##name([[maybe_unused]] pbt::Ctx& c)
