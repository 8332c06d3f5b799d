#include "pbt.h"

#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>

#include <algorithm>
#include <chrono>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <filesystem>
#include <fstream>
#include <iostream>
#include <map>
#include <set>
#include <unordered_set>

#include "dict.h" // generated: literals found in the sources under test

namespace pbt {

namespace fs = std::filesystem;

void (*init)(){};

namespace {

constexpr size_t MaxTape{1U << 18}, MaxMsg{1U << 15}, MaxDesc{1U << 15};
constexpr int CaseCpuSeconds{30};

struct Shm {
  uint64_t caseNo;
  uint64_t tapeLen;
  uint64_t evaluations;
  uint64_t failed; // 1: Failure, 2: unexpected exception
  uint32_t tape[MaxTape];
  char msg[MaxMsg];
  char desc[MaxDesc];
};

Shm* shm{}; // the region of the current worker

std::vector<Sub>& subs() {
  static std::vector<Sub> s;
  return s;
}

uint64_t mix(uint64_t x) {
  x += 0x9e3779b97f4a7c15ULL;
  x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ULL;
  x = (x ^ (x >> 27)) * 0x94d049bb133111ebULL;
  return x ^ (x >> 31);
}

uint64_t hashStr(std::string_view s) {
  uint64_t h{1469598103934665603ULL};
  for (unsigned char c : s) h = (h ^ c) * 1099511628211ULL;
  return mix(h);
}

void copyTo(char* dst, size_t max, std::string_view s) {
  const auto n{std::min(max - 1, s.size())};
  memcpy(dst, s.data(), n);
  dst[n] = 0;
}

// per worker statistics
std::unordered_set<uint64_t>* keys{};
uint64_t nontrivialCount{};
constexpr size_t MaxKeys{400000}; // per worker and sub-check
std::map<std::string, uint64_t>* labels{};
std::vector<std::string>* samples{};
bool caseNontrivial{};
std::string caseDesc;

std::string scratchDir;

double now() {
  using namespace std::chrono;
  return duration<double>(steady_clock::now().time_since_epoch()).count();
}

void armTimer(int seconds) {
  itimerval t{};
  t.it_value.tv_sec = seconds;
  setitimer(ITIMER_PROF, &t, nullptr);
  t.it_value.tv_sec *= 8; // waiting without using the CPU
  setitimer(ITIMER_REAL, &t, nullptr);
}

// run one case in this process; returns true if it passed
bool runCase(const Sub& sub, Gen& g) {
  shm->tapeLen = 0;
  shm->desc[0] = 0;
  shm->msg[0] = 0;
  shm->failed = 0;
  caseNontrivial = false;
  caseDesc.clear();
  armTimer(CaseCpuSeconds);
  Ctx c{g};
  try {
    sub.fn(c);
  } catch (const Discard&) {
    return true;
  } catch (const Failure& f) {
    copyTo(shm->msg, MaxMsg, f.msg);
    shm->failed = 1;
    return false;
  } catch (const std::exception& e) {
    copyTo(shm->msg, MaxMsg, std::string{"unexpected exception: "} + e.what());
    shm->failed = 2;
    return false;
  } catch (...) {
    copyTo(shm->msg, MaxMsg, "unexpected exception of unknown type");
    shm->failed = 2;
    return false;
  }
  return true;
}

Shm* newShm() {
  auto* p{mmap(nullptr, sizeof(Shm), PROT_READ | PROT_WRITE,
      MAP_SHARED | MAP_ANONYMOUS, -1, 0)};
  if (p == MAP_FAILED) {
    perror("mmap");
    _exit(2);
  }
  return static_cast<Shm*>(p);
}

std::string describeStatus(int status) {
  if (WIFSIGNALED(status)) {
    if (WTERMSIG(status) == SIGPROF)
      return "no result after " + std::to_string(CaseCpuSeconds) +
             " s of CPU time (endless loop)";
    if (WTERMSIG(status) == SIGALRM)
      return "no result after " + std::to_string(CaseCpuSeconds * 8) + " s";
    return std::string{"killed by signal "} + strsignal(WTERMSIG(status));
  }
  return "process exited with status " + std::to_string(WEXITSTATUS(status));
}

void childSetup(const std::string& tag) {
  scratchDir += "/" + tag;
  fs::create_directories(scratchDir);
  // keep sanitizer reports and stray output away from our stdout
  const auto err{scratchDir + "/stderr.txt"};
  const int fd{open(err.c_str(), O_CREAT | O_WRONLY | O_TRUNC, 0600)};
  if (fd >= 0) {
    dup2(fd, 2);
    dup2(fd, 1);
    close(fd);
  }
  const int nul{open("/dev/null", O_RDONLY)};
  if (nul >= 0) {
    dup2(nul, 0);
    close(nul);
  }
}

struct Outcome {
  bool failed{};
  std::string msg, desc;
  Tape tape;
};

std::string errTail(const std::string& dir) {
  std::ifstream f{dir + "/stderr.txt"};
  std::string line, r;
  while (std::getline(f, line))
    if (line.find("ERROR: ") != std::string::npos ||
        line.find("runtime error") != std::string::npos ||
        line.find("Assertion") != std::string::npos ||
        line.find("SUMMARY") != std::string::npos) {
      r += " | " + line;
      if (r.size() > 1500) break;
    }
  return r;
}

size_t replayCounter{};

// run 'tape' in a fresh child process
Outcome runTape(const Sub& sub, const Tape& tape) {
  static Shm* region{newShm()};
  const auto tag{"r" + std::to_string(++replayCounter)};
  const pid_t pid{fork()};
  if (pid == 0) {
    shm = region;
    childSetup(tag);
    Gen g;
    g.replay = tape.data();
    g.replayLen = tape.size();
    const bool ok{runCase(sub, g)};
    fflush(nullptr);
    _exit(ok ? 0 : 3);
  }
  int status{};
  waitpid(pid, &status, 0);
  Outcome o;
  o.failed = status != 0;
  if (o.failed) {
    o.desc = region->desc;
    o.tape.assign(region->tape, region->tape + region->tapeLen);
    if (WIFEXITED(status) && WEXITSTATUS(status) == 3)
      o.msg = region->msg;
    else
      o.msg = describeStatus(status) + errTail(scratchDir + "/" + tag);
  }
  std::error_code ec;
  fs::remove_all(scratchDir + "/" + tag, ec);
  return o;
}

Outcome shrink(const Sub& sub, Outcome best, double budget) {
  const auto end{now() + budget};
  size_t tries{};
  auto attempt{[&](const Tape& t) {
    if (now() > end) return false;
    ++tries;
    auto o{runTape(sub, t)};
    if (!o.failed) return false;
    // keep the tape that was really consumed
    if (o.tape.size() > t.size()) o.tape = t;
    best = std::move(o);
    return true;
  }};
  for (bool progress{true}; progress && now() < end;) {
    progress = false;
    // delete chunks
    for (size_t chunk{std::max<size_t>(best.tape.size() / 2, 1)}; chunk;
         chunk /= 2)
      for (size_t i{}; i + chunk <= best.tape.size() && now() < end;) {
        auto t{best.tape};
        t.erase(t.begin() + static_cast<long>(i),
            t.begin() + static_cast<long>(i + chunk));
        if (t.size() < best.tape.size() && attempt(t))
          progress = true;
        else
          i += chunk;
      }
    // delete one and decrement an earlier (length) value
    for (size_t i{}; i < best.tape.size() && now() < end; ++i)
      if (best.tape[i] > 0 && best.tape[i] < 64)
        for (size_t d{1}; d <= 4 && i + d < best.tape.size(); ++d) {
          auto t{best.tape};
          --t[i];
          t.erase(t.begin() + static_cast<long>(i + d));
          if (attempt(t)) {
            progress = true;
            break;
          }
        }
    // minimise values
    for (size_t i{}; i < best.tape.size() && now() < end; ++i) {
      if (!best.tape[i]) continue;
      auto t{best.tape};
      t[i] = 0;
      if (attempt(t)) {
        progress = true;
        continue;
      }
      uint32_t lo{0};
      while (i < best.tape.size() && best.tape[i] > lo + 1 && now() < end) {
        const auto mid{lo + (best.tape[i] - lo) / 2};
        t = best.tape;
        t[i] = mid;
        if (attempt(t))
          progress = true;
        else
          lo = mid;
      }
    }
  }
  return best;
}

// length of the well-formed UTF-8 sequence at s[i] (0 if malformed), kept
// independent of the code under test
size_t wellFormed(std::string_view s, size_t i) {
  const auto byte{[&](size_t k) -> unsigned {
    return k < s.size() ? static_cast<unsigned char>(s[k]) : 0U;
  }};
  const auto c{byte(i)};
  if (c < 0x80) return 1;
  const size_t n{c >= 0xc2 && c < 0xe0 ? 2U
                 : c >= 0xe0 && c < 0xf0 ? 3U
                 : c >= 0xf0 && c < 0xf5 ? 4U : 0U};
  for (size_t k{1}; k < n; ++k)
    if ((byte(i + k) & 0xc0) != 0x80) return 0;
  const auto x{byte(i + 1)};
  if ((c == 0xe0 && x < 0xa0) || (c == 0xed && x > 0x9f) ||
      (c == 0xf0 && x < 0x90) || (c == 0xf4 && x > 0x8f))
    return 0;
  return n;
}

std::string jsonStr(std::string_view s) {
  std::string r{"\""};
  for (size_t i{}; i < s.size();) {
    const auto c{static_cast<unsigned char>(s[i])};
    const auto n{wellFormed(s, i)};
    char b[12];
    if (!n) {
      snprintf(b, sizeof b, "\\\\x%02x", c);
      r += b;
      ++i;
      continue;
    }
    if (c == '"' || c == '\\') {
      r += '\\';
      r += static_cast<char>(c);
    } else if (c < 0x20 || c == 0x7f) {
      snprintf(b, sizeof b, "\\u%04x", c);
      r += b;
    } else
      r.append(s.substr(i, n));
    i += n;
  }
  return r + "\"";
}

// workers ---------------------------------------------------------------

struct WorkerResult {
  uint64_t evaluations{};
  bool failed{}, timedOut{};
  uint64_t caseNo{};
  Outcome outcome;
};

std::string workerFile(size_t subNo, size_t w) {
  return scratchDir + "/s" + std::to_string(subNo) + "w" + std::to_string(w);
}

uint64_t caseSeed(uint64_t seed, const Sub& sub, uint64_t n) {
  return mix(mix(seed) ^ hashStr(sub.name) ^ mix(n * 2654435761ULL + 17));
}

void prepareGen(Gen& g, const Sub& sub, uint64_t seed, uint64_t n) {
  g = Gen{};
  g.seed(caseSeed(seed, sub, n));
  if (sub.enumerate) {
    g.forceFirst = true;
    g.firstValue = static_cast<uint32_t>(n);
  }
}

[[noreturn]] void worker(const Sub& sub, size_t subNo, size_t w, size_t workers,
    uint64_t cases, uint64_t seed, double deadline, uint64_t stopAfter) {
  const auto file{workerFile(subNo, w)};
  childSetup("s" + std::to_string(subNo) + "w" + std::to_string(w) + ".d");
  std::unordered_set<uint64_t> k;
  nontrivialCount = 0;
  std::map<std::string, uint64_t> l;
  std::vector<std::string> s;
  keys = &k;
  labels = &l;
  samples = &s;
  bool ok{true};
  for (uint64_t n{w}; n < cases; n += workers) {
    if (now() > deadline) break;
    shm->caseNo = n;
    Gen g;
    prepareGen(g, sub, seed, n);
    ok = runCase(sub, g);
    ++shm->evaluations;
    if (!ok || n == stopAfter) break;
    if (caseNontrivial && s.size() < 3 && !caseDesc.empty())
      s.emplace_back(caseDesc.substr(0, 400));
  }
  armTimer(0);
  std::ofstream f{file};
  f << nontrivialCount << ' ' << k.size() << '\n';
  for (auto i : k) f << i << '\n';
  f << l.size() << '\n';
  for (auto& i : l) f << i.second << ' ' << i.first << '\n';
  f << s.size() << '\n';
  for (auto& i : s) f << jsonStr(i) << '\n';
  f.close();
  fflush(nullptr);
  std::error_code ec;
  if (ok) fs::remove_all(scratchDir, ec);
  _exit(ok ? 0 : 3);
}

// re-run the cases of worker 'w' up to and including 'last' in one process
bool rerunSequence(const Sub& sub, size_t subNo, size_t w, size_t workers,
    uint64_t cases, uint64_t seed, uint64_t last) {
  auto* region{newShm()};
  const pid_t pid{fork()};
  if (pid == 0) {
    shm = region;
    worker(sub, subNo + 1000, w, workers, cases, seed, now() + 600, last);
  }
  int status{};
  waitpid(pid, &status, 0);
  munmap(region, sizeof(Shm));
  return status != 0;
}

std::string envOr(const char* name, const char* def) {
  const auto* v{getenv(name)};
  return v && *v ? v : def;
}

std::string tapeStr(const Tape& t) {
  std::string r;
  for (auto i : t) r += (r.empty() ? "" : " ") + std::to_string(i);
  return r;
}

} // namespace

const std::string& scratch() { return scratchDir; }

void fail(const std::string& m) { throw Failure{m}; }

std::string show(std::string_view s) {
  std::string r{"\""};
  for (char i : s) {
    const auto c{static_cast<unsigned char>(i)};
    if (c == '\n')
      r += "\\n";
    else if (c == '\t')
      r += "\\t";
    else if (c < 0x20 || c == 0x7f) {
      char b[8];
      snprintf(b, sizeof b, "\\x%02x", c);
      r += b;
    } else
      r += i;
  }
  r += "\"";
  bool ok{true};
  for (size_t i{}; i < s.size() && ok;) {
    const auto n{wellFormed(s, i)};
    ok = n != 0;
    i += n;
  }
  if (!ok) {
    r = "hex:";
    for (char i : s) {
      char b[4];
      snprintf(b, sizeof b, "%02x ", static_cast<unsigned char>(i));
      r += b;
    }
  }
  return r;
}

// Gen ---------------------------------------------------------------------

void Gen::seed(uint64_t x) {
  s[0] = mix(x);
  s[1] = mix(s[0] ^ 0x5851f42d4c957f2dULL);
  if (!s[0] && !s[1]) s[0] = 1;
}

uint64_t Gen::next() { // xoroshiro128+
  const auto a{s[0]};
  auto b{s[1]};
  const auto r{a + b};
  b ^= a;
  s[0] = ((a << 24) | (a >> 40)) ^ b ^ (b << 16);
  s[1] = (b << 37) | (b >> 27);
  return r;
}

uint32_t Gen::record(uint32_t v) {
  if (shm->tapeLen < MaxTape) shm->tape[shm->tapeLen++] = v;
  ++drawn;
  return v;
}

uint32_t Gen::below(uint32_t n) {
  if (!n) n = 1;
  if (replay) {
    const auto v{drawn < replayLen ? replay[drawn] : 0U};
    return record(v < n ? v : v % n);
  }
  if (forceFirst && !drawn) return record(firstValue % n);
  return record(static_cast<uint32_t>((next() >> 11) % n));
}

bool Gen::hasDict() { return DictSize > 0; }

const std::string& Gen::dictString() {
  static const std::vector<std::string> v{[] {
    std::vector<std::string> r;
    for (auto& i : DictStrings) r.emplace_back(i.data(), i.size());
    if (r.empty()) r.emplace_back("");
    return r;
  }()};
  // literals that are new since the reference dictionary come first
  if (DictNewStrings > 0 && below(2)) return v[below(DictNewStrings)];
  return v[below(static_cast<uint32_t>(v.size()))];
}

uint32_t Gen::dictNumber() {
  if (DictNewNumbers > 0 && below(2)) return DictNumbers[below(DictNewNumbers)];
  return DictNumbers[below(static_cast<uint32_t>(std::size(DictNumbers)))];
}

uint32_t Gen::longSize(uint32_t max) {
  if (!chance(1, 250)) return size(max);
  return pick({32U, 64U, 100U, 128U, 200U, 256U, 512U, 1000U}) + below(3);
}

uint32_t Gen::size(uint32_t max) {
  if (!max) return 0;
  switch (below(10)) {
  case 0: case 1: case 2: case 3: case 4:
    return below(std::min(max, 6U) + 1);
  case 5: case 6: case 7: return below(std::min(max, 20U) + 1);
  case 8: return below(max + 1);
  default: {
    auto n{dictNumber()};
    n = n + below(3);
    n = n ? n - 1 : 0;
    return n <= max ? n : below(max + 1);
  }
  }
}

uint32_t Gen::number(uint32_t max) {
  if (!max) return 0;
  switch (below(6)) {
  case 0: return below(std::min(max, 9U) + 1);
  case 1: return below(std::min(max, 300U) + 1);
  case 2: return max - below(std::min(max, 3U) + 1);
  case 3: case 4: return max == UINT32_MAX ? below(max) : below(max + 1);
  default: {
    auto n{dictNumber()};
    n = n + below(3);
    n = n ? n - 1 : 0;
    return n <= max ? n : n % max;
  }
  }
}

size_t Gen::weighted(std::initializer_list<uint32_t> w) {
  uint32_t total{};
  for (auto i : w) total += i;
  auto x{below(total)};
  size_t n{};
  for (auto i : w) {
    if (x < i) return n;
    x -= i;
    ++n;
  }
  return n - 1;
}

// Ctx ---------------------------------------------------------------------

void Ctx::describe(const std::string& s) {
  copyTo(shm->desc, MaxDesc, s);
  caseDesc = s;
}

void Ctx::nontrivial(const std::string& key) {
  caseNontrivial = true;
  ++nontrivialCount;
  if (keys && keys->size() < MaxKeys) keys->insert(hashStr(key));
}

void Ctx::label(const std::string& s) {
  if (labels) ++(*labels)[s];
}

bool Ctx::wantSample() const { return samples && samples->size() < 3; }

Registrar::Registrar(
    const char* name, Fn fn, uint32_t q, uint32_t t, bool enumerate) {
  subs().push_back({name, fn, q, t, enumerate});
}

} // namespace pbt

using namespace pbt;

int main(int argc, char** argv) {
  const std::string tier{envOr("VERIF_TIER", "quick")},
      outDir{envOr("PBT_OUT", "/verif")}, only{envOr("PBT_ONLY", "")};
  const bool thorough{tier == "thorough"};
  const auto seed{strtoull(envOr("VERIF_SEED", "1").c_str(), nullptr, 10)};
  const auto workers{static_cast<size_t>(
      std::max(1, atoi(envOr("PBT_WORKERS", "8").c_str())))};
  const double limit{atof(
      envOr("PBT_LIMIT", thorough ? "800" : "400").c_str())};
  const double scale{atof(envOr("PBT_SCALE", "1").c_str())};
  const auto start{now()};
  scratchDir = envOr("PBT_SCRATCH", "/tmp") + "/pbt-" + info.id + "-" +
               std::to_string(getpid());
  fs::create_directories(scratchDir);
  struct Cleanup {
    ~Cleanup() {
      std::error_code ec;
      fs::remove_all(scratchDir, ec);
    }
  } cleanup;
  if (init) init();
  // declaration order within one source file
  auto& all{subs()};

  if (argc > 2 && std::string{argv[1]} == "replay") {
    // replay file: first line sub name, second line the tape (or 'seq ...')
    std::ifstream f{argv[2]};
    std::string line, name, tape;
    while (std::getline(f, line)) {
      if (line.starts_with("sub=")) name = line.substr(4);
      if (line.starts_with("tape=")) tape = line.substr(5);
    }
    for (size_t i{}; i < all.size(); ++i)
      if (name == all[i].name) {
        if (tape.starts_with("seq ")) {
          std::istringstream ss{tape.substr(4)};
          uint64_t w{}, nw{}, cases{}, sd{}, last{};
          ss >> w >> nw >> cases >> sd >> last;
          const bool r{rerunSequence(all[i], i, w, nw, cases, sd, last)};
          std::cout << (r ? "REPRODUCED" : "passed") << '\n';
          return r ? 1 : 0;
        }
        std::istringstream ss{tape};
        Tape t;
        for (uint32_t v{}; ss >> v;) t.push_back(v);
        const auto o{runTape(all[i], t)};
        if (o.failed)
          std::cout << "REPRODUCED " << name << "\n  case: " << o.desc
                    << "\n  failure: " << o.msg << '\n';
        else
          std::cout << "passed\n";
        return o.failed ? 1 : 0;
      }
    std::cerr << "unknown sub-check in replay file\n";
    return 2;
  }

  uint64_t evaluations{};
  std::unordered_set<uint64_t> distinct;
  std::ostringstream subJson, sampleJson;
  size_t sampleCount{}, violations{};
  bool truncated{};
  std::string violationLine;
  double shares{};
  for (auto& i : all) shares += 1;
  for (size_t no{}; no < all.size() && !violations; ++no) {
    auto& sub{all[no]};
    if (!only.empty() && only != sub.name) continue;
    auto cases{static_cast<uint64_t>(thorough ? sub.thorough : sub.quick)};
    if (!sub.enumerate)
      cases = std::max<uint64_t>(static_cast<uint64_t>(cases * scale), 1);
    const auto subStart{now()};
    // a time limit only ever ends the search early
    const auto remaining{start + limit - subStart};
    const auto deadline{
        subStart + std::max(5., remaining / static_cast<double>(
                                                all.size() - no) * 1.5)};
    const auto nw{std::min<size_t>(workers, cases)};
    std::vector<Shm*> regions;
    std::vector<pid_t> pids;
    for (size_t w{}; w < nw; ++w) {
      regions.push_back(newShm());
      const pid_t pid{fork()};
      if (pid == 0) {
        shm = regions[w];
        worker(sub, no, w, nw, cases, seed, deadline, UINT64_MAX);
      }
      pids.push_back(pid);
    }
    bool anyFailed{};
    size_t failedWorker{};
    Outcome first;
    uint64_t firstCase{};
    std::map<pid_t, int> exits;
    for (size_t left{nw}; left;) {
      int status{};
      const pid_t pid{waitpid(-1, &status, 0)};
      if (pid < 0) break;
      const auto it{std::find(pids.begin(), pids.end(), pid)};
      if (it == pids.end()) continue;
      --left;
      if (status && !anyFailed) {
        const auto w{static_cast<size_t>(it - pids.begin())};
        anyFailed = true;
        failedWorker = w;
        auto* r{regions[w]};
        firstCase = r->caseNo;
        first.failed = true;
        first.tape.assign(r->tape, r->tape + r->tapeLen);
        first.desc = r->desc;
        first.msg =
            WIFEXITED(status) && WEXITSTATUS(status) == 3
                ? std::string{r->msg}
                : describeStatus(status) +
                      errTail(workerFile(no, w) + ".d");
        for (auto p : pids)
          if (p != pid) kill(p, SIGKILL);
      }
    }
    uint64_t subEval{}, subNontrivial{};
    std::map<std::string, uint64_t> subLabels;
    std::unordered_set<uint64_t> subDistinct;
    std::vector<std::string> subSamples;
    for (size_t w{}; w < nw; ++w) {
      subEval += regions[w]->evaluations;
      munmap(regions[w], sizeof(Shm));
      std::ifstream f{workerFile(no, w)};
      size_t n{}, all{};
      if (f >> all >> n)
        for (uint64_t k{}; n && f >> k; --n) {
          subDistinct.insert(k);
          distinct.insert(mix(k ^ (no + 1)));
        }
      subNontrivial += all;
      if (f >> n) {
        std::string line;
        for (uint64_t k{}; n && f >> k; --n) {
          f.get();
          std::getline(f, line);
          subLabels[line] += k;
        }
        if (f >> n) {
          std::getline(f, line);
          for (; n && std::getline(f, line); --n)
            if (subSamples.size() < 3) subSamples.push_back(line);
        }
      }
    }
    evaluations += subEval;
    if (!anyFailed && subEval < cases) truncated = true;
    if (subJson.tellp() > 0) subJson << ",\n    ";
    subJson << "{\"name\": " << jsonStr(sub.name)
            << ", \"evaluations\": " << subEval
            << ", \"nontrivial\": " << subNontrivial
            << ", \"distinct_nontrivial\": " << subDistinct.size()
            << ", \"planned\": " << cases << ", \"enumerated\": "
            << (sub.enumerate ? "true" : "false") << ", \"wall_s\": "
            << now() - subStart << ", \"labels\": {";
    bool comma{};
    for (auto& i : subLabels) {
      subJson << (comma ? ", " : "") << jsonStr(i.first) << ": " << i.second;
      comma = true;
    }
    subJson << "}}";
    for (auto& i : subSamples) {
      sampleJson << (sampleCount++ ? ",\n    " : "") << "{\"check\": "
                 << jsonStr(sub.name) << ", \"case\": " << i << "}";
    }
    if (anyFailed) {
      std::cout << "sub-check " << sub.name << " failed (case " << firstCase
                << "): " << first.msg << "\n  case: " << first.desc << std::endl;
      // reproduce in fresh processes before reporting
      bool single{true};
      for (int i{}; i < 3 && single; ++i)
        single = runTape(sub, first.tape).failed;
      std::string tape;
      bool reproduced{single}; // an empty tape is valid
      Outcome best{first};
      if (single) {
        best = shrink(sub, first, thorough ? 120 : 45);
        int ok{};
        for (int i{}; i < 3; ++i) ok += runTape(sub, best.tape).failed;
        if (ok < 3) best = first;
        tape = tapeStr(best.tape);
      } else {
        // maybe it needs the history of earlier cases in the same process
        int ok{};
        for (int i{}; i < 3; ++i)
          ok += rerunSequence(
              sub, no, failedWorker, nw, cases, seed, firstCase);
        reproduced = ok > 0;
        if (ok)
          tape = "seq " + std::to_string(failedWorker) + " " +
                 std::to_string(nw) + " " + std::to_string(cases) + " " +
                 std::to_string(seed) + " " + std::to_string(firstCase);
        else
          for (int i{}; i < 20 && !reproduced; ++i)
            if (runTape(sub, first.tape).failed) {
              reproduced = true;
              tape = tapeStr(first.tape);
            }
      }
      if (!reproduced) {
        std::cout << "  not reproducible, ignored\n";
        subJson << "";
      } else {
        ++violations;
        const auto dir{outDir + "/replays"};
        fs::create_directories(dir);
        const auto path{dir + "/" + info.id + "-" + sub.name + ".replay"};
        std::ofstream f{path};
        f << "property=" << info.id << "\nsub=" << sub.name
          << "\nseed=" << seed << "\ncase=" << firstCase << "\ntape=" << tape
          << "\ndescription=" << best.desc << "\nfailure=" << best.msg << '\n';
        std::cout << "  shrunk case: " << best.desc
                  << "\n  failure: " << best.msg << '\n';
        violationLine = std::string{"VIOLATION property="} + info.id +
                        " replay=" + path;
      }
    }
  }
  const auto evidence{outDir + "/evidence/" + info.id + ".json"};
  fs::create_directories(outDir + "/evidence");
  {
    std::ofstream f{evidence};
    f << "{\n  \"property\": " << jsonStr(info.id) << ",\n  \"tier\": "
      << jsonStr(tier == "thorough" ? "thorough" : "quick")
      << ",\n  \"seed\": " << seed
      << ",\n  \"level\": \"exploration\",\n  \"coverage\": {\n   "
         "\"evaluations\": "
      << evaluations << ",\n   \"distinct_nontrivial\": " << distinct.size()
      << ",\n   \"rule\": " << jsonStr(info.rule)
      << ",\n   \"ended_early\": " << (truncated ? "true" : "false")
      << ",\n   \"subchecks\": [\n    " << subJson.str()
      << "],\n   \"samples\": [\n    " << sampleJson.str()
      << "]\n  },\n  \"wall_s\": " << now() - start
      << ",\n  \"violations\": " << violations << "\n}\n";
  }
  std::cout << info.id << " tier=" << tier << " seed=" << seed
            << " evaluations=" << evaluations
            << " distinct_nontrivial=" << distinct.size() << " wall="
            << now() - start << "s" << (truncated ? " (ended early)" : "")
            << std::endl;
  if (violations) {
    std::cout << violationLine << std::endl;
    return 1;
  }
  return 0;
}
