// Common monitor runtime of the harnesses: deterministic PRNG, case bookkeeping, violation and coverage recording,
// CPU-time watchdog.  Nothing in here depends on SplineLib.
#ifndef VP_H_
#define VP_H_

#include <fcntl.h>
#include <sys/time.h>
#include <signal.h>
#include <unistd.h>

#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <functional>
#include <map>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <typeinfo>
#include <vector>

namespace vp {

inline uint64_t Mix(uint64_t x) {
  x += 0x9e3779b97f4a7c15ULL;
  x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ULL;
  x = (x ^ (x >> 27)) * 0x94d049bb133111ebULL;
  return x ^ (x >> 31);
}

inline uint64_t HashStr(const std::string &s) {
  uint64_t h = 1469598103934665603ULL;
  for (unsigned char c : s) {
    h ^= c;
    h *= 1099511628211ULL;
  }
  return Mix(h);
}

class Rng {
 public:
  explicit Rng(uint64_t seed) : s_(seed) { Next(); }
  uint64_t Next() {
    s_ += 0x9e3779b97f4a7c15ULL;
    uint64_t z = s_;
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
    return z ^ (z >> 31);
  }
  // inclusive bounds
  int Int(int a, int b) { return a + static_cast<int>(Next() % static_cast<uint64_t>(b - a + 1)); }
  double Unit() { return static_cast<double>(Next() >> 11) * (1.0 / 9007199254740992.0); }
  double Real(double a, double b) { return a + (b - a) * Unit(); }
  bool Chance(double p) { return Unit() < p; }
  template<class T> const T &Pick(const std::vector<T> &v) { return v[Next() % v.size()]; }

 private:
  uint64_t s_;
};

inline std::string JsonEscape(const std::string &s) {
  std::string o;
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { o += '\\'; o += static_cast<char>(c); }
    else if (c == '\n') o += "\\n";
    else if (c == '\t') o += "\\t";
    else if (c < 0x20 || c >= 0x7f) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; }
    else o += static_cast<char>(c);
  }
  return o;
}

struct Violation { long case_id; std::string key, message, input; };

class Ctx {
 public:
  uint64_t seed = 1;
  std::string prop = "C00", tier = "quick", out, current, tmpdir = ".", bindir;
  long cases = 100, shard = 0, nshards = 1, only = -1, start = 0;
  long case_id = -1;
  std::string case_input;   // human readable description of the current case
  long evaluations = 0, observations = 0;
  std::map<std::string, long> counters;
  std::set<uint64_t> distinct;
  std::vector<std::string> samples;
  std::vector<Violation> violations;
  std::map<std::string, long> violation_counts;

  void Parse(int argc, char **argv) {
    for (int i = 1; i + 1 < argc; i += 2) {
      std::string a = argv[i], v = argv[i + 1];
      if (a == "--seed") seed = strtoull(v.c_str(), nullptr, 10);
      else if (a == "--prop") prop = v;
      else if (a == "--tier") tier = v;
      else if (a == "--cases") cases = atol(v.c_str());
      else if (a == "--shard") shard = atol(v.c_str());
      else if (a == "--nshards") nshards = atol(v.c_str());
      else if (a == "--start") start = atol(v.c_str());
      else if (a == "--only") only = atol(v.c_str());
      else if (a == "--out") out = v;
      else if (a == "--current") current = v;
      else if (a == "--tmpdir") tmpdir = v;
      else if (a == "--bindir") bindir = v;
    }
  }
  bool Thorough() const { return tier == "thorough"; }
  Rng CaseRng(long id) const { return Rng(Mix(seed * 1000003ULL + HashStr(prop)) ^ Mix(static_cast<uint64_t>(id) * 7919ULL + 17)); }

  void Count(const std::string &op, long n = 1) { counters[op] += n; }
  void Observe(long n = 1) { observations += n; }
  void Distinct(const std::string &signature) { distinct.insert(HashStr(signature)); }
  void Input(const std::string &s) { case_input = s; }
  void Violate(const std::string &key, const std::string &msg) {
    long &n = violation_counts[key];
    if (n++ < 3 && violations.size() < 60) violations.push_back({case_id, key, msg, case_input});
  }
  // oracle check: counts an observation and records a violation if it does not hold
  bool Expect(bool ok, const std::string &key, const std::function<std::string()> &msg) {
    ++observations;
    if (!ok) Violate(key, msg());
    return ok;
  }

  void WriteReport() const {
    FILE *f = fopen(out.c_str(), "w");
    if (f == nullptr) { perror("report"); exit(3); }
    fprintf(f, "{\"evaluations\":%ld,\"observations\":%ld,\n\"counters\":{", evaluations, observations);
    bool first = true;
    for (auto &c : counters) { fprintf(f, "%s\"%s\":%ld", first ? "" : ",", JsonEscape(c.first).c_str(), c.second); first = false; }
    fprintf(f, "},\n\"distinct\":[");
    first = true;
    for (auto h : distinct) { fprintf(f, "%s\"%llx\"", first ? "" : ",", static_cast<unsigned long long>(h)); first = false; }
    fprintf(f, "],\n\"samples\":[");
    first = true;
    for (auto &s : samples) { fprintf(f, "%s\"%s\"", first ? "" : ",", JsonEscape(s).c_str()); first = false; }
    fprintf(f, "],\n\"violation_counts\":{");
    first = true;
    for (auto &c : violation_counts) { fprintf(f, "%s\"%s\":%ld", first ? "" : ",", JsonEscape(c.first).c_str(), c.second); first = false; }
    fprintf(f, "},\n\"violations\":[");
    first = true;
    for (auto &v : violations) {
      fprintf(f, "%s{\"case\":%ld,\"key\":\"%s\",\"message\":\"%s\",\"input\":\"%s\"}", first ? "" : ",\n", v.case_id,
              JsonEscape(v.key).c_str(), JsonEscape(v.message).c_str(), JsonEscape(v.input).c_str());
      first = false;
    }
    fprintf(f, "]}\n");
    fclose(f);
  }
};

inline void HangHandler(int) {
  static const char msg[] = "VP-HANG: CPU budget of one case exhausted\n";
  ssize_t r = write(2, msg, sizeof msg - 1);
  (void) r;
  _exit(77);
}

// Runs `body(ctx, rng)` for every case of this shard.  Any exception that leaves the body is a violation: bodies catch
// the exceptions the property allows themselves.
inline void RunCases(Ctx *c, const std::function<void(Ctx *, Rng *)> &body, int cpu_seconds_per_case = 60) {
  signal(SIGPROF, HangHandler);
  int fd = c->current.empty() ? -1 : open(c->current.c_str(), O_CREAT | O_RDWR | O_TRUNC, 0644);
  for (long id = 0; id < c->cases; ++id) {
    if (c->only >= 0 ? id != c->only : (id < c->start || (id % c->nshards) != c->shard)) continue;
    c->case_id = id;
    c->case_input.clear();
    if (fd >= 0) {
      char b[32];
      int n = snprintf(b, sizeof b, "%-20ld\n", id);
      ssize_t r = pwrite(fd, b, static_cast<size_t>(n), 0);
      (void) r;
    }
    itimerval tv{};
    tv.it_value.tv_sec = cpu_seconds_per_case;
    setitimer(ITIMER_PROF, &tv, nullptr);
    Rng rng = c->CaseRng(id);
    try {
      body(c, &rng);
    } catch (const std::exception &e) {
      c->Violate("unexpected-exception", std::string(typeid(e).name()) + ": " + e.what());
    } catch (...) {
      c->Violate("unexpected-exception", "unknown exception");
    }
    ++c->evaluations;
    if (c->samples.size() < 3 && !c->case_input.empty() && (id / c->nshards) % 7 == 0) c->samples.push_back(c->case_input);
  }
  itimerval off{};
  setitimer(ITIMER_PROF, &off, nullptr);
  if (fd >= 0) close(fd);
}

template<class... A> std::string Cat(const A &... a) {
  std::ostringstream o;
  o.precision(17);
  int dummy[] = {0, ((void) (o << a), 0)...};
  (void) dummy;
  return o.str();
}
}  // namespace vp
#endif  // VP_H_
