// Shared part of the native contract harnesses: the contracts of /verif/specs evaluated on the compiled library, as the
// bounded stand-in for functions (or paths) the deductive part cannot decide. Every case is generated from (seed, number).
#ifndef VF_H_
#define VF_H_
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
#include <signal.h>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>
#include <array>
#include <memory>
#include <algorithm>

namespace vf {
struct Fail : std::runtime_error { using std::runtime_error::runtime_error; };
struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed) : s(seed * 0x9E3779B97F4A7C15ull + 0x1234567ull) { next(); next(); }
  uint64_t next() { s ^= s << 13; s ^= s >> 7; s ^= s << 17; return s * 0x2545F4914F6CDD1Dull; }
  int in(int a, int b) { return a + static_cast<int>((next() >> 33) % static_cast<uint64_t>(b - a + 1)); }
  double unit() { return static_cast<double>(next() >> 11) / 9007199254740992.0; }
  double real(double a, double b) { return a + (b - a) * unit(); }
  double dyadic(int a, int b, int den) { return static_cast<double>(in(a * den, b * den)) / den; }
  bool flip() { return (next() >> 40) & 1; }
};
struct Shared { long done; long current; char what[4096]; };
inline Shared *&shared() { static Shared *p = nullptr; return p; }
inline void note(const std::string &s) { if (shared()) { strncpy(shared()->what, s.c_str(), sizeof(shared()->what) - 1); } }
template<class... A> std::string str(const A &... a) { std::ostringstream o; o.precision(17); int d[] = {0, ((void) (o << a), 0)...}; (void) d; return o.str(); }
template<class C> std::string list(const C &c) { std::ostringstream o; o.precision(17); o << "["; bool f = true; for (const auto &x : c) { if (!f) o << ","; o << x; f = false; } o << "]"; return o.str(); }
template<class... A> void require(bool ok, const A &... a) { if (!ok) throw Fail(str(a...)); }
inline bool near(double a, double b, double tol) { return std::isfinite(a) && std::isfinite(b) && std::fabs(a - b) <= tol * (1 + std::max(std::fabs(a), std::fabs(b))); }

// ---- independent reference: Cox-de Boor in long double ----
typedef long double LD;
inline LD N(const std::vector<double> &U, int i, int p, double u) {
  double last = U.back();
  if (p == 0) {
    if (U[i] <= u && u < U[i + 1]) return 1;
    if (u == last && U[i + 1] == last && U[i] < U[i + 1]) return 1;
    return 0;
  }
  LD l = static_cast<LD>(U[i + p]) - U[i], r = static_cast<LD>(U[i + p + 1]) - U[i + 1], v = 0;
  if (l != 0) v += (static_cast<LD>(u) - U[i]) / l * N(U, i, p - 1, u);
  if (r != 0) v += (static_cast<LD>(U[i + p + 1]) - u) / r * N(U, i + 1, p - 1, u);
  return v;
}
inline LD dN(const std::vector<double> &U, int i, int p, double u, int k) {
  if (k == 0) return N(U, i, p, u);
  if (p == 0) return 0;
  LD l = static_cast<LD>(U[i + p]) - U[i], r = static_cast<LD>(U[i + p + 1]) - U[i + 1], v = 0;
  if (l != 0) v += p / l * dN(U, i, p - 1, u, k - 1);
  if (r != 0) v -= p / r * dN(U, i + 1, p - 1, u, k - 1);
  return v;
}

// ---- running cases ----
struct Options { long seed = 1; bool thorough = false; long only = -1; double budget = 20; };
struct Case { std::string name; std::function<void(Rng &)> run; int quick, thorough; };
inline int drive(int argc, char **argv, const std::vector<Case> &cases) {
  Options o;
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i];
    if (a == "--thorough") o.thorough = true;
    else if (a == "--seed") o.seed = atol(argv[++i]);
    else if (a == "--case") o.only = atol(argv[++i]);
    else if (a == "--budget") o.budget = atof(argv[++i]);
  }
  shared() = static_cast<Shared *>(mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
  // cases are interleaved so that a cut-off budget still touches every kind
  std::vector<std::pair<int, long>> order;
  auto count = [&](size_t k) { return o.thorough ? cases[k].thorough : std::min(cases[k].thorough, cases[k].quick * 10); };
  for (long round = 0, more = 1; more; ++round) { more = 0; for (size_t k = 0; k < cases.size(); ++k) if (count(k) > round) { order.emplace_back(static_cast<int>(k), round); more = 1; } }
  long total = static_cast<long>(order.size());
  long start = o.only >= 0 ? o.only : 0, end = o.only >= 0 ? o.only + 1 : total, failures = 0;
  time_t t0 = time(nullptr);
  while (start < end && failures < 5) {
    shared()->current = start; shared()->done = start; shared()->what[0] = 0;
    fflush(stdout);
    pid_t pid = fork();
    if (pid == 0) {
      for (long n = start; n < end; ++n) {
        if (difftime(time(nullptr), t0) > o.budget && o.only < 0) { shared()->done = n; printf("BUDGET %ld of %ld\n", n, total); fflush(stdout); _exit(9); }
        shared()->current = n; shared()->what[0] = 0; alarm(30);
        const Case *c = &cases[order[n].first]; long idx = order[n].second;
        Rng rng(static_cast<uint64_t>(o.seed) * 1000003ull + static_cast<uint64_t>(c - &cases[0]) * 7919ull + static_cast<uint64_t>(idx) * 104729ull);
        try { c->run(rng); }
        catch (const Fail &f) { printf("FAIL %ld %s :: %s :: %s\n", n, c->name.c_str(), f.what(), shared()->what); fflush(stdout); shared()->done = n + 1; _exit(3); }
        catch (const std::exception &e) { printf("FAIL %ld %s :: unexpected exception: %s :: %s\n", n, c->name.c_str(), e.what(), shared()->what); fflush(stdout); shared()->done = n + 1; _exit(3); }
      }
      shared()->done = end; _exit(0);
    }
    int st = 0; waitpid(pid, &st, 0);
    if (WIFEXITED(st) && WEXITSTATUS(st) == 0) { start = end; }
    else if (WIFEXITED(st) && WEXITSTATUS(st) == 9) { start = shared()->done; break; }
    else if (WIFEXITED(st) && WEXITSTATUS(st) == 3) { ++failures; start = shared()->done; }
    else {
      ++failures;
      printf("FAIL %ld crash :: %s :: %s\n", shared()->current, WIFSIGNALED(st) ? (WTERMSIG(st) == SIGALRM ? "does not terminate" : strsignal(WTERMSIG(st))) : "abnormal exit", shared()->what);
      start = shared()->current + 1;
    }
  }
  printf("DONE cases=%ld failures=%ld\n", o.only >= 0 ? 1 : start, failures);
  return failures ? 1 : 0;
}
}  // namespace vf
#endif
