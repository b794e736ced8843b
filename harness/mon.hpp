// Monitor runtime shared by every harness of /verif/harness.
//
// The program forks: the child runs the real library under the workload, the
// parent watches it.  Everything the monitors observe lives in a shared
// mapping, so it survives whatever the child dies of (sanitizer abort, signal,
// std::terminate, a hang), and the parent can name the case being executed.
#ifndef VERIF_MON_HPP
#define VERIF_MON_HPP

#include <cerrno>
#include <csignal>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <string>
#include <vector>

#include <fcntl.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>

namespace mon {

typedef __int128 i128;
typedef unsigned __int128 u128;

struct Counter {
  char name[88];
  uint64_t n;
};

struct Violation {
  char key[160];
  char text[2048];
};

constexpr int max_args = 12;
constexpr int max_str = 600;

struct Case {
  const char* op;
  const char* a;
  const char* b;
  const char* c;
  int nargs;
  i128 args[max_args];
  int slen; // -1: none
  unsigned char str[max_str];
};

struct Shared {
  volatile uint64_t progress;
  uint64_t evaluations;  // cases executed against the real code
  uint64_t observations; // oracle decisions taken
  uint64_t out_of_domain;
  uint64_t distinct;
  int exhausted_spaces;
  int truncated;
  int finished;
  int nbuckets;
  Counter buckets[1200];
  int nsamples;
  uint64_t sample_seen;
  char samples[12][400];
  int nviol;
  Violation viol[24];
  Case cur;
};

inline Shared* S = nullptr;

// ---------------------------------------------------------------- buckets

inline uint64_t* bucket(const char* fmt, ...)
{
  char name[88];
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(name, sizeof name, fmt, ap);
  va_end(ap);
  for (int i = 0; i < S->nbuckets; ++i)
    if (!strcmp(S->buckets[i].name, name))
      return &S->buckets[i].n;
  if (S->nbuckets >= 1199)
    return &S->buckets[1199].n;
  auto& b = S->buckets[S->nbuckets++];
  snprintf(b.name, sizeof b.name, "%s", name);
  return &b.n;
}

#define MON_BUCKET(...)                                                        \
  do                                                                           \
  {                                                                            \
    static uint64_t* const mon_b_ = mon::bucket(__VA_ARGS__);                  \
    ++*mon_b_;                                                                 \
  } while (0)

// ---------------------------------------------------------------- text

inline std::string str(i128 v)
{
  bool const neg = v < 0;
  u128 m = neg ? u128(0) - u128(v) : u128(v);
  char buf[48];
  int i = 47;
  buf[i] = 0;
  do
  {
    buf[--i] = char('0' + int(m % 10));
    m /= 10;
  } while (m);
  if (neg)
    buf[--i] = '-';
  return buf + i;
}

inline std::string escaped(unsigned char const* p, int n)
{
  std::string r = "\"";
  for (int i = 0; i < n; ++i)
  {
    char b[8];
    if (p[i] >= 32 && p[i] < 127 && p[i] != '"' && p[i] != '\\')
      r += char(p[i]);
    else
    {
      snprintf(b, sizeof b, "\\x%02x", p[i]);
      r += b;
    }
  }
  return r + "\"";
}

inline std::string describe(Case const& c)
{
  std::string r = c.op ? c.op : "(no case started)";
  if (c.a || c.b || c.c)
  {
    r += " [";
    bool first = true;
    for (auto p : {c.a, c.b, c.c})
      if (p)
      {
        if (!first)
          r += ", ";
        r += p;
        first = false;
      }
    r += "]";
  }
  if (c.nargs)
  {
    r += " args";
    for (int i = 0; i < c.nargs && i < max_args; ++i)
      r += " " + str(c.args[i]);
  }
  if (c.slen >= 0)
    r += " text " + escaped(c.str, c.slen < max_str ? c.slen : max_str);
  return r;
}

// ---------------------------------------------------------------- violations

[[noreturn]] inline void stop_now()
{
  fflush(nullptr);
  _exit(77);
}

inline void fail(const char* key, const char* fmt, ...)
{
  char text[1200];
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(text, sizeof text, fmt, ap);
  va_end(ap);
  // the same key is reported a few times only
  int same = 0;
  for (int i = 0; i < S->nviol; ++i)
    same += !strcmp(S->viol[i].key, key);
  if (same >= 2)
    return;
  auto& v = S->viol[S->nviol];
  snprintf(v.key, sizeof v.key, "%s", key);
  snprintf(v.text, sizeof v.text, "%s; case: %s", text, describe(S->cur).c_str());
  if (++S->nviol >= 20)
    stop_now();
}

// the observed type of a result
template <class A, class B> inline void same_type(const char* what)
{
  if constexpr (!__is_same(A, B))
    fail(what, "%s is not the documented one", what);
}

// ---------------------------------------------------------------- cases

inline uint64_t mix(uint64_t x)
{
  x ^= x >> 33;
  x *= 0xff51afd7ed558ccdULL;
  x ^= x >> 33;
  x *= 0xc4ceb9fe1a85ec53ULL;
  return x ^ (x >> 33);
}

struct Distinct {
  std::vector<uint64_t> t;
  uint64_t n = 0;
  Distinct() : t(1u << 21, 0) {}
  bool add(uint64_t h)
  {
    if (!h)
      h = 1;
    if (n > t.size() / 2)
      return false; // table full: count what fitted, never overcount
    size_t i = mix(h) & (t.size() - 1);
    while (t[i])
    {
      if (t[i] == h)
        return false;
      i = (i + 1) & (t.size() - 1);
    }
    t[i] = h;
    ++n;
    return true;
  }
};

inline Distinct& distinct()
{
  static Distinct d;
  return d;
}

inline void begin(const char* op, const char* a, const char* b, const char* c)
{
  auto& k = S->cur;
  k.op = op;
  k.a = a;
  k.b = b;
  k.c = c;
  k.nargs = 0;
  k.slen = -1;
}

template <typename... A>
inline void begin(const char* op,
                  const char* a,
                  const char* b,
                  const char* c,
                  A... args)
{
  begin(op, a, b, c);
  auto& k = S->cur;
  static_assert(sizeof...(A) <= max_args, "");
  ((k.args[k.nargs++] = i128(args)), ...);
}

inline void begin_text(void const* p, size_t n)
{
  auto& k = S->cur;
  k.slen = int(n < size_t(max_str) ? n : size_t(max_str));
  memcpy(k.str, p, size_t(k.slen));
}

// The case in S->cur has been executed and judged: count it.
inline void done(bool nontrivial = true)
{
  auto& k = S->cur;
  ++S->evaluations;
  S->progress = S->progress + 1;
  if (!nontrivial)
    return;
  uint64_t h = mix(uint64_t(uintptr_t(k.op)) * 31 + uint64_t(uintptr_t(k.a)) * 17
                   + uint64_t(uintptr_t(k.b)) * 7 + uint64_t(uintptr_t(k.c)));
  for (int i = 0; i < k.nargs; ++i)
  {
    h = mix(h ^ uint64_t(k.args[i])) + 0x9e3779b97f4a7c15ULL;
    h = mix(h ^ uint64_t(u128(k.args[i]) >> 64)) + 1;
  }
  for (int i = 0; i < k.slen; ++i)
    h = (h ^ k.str[i]) * 0x100000001b3ULL;
  if (distinct().add(h))
  {
    ++S->distinct;
    // log-spaced samples
    if (S->nsamples < 12
        && (S->distinct & (S->distinct - 1)) == 0 && S->distinct >= 8)
    {
      if (S->distinct % 3 == 2 || S->nsamples < 8)
        snprintf(S->samples[S->nsamples++], 400, "%s", describe(k).c_str());
    }
  }
}

inline void seen(uint64_t n = 1) { S->observations += n; }
inline void ood() { ++S->out_of_domain; }

// ---------------------------------------------------------------- random

struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed) : s(mix(seed + 0x1234567)) {}
  uint64_t u()
  {
    s += 0x9e3779b97f4a7c15ULL;
    uint64_t z = s;
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
    return z ^ (z >> 31);
  }
  uint64_t below(uint64_t n) { return n ? u() % n : 0; }
  int range(int lo, int hi) { return lo + int(below(uint64_t(hi - lo + 1))); }
  bool chance(int percent) { return below(100) < uint64_t(percent); }
  u128 wide() { return (u128(u()) << 64) | u(); }
  i128 upto(i128 max) // uniform in [0, max]
  {
    return max <= 0 ? 0 : i128(wide() % (u128(max) + 1));
  }
};

// ---------------------------------------------------------------- run control

struct Env {
  uint64_t seed;
  bool thorough;
  double deadline; // CPU-independent wall clock limit for the workload
  double t0;
  Rng rng;
  Env(uint64_t sd, bool th, double limit) :
    seed(sd), thorough(th), deadline(limit), t0(now()), rng(sd)
  {
  }
  static double now()
  {
    timespec t;
    clock_gettime(CLOCK_MONOTONIC, &t);
    return double(t.tv_sec) + double(t.tv_nsec) * 1e-9;
  }
  double elapsed() const { return now() - t0; }
  uint64_t count(uint64_t quick, uint64_t thor) const
  {
    return thorough ? thor : quick;
  }
  // loop control: i-th iteration of n, stops early (and says so) at the limit
  bool go(uint64_t i, uint64_t n)
  {
    if (i >= n)
      return false;
    if ((i & 255) == 0 && elapsed() > deadline)
    {
      S->truncated = 1;
      return false;
    }
    return true;
  }
};

inline void json_str(FILE* f, const char* s)
{
  fputc('"', f);
  for (; *s; ++s)
  {
    unsigned char c = static_cast<unsigned char>(*s);
    if (c == '"' || c == '\\')
      fprintf(f, "\\%c", c);
    else if (c < 32 || c > 126)
      fprintf(f, "\\u%04x", c);
    else
      fputc(c, f);
  }
  fputc('"', f);
}

// mode: "run OUT SEED TIER LIMIT"
inline int
main_impl(int argc, char** argv, void (*run)(Env&), double hang_s = 120)
{
  if (argc < 5)
  {
    fprintf(stderr, "usage: %s OUT.json SEED quick|thorough LIMIT_S\n", argv[0]);
    return 2;
  }
  S = static_cast<Shared*>(mmap(nullptr,
                                sizeof(Shared),
                                PROT_READ | PROT_WRITE,
                                MAP_SHARED | MAP_ANONYMOUS,
                                -1,
                                0));
  if (S == MAP_FAILED)
    return 2;
  memset(static_cast<void*>(S), 0, sizeof *S);
  S->cur.slen = -1;
  snprintf(S->buckets[1199].name, 88, "(other)");
  bool const thorough = !strcmp(argv[3], "thorough");
  pid_t const child = fork();
  if (child < 0)
    return 2;
  if (child == 0)
  {
    Env env(strtoull(argv[2], nullptr, 10), thorough, atof(argv[4]));
    run(env);
    S->finished = 1;
    fflush(nullptr);
    _exit(0);
  }
  int status = 0;
  bool hung = false;
  uint64_t last = S->progress;
  clockid_t clk;
  bool const have_clk = clock_getcpuclockid(child, &clk) == 0;
  auto cpu = [&] {
    timespec t {};
    if (!have_clk || clock_gettime(clk, &t) != 0)
      return 0.0;
    return double(t.tv_sec) + double(t.tv_nsec) * 1e-9;
  };
  double mark = cpu();
  for (;;)
  {
    pid_t const r = waitpid(child, &status, WNOHANG);
    if (r == child)
      break;
    if (r < 0 && errno != EINTR)
      return 2;
    usleep(5000);
    if (S->progress != last)
    {
      last = S->progress;
      mark = cpu();
    }
    else if (cpu() - mark > hang_s) // CPU time burnt inside one single case
    {
      hung = true;
      kill(child, SIGKILL);
      waitpid(child, &status, 0);
      break;
    }
  }
  int harness_error = 0;
  auto died = [&](const char* how) {
    auto& v = S->viol[S->nviol < 23 ? S->nviol++ : 23];
    snprintf(v.key, sizeof v.key, "%s in %s", how, S->cur.op ? S->cur.op : "?");
    snprintf(v.text, sizeof v.text, "%s; case: %s", how, describe(S->cur).c_str());
  };
  if (hung)
    died("no return from a call (hang)");
  else if (WIFSIGNALED(status))
  {
    int const sg = WTERMSIG(status);
    if (sg == SIGKILL || sg == SIGTERM || sg == SIGINT || sg == SIGHUP)
      harness_error = 1; // somebody outside ended it
    else
    {
      char b[64];
      snprintf(b, sizeof b, "signal %d", sg);
      died(b);
    }
  }
  else if (WIFEXITED(status) && WEXITSTATUS(status) == 76)
    harness_error = 1;
  else if (WIFEXITED(status) && WEXITSTATUS(status) == 77)
    ; // stopped after enough violations
  else if (!S->finished)
    died("sanitizer report or premature exit");
  else if (WIFEXITED(status) && WEXITSTATUS(status) != 0)
    died("report of the instrumentation at exit");

  FILE* f = fopen(argv[1], "w");
  if (!f)
    return 2;
  fprintf(f,
          "{\"evaluations\":%llu,\"observations\":%llu,\"out_of_domain\":%llu,"
          "\"distinct\":%llu,\"truncated\":%d,\"finished\":%d,\"harness_error\":%d,"
          "\"exhausted_spaces\":%d,\n\"buckets\":{",
          (unsigned long long)S->evaluations,
          (unsigned long long)S->observations,
          (unsigned long long)S->out_of_domain,
          (unsigned long long)S->distinct,
          S->truncated,
          S->finished,
          harness_error,
          S->exhausted_spaces);
  bool first = true;
  for (int i = 0; i < 1200; ++i)
    if (S->buckets[i].n)
    {
      fprintf(f, first ? "" : ",\n");
      first = false;
      json_str(f, S->buckets[i].name);
      fprintf(f, ":%llu", (unsigned long long)S->buckets[i].n);
    }
  fprintf(f, "},\n\"samples\":[");
  for (int i = 0; i < S->nsamples; ++i)
  {
    fprintf(f, i ? ",\n" : "");
    json_str(f, S->samples[i]);
  }
  fprintf(f, "],\n\"violations\":[");
  for (int i = 0; i < S->nviol && i < 24; ++i)
  {
    fprintf(f, i ? ",\n{\"key\":" : "{\"key\":");
    json_str(f, S->viol[i].key);
    fprintf(f, ",\"text\":");
    json_str(f, S->viol[i].text);
    fprintf(f, "}");
  }
  fprintf(f, "]}\n");
  fclose(f);
  return harness_error ? 2 : (S->nviol ? 1 : 0);
}

} // namespace mon

#endif
