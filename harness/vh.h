// Common parts of the harness programs: options, random numbers, case
// bookkeeping, violation reports and the statistics written at the end.
#ifndef VH_H
#define VH_H

#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <fcntl.h>
#include <sys/mman.h>
#include <unistd.h>
#include <time.h>

#include <atomic>
#include <functional>
#include <map>
#include <mutex>
#include <set>
#include <string>
#include <vector>

#if defined(__SANITIZE_ADDRESS__)
extern "C" int __lsan_do_recoverable_leak_check(void);
extern "C" void __lsan_disable(void);
extern "C" void __lsan_enable(void);
#endif

namespace vh {

// ---------------------------------------------------------------- random
struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed = 1): s(seed) { next(); next(); }
  uint64_t next()
  {
    uint64_t z = (s += 0x9e3779b97f4a7c15ull);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
  }
  uint64_t below(uint64_t n) { return n ? next() % n : 0; }
  int64_t range(int64_t lo, int64_t hi) { return lo + (int64_t)below((uint64_t)(hi - lo + 1)); }
  bool chance(unsigned num, unsigned den) { return below(den) < num; }
  template <class T> const T& pick(const std::vector<T>& v) { return v[below(v.size())]; }
};

inline uint64_t fnv(const std::string& s, uint64_t h = 1469598103934665603ull)
{
  for (size_t i = 0; i < s.size(); ++i) { h ^= (unsigned char)s[i]; h *= 1099511628211ull; }
  return h;
}

// ---------------------------------------------------------------- options
struct Opts {
  std::string prop, tier, out, marker;
  uint64_t seed;
  long cases, only, start;
  int shard, nshards;
  double stop_after;              // never used to decide; only a note
  std::map<std::string, std::string> extra;
  Opts(): tier("quick"), seed(1), cases(100), only(-1), start(0), shard(0), nshards(1), stop_after(0) {}
  std::string get(const std::string& k, const std::string& d = "") const
  {
    std::map<std::string, std::string>::const_iterator i = extra.find(k);
    return i == extra.end() ? d : i->second;
  }
  long num(const std::string& k, long d) const
  {
    std::string s = get(k);
    return s.empty() ? d : atol(s.c_str());
  }
  bool thorough() const { return tier == "thorough"; }
};

inline Opts& opts() { static Opts o; return o; }

// ---------------------------------------------------------------- state
struct State {
  std::mutex m;
  std::map<std::string, long> counters;
  std::set<uint64_t> sigs;
  std::vector<std::string> samples;
  long evaluations, violations, cur;
  char* mark;
  State(): evaluations(0), violations(0), cur(-1), mark(0) {}
};
inline State& st() { static State* s = new State; return *s; }

inline double now()
{
  struct timespec t;
  clock_gettime(CLOCK_MONOTONIC, &t);
  return t.tv_sec + t.tv_nsec * 1e-9;
}

inline std::string esc(const std::string& s, size_t max = 600)
{
  std::string r;
  char b[16];
  for (size_t i = 0; i < s.size() && r.size() < max; ++i) {
    unsigned char c = s[i];
    if (c == '"' || c == '\\') { r += '\\'; r += (char)c; }
    else if (c == '\n') r += "\\n";
    else if (c == '\r') r += "\\r";
    else if (c == '\t') r += "\\t";
    else if (c < 32 || c > 126) { snprintf(b, sizeof b, "\\u%04x", c); r += b; }
    else r += (char)c;
  }
  if (r.size() >= max) { snprintf(b, sizeof b, "...(%zu)", s.size()); r += b; }
  return r;
}

inline void count(const std::string& name, long n = 1)
{
  std::lock_guard<std::mutex> l(st().m);
  st().counters[name] += n;
}

inline void maximum(const std::string& name, long v)
{
  std::lock_guard<std::mutex> l(st().m);
  long& x = st().counters["max:" + name];
  if (v > x) x = v;
}

//! The signature of a distinct, non-trivial case.
inline void distinct(const std::string& sig)
{
  std::lock_guard<std::mutex> l(st().m);
  st().sigs.insert(fnv(sig));
}

inline void sample(const std::string& s)
{
  std::lock_guard<std::mutex> l(st().m);
  if (st().samples.size() < 6) st().samples.push_back((opts().num("tls", 0) ? "TLS: " : "") + s.substr(0, 800));
}

//! A short text saying what is running, readable after a crash.
inline void mark(const std::string& what)
{
  if (!st().mark) return;
  char b[4096];
  int n = snprintf(b, sizeof b, "case=%ld %s", st().cur, what.substr(0, 3800).c_str());
  memcpy(st().mark, b, n + 1);
}

inline long& fail_limit() { static long l = 8; return l; }

inline void finish_now(int code);

//! Report a violation. `key` identifies the kind, without run-specific data.
inline void fail(const std::string& key, const std::string& detail)
{
  long n;
  {
    std::lock_guard<std::mutex> l(st().m);
    n = ++st().violations;
    printf("@VIOLATION {\"key\": \"%s\", \"case\": %ld, \"detail\": \"%s\"}\n",
      esc(key).c_str(), st().cur, esc(detail, 3000).c_str());
    fflush(stdout);
  }
  if (n >= fail_limit())
    finish_now(1);
}

//! The harness itself cannot go on: neither held nor violated.
inline void broken(const std::string& why)
{
  printf("@HARNESS %s\n", esc(why, 2000).c_str());
  fflush(stdout);
  _exit(3);
}

inline void write_stats()
{
  std::lock_guard<std::mutex> l(st().m);
  if (opts().out.empty()) return;
  FILE* f = fopen(opts().out.c_str(), "w");
  if (!f) return;
  fprintf(f, "{\"evaluations\": %ld, \"violations\": %ld, \"counters\": {", st().evaluations, st().violations);
  bool first = true;
  for (std::map<std::string, long>::iterator i = st().counters.begin(); i != st().counters.end(); ++i) {
    fprintf(f, "%s\"%s\": %ld", first ? "" : ", ", esc(i->first).c_str(), i->second);
    first = false;
  }
  fprintf(f, "}, \"samples\": [");
  for (size_t i = 0; i < st().samples.size(); ++i)
    fprintf(f, "%s\"%s\"", i ? ", " : "", esc(st().samples[i], 1200).c_str());
  fprintf(f, "]}\n");
  fclose(f);
  f = fopen((opts().out + ".sig").c_str(), "w");
  if (!f) return;
  for (std::set<uint64_t>::iterator i = st().sigs.begin(); i != st().sigs.end(); ++i)
    fwrite(&*i, 8, 1, f);
  fclose(f);
}

inline void finish_now(int code)
{
  write_stats();
  fflush(stdout);
  _exit(code);
}

inline void init(int argc, char** argv, const char* prop)
{
  Opts& o = opts();
  o.prop = prop;
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i];
    size_t e = a.find('=');
    std::string k = a.substr(0, e), v = e == std::string::npos ? "" : a.substr(e + 1);
    if (k == "--seed") o.seed = strtoull(v.c_str(), 0, 10);
    else if (k == "--cases") o.cases = atol(v.c_str());
    else if (k == "--only") o.only = atol(v.c_str());
    else if (k == "--start") o.start = atol(v.c_str());
    else if (k == "--tier") o.tier = v;
    else if (k == "--prop") o.prop = v;
    else if (k == "--out") o.out = v;
    else if (k == "--marker") o.marker = v;
    else if (k == "--shard") o.shard = atoi(v.c_str());
    else if (k == "--nshards") o.nshards = atoi(v.c_str());
    else if (k.substr(0, 2) == "--") o.extra[k.substr(2)] = v;
    else { fprintf(stderr, "bad argument %s\n", argv[i]); exit(3); }
  }
  if (!o.marker.empty()) {
    int fd = open(o.marker.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0644);
    if (fd >= 0 && ftruncate(fd, 8192) == 0) {
      void* p = mmap(0, 8192, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
      if (p != MAP_FAILED) st().mark = (char*)p;
    }
    if (fd >= 0) close(fd);
  }
  setvbuf(stdout, 0, _IOLBF, 0);
}

inline Rng case_rng(long i, const char* salt = "")
{
  return Rng(opts().seed * 0x2545F4914F6CDD1Dull ^ fnv(opts().prop + salt) ^ ((uint64_t)i * 0x9E3779B97F4A7C15ull));
}

//! Leak check in the middle of a run; reports once and stops.  Memory that is
//! lost stays lost, so a report which later looks do not confirm (threads were
//! just starting or ending) is withdrawn.
inline void leak_check(const std::string& where)
{
#if defined(__SANITIZE_ADDRESS__)
  count("leak checks");
  if (__lsan_do_recoverable_leak_check()) {
    for (int k = 0; k < 3; ++k) {
      usleep(300000);
      if (!__lsan_do_recoverable_leak_check()) {
        count("leak reports withdrawn");
        fprintf(stderr, "\n[leak report withdrawn]\n");
        return;
      }
    }
    fail("leak", "leak sanitizer reported a leak, noticed " + where);
    finish_now(1);
  }
#else
  (void)where;
#endif
}

//! Runs `fn(i)` for this shard's cases.
inline void run_cases(const std::function<void(long, Rng&)>& fn, long leak_every = 0)
{
  Opts& o = opts();
  long done = 0;
  for (long i = 0; i < o.cases; ++i) {
    if (o.only >= 0 ? i != o.only : i < o.start || i % o.nshards != o.shard) continue;
    st().cur = i;
    mark("");
    Rng r = case_rng(i);
    fn(i, r);
    { std::lock_guard<std::mutex> l(st().m); st().evaluations++; }
    if (leak_every && ++done % leak_every == 0) {
      char b[96];
      snprintf(b, sizeof b, "after %ld cases, last case %ld", done, i);
      leak_check(b);
    }
  }
  if (o.only >= 0 && o.only >= o.cases) broken("no such case");
}

inline int finish(bool leak = true)
{
  if (leak) leak_check("at the end of the run");
  write_stats();
  return st().violations ? 1 : 0;
}

inline std::string fmt(const char* f, ...) __attribute__((format(printf, 1, 2)));
inline std::string fmt(const char* f, ...)
{
  va_list ap;
  va_start(ap, f);
  char b[8192];
  vsnprintf(b, sizeof b, f, ap);
  va_end(ap);
  return b;
}

} // namespace vh

#endif
