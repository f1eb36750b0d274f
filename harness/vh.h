// Common support for the monitors: seeded randomness, case accounting,
// violation reporting, crash reporting, guarded objects, GMP oracle helpers.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdarg>
#include <cmath>
#include <csignal>
#include <string>
#include <atomic>
#include <vector>
#include <map>
#include <unordered_set>
#include <functional>
#include <algorithm>
#include <memory>
#include <mutex>
#include <pthread.h>
#include <unistd.h>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/resource.h>

namespace vh {
typedef uint64_t u64;
typedef __int128 i128;
typedef unsigned __int128 u128_t;

inline u64 splitmix(u64 &s) {
  u64 z = (s += 0x9E3779B97F4A7C15ULL);
  z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL;
  z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL;
  return z ^ (z >> 31);
}
inline u64 hmix(u64 a, u64 b) {
  u64 s = a * 0x9E3779B97F4A7C15ULL + b + 0x632BE59BD9B4E019ULL;
  return splitmix(s);
}
inline u64 hstr(const char *s) {
  u64 h = 1469598103934665603ULL;
  for (; *s; ++s) h = (h ^ (unsigned char)*s) * 1099511628211ULL;
  return h;
}
inline u64 hbytes(const void *p, size_t n, u64 h = 77) {
  const unsigned char *c = (const unsigned char *)p;
  while (n >= 8) { u64 w; memcpy(&w, c, 8); h = hmix(h, w); c += 8; n -= 8; }
  u64 w = 0; memcpy(&w, c, n);
  return hmix(h, w + n);
}

struct Rng {
  u64 s;
  explicit Rng(u64 seed = 1) : s(seed) {}
  u64 next() { return splitmix(s); }
  u64 below(u64 n) { return n ? next() % n : 0; }
  int range(int a, int b) { return a + (int)below((u64)(b - a + 1)); }
  bool coin() { return next() >> 63; }
  double unit() { return (double)(next() >> 11) * 0x1p-53; }
  double sym() { return 2 * unit() - 1; }
  double gauss() {
    double u = unit(), v = unit();
    if (u < 1e-300) u = 1e-300;
    return std::sqrt(-2 * std::log(u)) * std::cos(6.283185307179586 * v);
  }
};

struct State {
  std::string job = "job", out, tier = "quick";
  u64 seed = 1;
  int part = 0, parts = 1;
  long long evals = 0;
  std::unordered_set<u64> distinct;
  std::map<std::string, long long> cats;
  std::vector<std::string> samples;
  int nviol = 0;
  FILE *f = nullptr;
  std::mutex mu;
};
inline State &st() { static State *s = new State; return *s; }
inline bool thorough() { return st().tier == "thorough"; }
inline long scale(long quick, long thor) { return thorough() ? thor : quick; }

inline char *casebuf() { static char b[4096]; return b; }
inline volatile int &casedepth() { static volatile int d = 0; return d; }

// moves with every case; the watchdog reads it from a signal handler
inline std::atomic<u64> &beat() { static std::atomic<u64> b{0}; return b; }
inline void setcase(const char *fmt, ...) {
  beat().fetch_add(1, std::memory_order_relaxed);
  va_list ap; va_start(ap, fmt);
  vsnprintf(casebuf(), 2048, fmt, ap);
  va_end(ap);
}
inline std::string jesc(const std::string &s) {
  std::string r;
  for (char c : s) {
    if (c == '"' || c == '\\') { r += '\\'; r += c; }
    else if (c == '\n') r += "\\n";
    else if ((unsigned char)c < 32 || (unsigned char)c > 126) r += '?';
    else r += c;
  }
  return r;
}
inline void viol(const char *key, const char *fmt, ...) {
  char b[3000];
  va_list ap; va_start(ap, fmt);
  vsnprintf(b, sizeof b, fmt, ap);
  va_end(ap);
  State &s = st();
  std::lock_guard<std::mutex> g(s.mu);
  if (++s.nviol > 25) return;
  fprintf(s.f, "{\"t\":\"viol\",\"key\":\"%s\",\"msg\":\"%s\",\"case\":\"%s\"}\n", jesc(key).c_str(), jesc(b).c_str(),
          jesc(casebuf()).c_str());
  fflush(s.f);
}
// count one evaluated case; h identifies it
inline void cover(u64 h, bool nontrivial = true) {
  State &s = st();
  beat().fetch_add(1, std::memory_order_relaxed);
  s.evals++;
  if (nontrivial && s.distinct.size() < 250000) s.distinct.insert(hmix(hstr(s.job.c_str()), h));
}
inline void cat(const std::string &name, long long n = 1) { st().cats[name] += n; }
inline void catmax(const std::string &name, double v) {
  long long x = (long long)std::llround(v);
  auto it = st().cats.find(name);
  if (it == st().cats.end() || it->second < x) st().cats[name] = x;
}
inline void sample(const char *fmt, ...) {
  State &s = st();
  if (s.samples.size() >= 4) return;
  char b[1500];
  va_list ap; va_start(ap, fmt);
  vsnprintf(b, sizeof b, fmt, ap);
  va_end(ap);
  s.samples.push_back(b);
}

inline long &limit_s() { static long v = 0; return v; }
inline long stall_s() { return st().tier == "thorough" ? 600 : 100; }
inline long tick_s() { return 10; }

#ifdef VH_TSAN
extern "C" void AnnotateIgnoreReadsBegin(const char *, int);
extern "C" void AnnotateIgnoreReadsEnd(const char *, int);
#endif
inline void crash_handler(int sig) {
  // async-signal context: only write()
  if (sig == SIGALRM) {  // a tick: stop only when the limit is reached, or nothing has moved for a long time
    static long total = 0, still = 0;
    static u64 last = 0;
    u64 now = beat().load(std::memory_order_relaxed);
    total += tick_s();
    if (now != last) { last = now; still = 0; } else still += tick_s();
    if (total < limit_s() && still < stall_s()) { alarm((unsigned)tick_s()); return; }
  }
  static volatile sig_atomic_t once = 0;
  if (once) _exit(99);
  once = 1;
#ifdef VH_TSAN
  AnnotateIgnoreReadsBegin(__FILE__, __LINE__);  // it ends the process: what it prints need not be ordered
#endif
  char b[6000];
  char c[4200]; int k = 0;
  for (const char *p = casebuf(); *p && k < 4000; ++p) c[k++] = (*p == '"' || *p == '\\' || (unsigned char)*p < 32) ? '\'' : *p;
  c[k] = 0;
  int n;
  if (sig == SIGALRM || sig == SIGTERM || sig == SIGVTALRM || sig == SIGPROF)
    n = snprintf(b, sizeof b, "{\"t\":\"hang\",\"key\":\"hang\",\"msg\":\"time limit reached\",\"case\":\"%s\"}\n", c);
  else
    n = snprintf(b, sizeof b, "{\"t\":\"viol\",\"key\":\"crash:sig%d\",\"msg\":\"the code under test died with signal %d\",\"case\":\"%s\"}\n", sig, sig, c);
  int fd = st().f ? fileno(st().f) : 2;
#ifdef VH_TSAN
  AnnotateIgnoreReadsEnd(__FILE__, __LINE__);
#endif
  if (write(fd, b, n) < 0) {}
  _exit(sig == SIGALRM || sig == SIGTERM || sig == SIGPROF ? 98 : 99);
}

inline void finish() {
  State &s = st();
  if (!s.f) return;
  std::string o = "{\"t\":\"sum\",\"evals\":" + std::to_string(s.evals) + ",\"distinct\":" + std::to_string(s.distinct.size()) +
                  ",\"nviol\":" + std::to_string(s.nviol) + ",\"cats\":{";
  bool first = true;
  for (auto &c : s.cats) { o += (first ? "\"" : ",\"") + jesc(c.first) + "\":" + std::to_string(c.second); first = false; }
  o += "},\"samples\":[";
  first = true;
  for (auto &c : s.samples) { o += (first ? "\"" : ",\"") + jesc(c) + "\""; first = false; }
  o += "]}\n";
  fputs(o.c_str(), s.f);
  fflush(s.f);
  FILE *h = fopen((s.out + ".hash").c_str(), "wb");
  if (h) {
    for (u64 x : s.distinct) fwrite(&x, 8, 1, h);
    fclose(h);
  }
}

struct BigStack { void (*fn)(); };
inline void *bigstack_main(void *p) { ((BigStack *)p)->fn(); return nullptr; }

#ifndef VH_STACK
#define VH_STACK (3ULL << 30)
#endif
inline int run(int argc, char **argv, void (*body)()) {
  State &s = st();
  long alarm_s = 0;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    auto val = [&]() { return std::string(i + 1 < argc ? argv[++i] : ""); };
    if (a == "--seed") s.seed = strtoull(val().c_str(), 0, 10);
    else if (a == "--tier") s.tier = val();
    else if (a == "--out") s.out = val();
    else if (a == "--job") s.job = val();
    else if (a == "--part") { std::string v = val(); sscanf(v.c_str(), "%d/%d", &s.part, &s.parts); }
    else if (a == "--alarm") alarm_s = atol(val().c_str());
  }
  if (s.out.empty()) s.f = stderr; else s.f = fopen(s.out.c_str(), "w");
  if (!s.f) { perror("out"); return 2; }
  static char alt[1 << 16];
  (void)alt;
  for (int sig : {SIGSEGV, SIGABRT, SIGBUS, SIGFPE, SIGILL, SIGALRM, SIGTERM, SIGPROF}) {
    struct sigaction sa;
    memset(&sa, 0, sizeof sa);
    sa.sa_handler = crash_handler;
    sa.sa_flags = SA_ONSTACK | SA_RESTART;
#ifdef VH_SANITIZER
    if (sig != SIGALRM && sig != SIGTERM && sig != SIGPROF && sig != SIGABRT) continue;
#endif
    sigaction(sig, &sa, nullptr);
  }
  if (alarm_s) { limit_s() = alarm_s; alarm((unsigned)tick_s()); }
  srand((unsigned)(s.seed * 2654435761u + 12345));
  // the library keeps large objects on the stack: run the body on a big one
  pthread_attr_t at;
  pthread_attr_init(&at);
  static BigStack bs;
  bs.fn = body;
  pthread_t t;
  pthread_attr_setstacksize(&at, VH_STACK);
  static void (*bodyp)();
  bodyp = body;
  auto tramp = [](void *) -> void * {
#ifndef VH_SANITIZER  // the sanitizers install their own
    stack_t ss;
    memset(&ss, 0, sizeof ss);
    ss.ss_sp = malloc(1 << 16);
    ss.ss_size = 1 << 16;
    sigaltstack(&ss, nullptr);
#endif
    bodyp();
    return nullptr;
  };
  if (pthread_create(&t, &at, tramp, nullptr)) { fprintf(stderr, "cannot create thread\n"); return 2; }
  pthread_join(t, nullptr);
  finish();
  if (s.f != stderr) fclose(s.f);
  return 0;
}

// random stream for case number `i` of stage `stage`, independent of everything else
inline Rng rng_for(const char *stage, u64 i) {
  return Rng(hmix(hmix(st().seed, hstr(stage)), hmix(i, 0x1234 + (u64)st().part * 7919)));
}
// stream shared by all shards
inline Rng rng_global(const char *stage, u64 i) { return Rng(hmix(hmix(st().seed, hstr(stage)), i)); }
inline bool mine(u64 i) { return (int)(i % st().parts) == st().part; }

// an object between two guard zones
template <class T> struct Guarded {
  u64 g0[8];
  T v;
  u64 g1[8];
  u64 pat;
  explicit Guarded(u64 p = 0xA5A5C3C35A5A3C3CULL) : pat(p) {
    for (int i = 0; i < 8; i++) g0[i] = g1[i] = pat + i;
  }
  bool ok() const {
    for (int i = 0; i < 8; i++) if (((volatile const u64 *)g0)[i] != pat + i || ((volatile const u64 *)g1)[i] != pat + i) return false;
    return true;
  }
};
template <class T> std::unique_ptr<Guarded<T>> mk() { return std::unique_ptr<Guarded<T>>(new Guarded<T>()); }

template <class T> void poison(T &t, u64 seed) {
  Rng r(seed);
  unsigned char *p = (unsigned char *)&t;
  size_t n = sizeof(T);
  for (size_t i = 0; i < n; i += 8) { u64 w = r.next(); memcpy(p + i, &w, n - i < 8 ? n - i : 8); }
}

// capture what the code prints on stdout
struct Capture {
  int fd, old;
  Capture() {
    fflush(stdout);
    fd = memfd_create("cap", 0);
    old = dup(1);
    dup2(fd, 1);
  }
  std::string end() {
    fflush(stdout);
    dup2(old, 1);
    close(old);
    off_t n = lseek(fd, 0, SEEK_END);
    std::string s((size_t)n, 0);
    if (pread(fd, &s[0], (size_t)n, 0) < 0) s.clear();
    close(fd);
    return s;
  }
};
}  // namespace vh

#define VH_MAIN(body) int main(int argc, char **argv) { return vh::run(argc, argv, body); }
