// Shared helpers for the monitors: PRNG, reporting, crash handling.
#pragma once
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdarg.h>
#include <unistd.h>
#include <signal.h>
#include <errno.h>
#include <ucontext.h>
#include <sys/mman.h>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <unordered_set>
#if __has_include(<valgrind/memcheck.h>)
#include <valgrind/memcheck.h>
#else
#define VALGRIND_MAKE_MEM_UNDEFINED(p, n) ((void)(p), (void)(n))
#define VALGRIND_MAKE_MEM_DEFINED(p, n) ((void)(p), (void)(n))
#define RUNNING_ON_VALGRIND 0
#endif
typedef uint8_t u8; typedef uint16_t u16; typedef uint32_t u32; typedef uint64_t u64;
typedef int8_t s8; typedef int16_t s16; typedef int32_t s32; typedef int64_t s64;

struct Rng {
  u64 s[2];
  static u64 mix(u64 z) { z += 0x9e3779b97f4a7c15ull; z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; return z ^ (z >> 31); }
  void seed(u64 a, u64 b = 0, u64 c = 0) { s[0] = mix(a ^ mix(b ^ mix(c))); s[1] = mix(s[0] ^ 0x1234567); if (!s[0] && !s[1]) s[0] = 1; }
  u64 next() { u64 a = s[0], b = s[1]; s[0] = b; a ^= a << 23; s[1] = a ^ b ^ (a >> 18) ^ (b >> 5); return s[1] + b; }
  u64 below(u64 n) { return n ? next() % n : 0; }
  bool chance(unsigned pct) { return below(100) < pct; }
  long range(long a, long b) { return a + (long)below((u64)(b - a + 1)); }
  void fill(void *p, size_t n) { u8 *q = (u8 *)p; while (n) { u64 v = next(); size_t k = n < 8 ? n : 8; memcpy(q, &v, k); q += k; n -= k; } }
};

inline u64 fnv(const void *p, size_t n, u64 h = 1469598103934665603ull) { const u8 *q = (const u8 *)p; while (n--) { h ^= *q++; h *= 1099511628211ull; } return h; }
inline u64 fnv(const std::string &s) { return fnv(s.data(), s.size()); }

// ---- reporting -----------------------------------------------------------
// A harness reports at most one violation per process: "VIOL <kind> | <text>" and exits 3.
extern std::string (*viol_context)();     // describes the running case
extern volatile long g_case;              // case number for the crash handler
extern char g_phase[64];
extern std::set<std::string> only_kinds;  // --kinds=a,b: report these only (crashes and fatal kinds always)
extern u64 n_otherkinds;
inline bool kind_wanted(const char *kind) {
  if (only_kinds.empty() || only_kinds.count(kind)) return true;
  return !strcmp(kind, "status") || !strcmp(kind, "closure-alloc") || !strncmp(kind, "crash", 5);
}
inline void set_kinds(const std::string &l) { size_t i = 0; while (i < l.size()) { size_t j = l.find(',', i); if (j == std::string::npos) j = l.size(); only_kinds.insert(l.substr(i, j - i)); i = j + 1; } }
inline void viol(const char *kind, const char *fmt, ...) {
  if (!kind_wanted(kind)) { __atomic_add_fetch(&n_otherkinds, 1, __ATOMIC_RELAXED); return; }
  char buf[4096]; va_list ap; va_start(ap, fmt); vsnprintf(buf, sizeof buf, fmt, ap); va_end(ap);
  std::string c = viol_context ? viol_context() : std::string();
  printf("VIOL %s | case=%ld %s | %s\n", kind, (long)g_case, buf, c.c_str());
  fflush(stdout);
  _exit(3);
}
inline void phase(const char *p) { strncpy(g_phase, p, sizeof g_phase - 1); }
void install_crash_handlers();
// distinct case identities, written as raw 64-bit hashes for the driver to merge
inline void write_ids(const std::string &path, const std::unordered_set<u64> &ids) { if (path.empty()) return; FILE *f = fopen(path.c_str(), "wb"); if (!f) { perror(path.c_str()); exit(2); } for (u64 v : ids) fwrite(&v, 8, 1, f); fclose(f); }
inline void stat_line(const char *k, u64 v) { printf("STAT %s %llu\n", k, (unsigned long long)v); }
inline std::string hex(const void *p, size_t n) { std::string r; char b[4]; for (size_t i = 0; i < n; i++) { snprintf(b, 4, "%02x", ((const u8 *)p)[i]); r += b; } return r; }
inline std::string strf(const char *fmt, ...) { char buf[2048]; va_list ap; va_start(ap, fmt); vsnprintf(buf, sizeof buf, fmt, ap); va_end(ap); return buf; }

struct Opts {
  std::map<std::string, std::string> kv;
  Opts(int argc, char **argv) { for (int i = 1; i < argc; i++) { std::string a = argv[i]; if (a.rfind("--", 0) != 0) { fprintf(stderr, "bad option %s\n", argv[i]); exit(2);} size_t e = a.find('='); if (e == std::string::npos) kv[a.substr(2)] = "1"; else kv[a.substr(2, e - 2)] = a.substr(e + 1); } }
  long num(const char *k, long d) const { auto it = kv.find(k); return it == kv.end() ? d : strtol(it->second.c_str(), 0, 0); }
  std::string str(const char *k, const char *d) const { auto it = kv.find(k); return it == kv.end() ? d : it->second; }
};

#ifdef COMMON_IMPL
std::string (*viol_context)() = 0;
volatile long g_case = -1; std::set<std::string> only_kinds; u64 n_otherkinds;
char g_phase[64] = "start";
static const char *signame(int s) { switch (s) { case SIGSEGV: return "SIGSEGV"; case SIGBUS: return "SIGBUS"; case SIGILL: return "SIGILL"; case SIGFPE: return "SIGFPE"; case SIGABRT: return "SIGABRT"; case SIGTRAP: return "SIGTRAP"; } return "signal"; }
static volatile sig_atomic_t in_crash = 0;
static void crash_handler(int sig, siginfo_t *si, void *uc) {
  if (in_crash) _exit(4);
  in_crash = 1;
  ucontext_t *u = (ucontext_t *)uc;
  char buf[600];
  int n = snprintf(buf, sizeof buf, "\nVIOL crash-%s | case=%ld phase=%s addr=%p rip=%llx rsp=%llx | ", signame(sig), (long)g_case, g_phase, si->si_addr,
                   (unsigned long long)u->uc_mcontext.gregs[REG_RIP], (unsigned long long)u->uc_mcontext.gregs[REG_RSP]);
  fflush(stdout);
  if (write(1, buf, n) < 0) {}
  if (viol_context) { std::string c = viol_context(); if (write(1, c.data(), c.size()) < 0) {} }
  if (write(1, "\n", 1) < 0) {}
  _exit(3);
}
void install_crash_handlers() {
  stack_t ss; memset(&ss, 0, sizeof ss);
  ss.ss_size = 1 << 18; ss.ss_sp = mmap(0, ss.ss_size, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  sigaltstack(&ss, 0);
  struct sigaction sa; memset(&sa, 0, sizeof sa);
  sa.sa_sigaction = crash_handler; sa.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_NODEFER; sigemptyset(&sa.sa_mask);
  int sigs[] = { SIGSEGV, SIGBUS, SIGILL, SIGFPE, SIGABRT, SIGTRAP };
  for (int s : sigs) sigaction(s, &sa, 0);
}
#endif
