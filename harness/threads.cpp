// Concurrency monitor: threads prepare, call, allocate, query, invoke, hand over and free closures at once.
// The monitor's own shared state uses relaxed atomics only, so that it adds no
// ordering that could hide a race from the race detector; closures travel
// between threads through release/acquire slots, as a correct program would do.
//   --mode=stress|first --threads --rounds --cases --seed --from --step --policy
#define COMMON_IMPL
#define CLO_IMPL
#include "clo.h"
#include <pthread.h>
#include <sched.h>
#include <stddef.h>
#include <sys/wait.h>
#include <sys/prctl.h>
#include <linux/seccomp.h>
#include <linux/filter.h>
#include <sys/syscall.h>
extern "C" void *ffi_data_to_code_pointer(void *) __attribute__((weak));
static u64 o_seed; static int o_threads, o_delay; static bool o_multi;
static u64 n_alloc, n_free, n_inv, n_prep, n_query, n_cif, n_call, n_hand, n_shared, n_delay;
#define ADD(c) __atomic_fetch_add(&c, 1, __ATOMIC_RELAXED)

// ---- interleaving evidence -------------------------------------------------------
static u64 ticket; enum { TK = 1 << 22 }; static u8 *tk;      // (thread, operation) in ticket order
static void note(int t, int op) { u64 k = __atomic_fetch_add(&ticket, 1, __ATOMIC_RELAXED); if (k < TK) __atomic_store_n(&tk[k], (u8)(t * 16 + op + 1), __ATOMIC_RELAXED); }

// ---- delays inside the library's critical sections -----------------------------------
static __thread u64 drng; static __thread int in_op;
static void maybe_delay() {
  if (!in_op || !o_delay) return; drng = drng * 6364136223846793005ull + 1442695040888963407ull; unsigned z = (unsigned)(drng >> 40) % 1000;
  if (z < (unsigned)o_delay) { ADD(n_delay); if (z % 3 == 0) { struct timespec ts = { 0, (long)(drng >> 20) % 60000 }; nanosleep(&ts, 0); } else sched_yield(); }
}
extern "C" {
int __real_pthread_mutex_lock(pthread_mutex_t *); int __real_pthread_mutex_unlock(pthread_mutex_t *); void *__real_mmap(void *, size_t, int, int, int, off_t); int __real_munmap(void *, size_t); long __real_sysconf(int);
int __wrap_pthread_mutex_lock(pthread_mutex_t *m) { maybe_delay(); int r = __real_pthread_mutex_lock(m); maybe_delay(); return r; }
int __wrap_pthread_mutex_unlock(pthread_mutex_t *m) { maybe_delay(); int r = __real_pthread_mutex_unlock(m); maybe_delay(); return r; }
void *__wrap_mmap(void *a, size_t n, int p, int f, int fd, off_t o) { maybe_delay(); void *r = __real_mmap(a, n, p, f, fd, o); maybe_delay(); return r; }
int __wrap_munmap(void *a, size_t n) { maybe_delay(); int r = __real_munmap(a, n); maybe_delay(); return r; }
long __wrap_sysconf(int k) { maybe_delay(); long r = __real_sysconf(k); maybe_delay(); return r; }
}
struct InOp { InOp() { in_op++; } ~InOp() { in_op--; } };

// ---- ownership ------------------------------------------------------------------------
enum { HT = 1 << 18 }; static u64 *ht;
static void own(void *p, const char *what) {
  u64 k = (u64)p; for (u64 i = Rng::mix(k);; i++) { u64 *s = &ht[i & (HT - 1)], v = __atomic_load_n(s, __ATOMIC_RELAXED); if (v == k) viol("handed-out-twice", "%s %p given out while in use", what, p); if (v == 0) { u64 e = 0; if (__atomic_compare_exchange_n(s, &e, k, false, __ATOMIC_RELAXED, __ATOMIC_RELAXED)) return; if (e == k) viol("handed-out-twice", "%s %p given out to two threads", what, p); } }
}
// two threads may insert the same key into different free slots only through tombstones, so none are used: a released key stays, marked
static void disown(void *p) { u64 k = (u64)p; for (u64 i = Rng::mix(k);; i++) { u64 *s = &ht[i & (HT - 1)], v = __atomic_load_n(s, __ATOMIC_RELAXED); if (v == k) { __atomic_store_n(s, k | 1, __ATOMIC_RELAXED); return; } if (v == 0) return; } }
static void own_again(void *p, const char *what) {
  u64 k = (u64)p; for (u64 i = Rng::mix(k);; i++) { u64 *s = &ht[i & (HT - 1)], v = __atomic_load_n(s, __ATOMIC_RELAXED);
    if (v == (k | 1)) { u64 e = v; if (__atomic_compare_exchange_n(s, &e, k, false, __ATOMIC_RELAXED, __ATOMIC_RELAXED)) return; viol("handed-out-twice", "%s %p given out to two threads", what, p); }
    if (v == k) viol("handed-out-twice", "%s %p given out while in use", what, p);
    if (v == 0) { u64 e = 0; if (__atomic_compare_exchange_n(s, &e, k, false, __ATOMIC_RELAXED, __ATOMIC_RELAXED)) return; if ((e & ~1ull) == k) viol("handed-out-twice", "%s %p given out to two threads", what, p); i--; } }
}

struct Clo { u8 *w; size_t size; u8 *code; int sig, hand, cifk; void *user; u64 pat; };
static Clo *slots[64];                           // hand-over between threads
static Clo shared_clo[CSIG];                     // prepared before the threads start, invoked by all
static pthread_barrier_t bar;

static u64 native0(u64 a) { return a * 3 + 1; }
static double native1(double a, int b) { return a * 2 + b; }
static Mix native2(float f, u64 l) { Mix m = { f * 2.0, l ^ 0x5555 }; return m; }
static void call_shared(Rng &R, int t) {
  u64 z = R.below(3), a = R.next(); InOp op; ADD(n_call);
  if (z == 0) { u64 r = 0; void *av[1] = { &a }; ffi_call(&clo_cif[0][R.below(2)], FFI_FN(native0), &r, av); if (r != a * 3 + 1) viol("call-result", "u64 call through a shared cif"); }
  else if (z == 1) { double d = (double)(s64)a, r = 0; int b = (int)a; void *av[2] = { &d, &b }; ffi_call(&clo_cif[1][R.below(2)], FFI_FN(native1), &r, av); if (r != d * 2 + b) viol("call-result", "double call through a shared cif"); }
  else { float f = (float)(a & 0xffff); Mix m; void *av[2] = { &f, &a }; ffi_call(&clo_cif[2][R.below(2)], FFI_FN(native2), &m, av); if (m.d != f * 2.0 || m.l != (a ^ 0x5555)) viol("call-result", "struct call through a shared cif"); }
}
static void own_cif(Rng &R) {                   // prepares a cif and a struct type of its own, and calls through it
  InOp op; ADD(n_cif); ffi_cif cif; ffi_type *at[2] = { &ffi_type_float, &ffi_type_uint64 }; ffi_type st, *el[3] = { &ffi_type_double, &ffi_type_uint64, 0 }; st.size = 0; st.alignment = 0; st.type = FFI_TYPE_STRUCT; st.elements = el;
  bool own_t = R.chance(50); ffi_status s = ffi_prep_cif(&cif, FFI_UNIX64, 2, own_t ? &st : clo_cif[2][0].rtype, at); if (s != FFI_OK) viol("status", "ffi_prep_cif returned %d", s);
  if (own_t) { size_t off[2]; if (ffi_get_struct_offsets(FFI_UNIX64, &st, off) != FFI_OK || off[0] != 0 || off[1] != 8 || st.size != 16) viol("layout", "struct offsets"); }
  u64 a = R.next(); float f = (float)(a & 0xffff); Mix m; void *av[2] = { &f, &a }; ffi_call(&cif, FFI_FN(native2), &m, av); if (m.d != f * 2.0 || m.l != (a ^ 0x5555)) viol("call-result", "struct call through an own cif");
  at[0] = &ffi_type_pointer; if (ffi_prep_cif_var(&cif, FFI_UNIX64, 1, 2, &ffi_type_sint32, at) != FFI_OK) viol("status", "ffi_prep_cif_var"); 
}
static void c_invoke(const Clo &c, Rng &R, const char *who) { InOp op; ADD(n_inv); std::string e = clo_invoke(c.code, c.sig, c.hand, c.user, &clo_cif[c.sig][c.cifk], R.next()); if (!e.empty()) viol("misrouted", "%s closure %p code %p: %s", who, c.w, c.code, e.c_str()); }
static void c_prep(Clo &c, Rng &R) {
  c.sig = (int)R.below(CSIG); c.hand = (int)R.below(NHAND); c.cifk = (int)R.below(2); c.user = (void *)(uintptr_t)R.next(); InOp op; ADD(n_prep);
  ffi_status s = ffi_prep_closure_loc((ffi_closure *)c.w, &clo_cif[c.sig][c.cifk], clo_handlers[c.sig][c.hand], c.user, c.code); if (s != FFI_OK) viol("status", "ffi_prep_closure_loc returned %d", s);
}
static Clo c_alloc(Rng &R) {
  Clo c; memset(&c, 0, sizeof c); c.size = sizeof(ffi_closure) + (R.chance(70) ? 0 : R.below(R.chance(90) ? 400 : 20000)); void *code = 0; ADD(n_alloc);
  { InOp op; c.w = (u8 *)ffi_closure_alloc(c.size, &code); } if (!c.w) viol("closure-alloc", "ffi_closure_alloc(%zu) returned null", c.size); c.code = (u8 *)code;
  own_again(c.w, "closure object"); if (c.code != c.w) own_again(c.code, "code address"); c.pat = R.next();
  for (size_t i = sizeof(ffi_closure); i < c.size; i += 8) c.w[i] = (u8)(c.pat + i);
  return c;
}
static void c_check(const Clo &c) { for (size_t i = sizeof(ffi_closure); i < c.size; i += 8) if (c.w[i] != (u8)(c.pat + i)) viol("content", "byte %zu of closure object %p changed", i, c.w); }
static void c_free(Clo &c) { c_check(c); disown(c.w); if (c.code != c.w) disown(c.code); ADD(n_free); InOp op; ffi_closure_free(c.w); }
static void c_query(const Clo &c) { if (!ffi_data_to_code_pointer) return; ADD(n_query); void *p; { InOp op; p = ffi_data_to_code_pointer(c.w); } if (p != c.code) viol("data-to-code", "query for %p gives %p instead of %p", c.w, p, c.code); }

static void *stress(void *arg) {
  int t = (int)((long)arg & 0xff); u64 rounds = (u64)((long)arg >> 8); Rng R; R.seed(o_seed, (u64)g_case, 100 + t); drng = R.next(); Clo mine[130]; int n = 0; int target = 10;
  int style = (int)R.below(3);
  pthread_barrier_wait(&bar);
  for (u64 k = 0; k < rounds; k++) {
    if (R.chance(2)) target = (int)R.below(R.chance(50) ? 8 : 128);
    unsigned z = (unsigned)R.below(100); int op;
    if (style == 0 && R.chance(50)) z = n < target ? 0 : 25;          // mostly allocate and free
    if (z < 22) { op = 0; note(t, op); if (n < 128) { mine[n] = c_alloc(R); c_prep(mine[n], R); n++; } }
    else if (z < 42) { op = 1; note(t, op); if (n > target || (n && R.chance(40))) { int i = (int)R.below(n); c_free(mine[i]); mine[i] = mine[--n]; } }
    else if (z < 58) { op = 2; note(t, op); if (n) c_invoke(mine[R.below(n)], R, "own"); }
    else if (z < 64) { op = 3; note(t, op); c_invoke(shared_clo[R.below(CSIG)], R, "shared"); ADD(n_shared); }
    else if (z < 72) { op = 4; note(t, op); if (n) c_query(mine[R.below(n)]); }
    else if (z < 77) { op = 5; note(t, op); if (n) { int i = (int)R.below(n); c_prep(mine[i], R); c_invoke(mine[i], R, "own"); } }
    else if (z < 83) { op = 6; note(t, op); call_shared(R, t); }
    else if (z < 88) { op = 7; note(t, op); own_cif(R); }
    else if (z < 92) { op = 8; note(t, op); if (n) c_check(mine[R.below(n)]); }
    else { op = 9; note(t, op);                                    // hand a closure over, or take one
      int s = (int)R.below(64); if (n < 128 && (!n || R.chance(50))) { Clo *c = __atomic_exchange_n(&slots[s], (Clo *)0, __ATOMIC_ACQ_REL); if (c) { mine[n++] = *c; delete c; ADD(n_hand); c_invoke(mine[n - 1], R, "received"); } }
      else if (n) { int i = (int)R.below(n); Clo *c = new Clo(mine[i]), *e = 0; if (__atomic_compare_exchange_n(&slots[s], &e, c, false, __ATOMIC_RELEASE, __ATOMIC_RELAXED)) mine[i] = mine[--n]; else delete c; } }
  }
  while (n) { c_invoke(mine[n - 1], R, "last"); c_free(mine[--n]); }
  return 0;
}
static void run_threads(void *(*f)(void *), u64 rounds, int nt) {
  pthread_t th[64]; pthread_barrier_init(&bar, 0, nt); for (int i = 0; i < nt; i++) pthread_create(&th[i], 0, f, (void *)(long)((rounds << 8) | i)); for (int i = 0; i < nt; i++) pthread_join(th[i], 0); pthread_barrier_destroy(&bar);
}
// first use: every thread's first operation is the process's first
static void *first(void *arg) {
  int t = (int)((long)arg & 0xff), rep = 3; Rng R; R.seed(o_seed, (u64)g_case, 200 + t); drng = R.next(); int kind = (int)R.below(4); u64 spin = R.chance(60) ? R.below(30) : R.below(3000); Clo mine[200]; int n = 0;
  pthread_barrier_wait(&bar); for (volatile u64 i = 0; i < spin; i++) ;
  if (kind == 3) { note(t, 7); own_cif(R); }
  if (kind == 2 && ffi_data_to_code_pointer) { note(t, 4); int x; InOp op; if (ffi_data_to_code_pointer(&x) != &x) viol("data-to-code", "query for user memory"); }
  int m = (int)(kind == 0 ? 1 : 1 + R.below(130));
  for (int i = 0; i < m; i++) { note(t, 0); mine[n] = c_alloc(R); c_prep(mine[n], R); n++; c_invoke(mine[n - 1], R, "first"); if (R.chance(20)) c_query(mine[R.below(n)]); }
  for (int i = 0; i < n; i++) { c_invoke(mine[i], R, "first"); }
  while (n) { note(t, 1); c_free(mine[--n]); }
  (void)rep; return 0;
}
static void policy(int err) {
  struct sock_filter f[] = { BPF_STMT(BPF_LD | BPF_W | BPF_ABS, offsetof(struct seccomp_data, nr)), BPF_JUMP(BPF_JMP | BPF_JEQ | BPF_K, __NR_mmap, 0, 4),
    BPF_STMT(BPF_LD | BPF_W | BPF_ABS, offsetof(struct seccomp_data, args[2])), BPF_STMT(BPF_ALU | BPF_AND | BPF_K, PROT_WRITE | PROT_EXEC), BPF_JUMP(BPF_JMP | BPF_JEQ | BPF_K, PROT_WRITE | PROT_EXEC, 0, 1),
    BPF_STMT(BPF_RET | BPF_K, SECCOMP_RET_ERRNO | (u32)err), BPF_STMT(BPF_RET | BPF_K, SECCOMP_RET_ALLOW) };
  struct sock_fprog p = { sizeof f / sizeof *f, f }; if (prctl(PR_SET_NO_NEW_PRIVS, 1, 0, 0, 0) || prctl(PR_SET_SECCOMP, SECCOMP_MODE_FILTER, &p)) { perror("seccomp"); exit(2); }
}
static std::string ctx() { return strf("threads=%d seed=%llu", o_threads, (unsigned long long)o_seed); }
static void windows(std::unordered_set<u64> &ids) { u64 n = ticket < TK ? ticket : TK; for (u64 i = 0; i + 8 <= n; i++) { bool multi = false; for (int k = 1; k < 8; k++) multi |= (tk[i + k] ^ tk[i]) >> 4; if (multi) ids.insert(fnv(tk + i, 8)); } }

int main(int argc, char **argv) {
  Opts o(argc, argv); setvbuf(stdout, 0, _IOLBF, 0); set_kinds(o.str("kinds", "")); install_crash_handlers(); viol_context = ctx;
  o_seed = (u64)o.num("seed", 1); o_threads = (int)o.num("threads", 8); o_delay = (int)o.num("delay", 20); std::string mode = o.str("mode", "stress");
  u64 from = (u64)o.num("from", 0), n = (u64)o.num("cases", 1), step = (u64)o.num("step", 1), rounds = (u64)o.num("rounds", 20000);
  size_t shn = 4096; u64 *sh = (u64 *)mmap(0, shn, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  tk = (u8 *)mmap(0, TK, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); ht = (u64 *)mmap(0, HT * 8, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  if (o.num("policy", 0)) policy(o.num("policy", 0) == 2 ? EACCES : EPERM);
  std::unordered_set<u64> ids; u64 windows_total = 0;
  for (u64 i = 0; i < n; i++) {
    g_case = (long)(from + i * step); ticket = 0; memset(tk, 0, 1 << 16);
    if (mode == "first") {
      // a fresh process image for every case: the library has not been used in this one
      int nt = 2 + (int)(Rng::mix(o_seed * 1000 + (u64)g_case) % (u64)(o_threads - 1)); fflush(stdout); pid_t p = fork();
      if (!p) { clo_init(); run_threads(first, 0, nt); sh[0] += n_alloc; sh[1] += n_free; sh[2] += n_inv; sh[3] += n_prep; sh[4] += n_query; sh[5] += n_cif; sh[6] += n_delay; sh[7] = ticket; fflush(stdout); _exit(0); }
      int st; waitpid(p, &st, 0);
      if (WIFSIGNALED(st)) viol("crash", "signal %d on first use by %d threads", WTERMSIG(st), nt); if (WEXITSTATUS(st)) _exit(WEXITSTATUS(st));
      ticket = sh[7]; u64 k = ticket < 24 ? ticket : 24; ids.insert(fnv(tk, k)); windows(ids); windows_total += ticket; memset(ht, 0, HT * 8);
      if (i == 0) printf("SAMPLE first use by %d threads, case %ld: first operations (thread:op) %s\n", nt, (long)g_case, hex(tk, 24).c_str());
    } else {
      if (i == 0) { clo_init(); Rng R; R.seed(o_seed, 77); for (int s = 0; s < CSIG; s++) { shared_clo[s] = c_alloc(R); do c_prep(shared_clo[s], R); while (shared_clo[s].sig != s); } }
      int nt = i == 0 ? o_threads : 2 + (int)(Rng::mix(o_seed * 1000 + (u64)g_case) % (u64)(o_threads - 1));
      run_threads(stress, rounds / nt, nt); windows(ids); windows_total += ticket;
      Rng R; R.seed(o_seed, 78, (u64)g_case); for (auto &s : slots) if (s) { c_invoke(*s, R, "left over"); c_free(*s); delete s; s = 0; }
      if (i == 0) printf("SAMPLE stress case %ld: %d threads, %llu operations, order of the first (thread:op) %s\n", (long)g_case, nt, (unsigned long long)ticket, hex(tk, 24).c_str());
    }
  }
  if (mode == "first") { n_alloc = sh[0]; n_free = sh[1]; n_inv = sh[2]; n_prep = sh[3]; n_query = sh[4]; n_cif = sh[5]; n_delay = sh[6]; }
  stat_line("allocations", n_alloc); stat_line("frees", n_free); stat_line("invocations", n_inv); stat_line("preparations", n_prep); stat_line("queries", n_query); stat_line("own_cifs", n_cif); stat_line("shared_cif_calls", n_call);
  stat_line("hand_overs", n_hand); stat_line("shared_closure_invocations", n_shared); stat_line("injected_delays", n_delay); stat_line("ordered_operations", windows_total); stat_line(mode == "first" ? "first_use_processes" : "stress_runs", n); stat_line("unreported_other_kinds", n_otherkinds);
  write_ids(o.str("ids", ""), ids); printf("DONE\n"); return 0;
}
