// Deep recursion through calls and closures of mixed conventions, left by
// longjmp and interrupted by timer signals whose handler performs calls itself.
//   --seed --from --step --cases --maxdepth
#define COMMON_IMPL
#include "model.h"
#include "nest.h"
#include <setjmp.h>
#include <pthread.h>
#include <sys/time.h>
static Rng R; static u64 o_seed; static Arena meta(64 << 20); static TypePool pool; static std::string desc, op = "start"; static std::unordered_set<u64> ids;
static std::string ctx() { return op + ": " + desc.substr(0, 1500); }
enum { NP = 24 };
// shape: 0 ordinary closure, 1 raw closure, 2 Java raw closure
struct Pal { ffi_abi abi; Ty *rt; std::vector<Ty *> args; ffi_cif cif; void *clo; void *code; ffi_go_closure *go; size_t store; int shape; bool java; };
static Pal *P; static u64 salt; static int D, maxd;
struct Level { sigjmp_buf jb; volatile int armed, landed; u8 *store, *rv; void **av; int pal; int how; ffi_raw *raw; bool nullr; u64 key; };
static Level *L; static volatile int cur; static volatile int jump_left, async_left; static int jump_pct, branch_pct; static volatile u64 n_calls, n_jumps, n_async, n_ticks, n_nested_ticks, n_maxdepth, n_max_tick; static volatile u64 n_raw, n_rawcalls; static u8 *bump, *bump0; static size_t bumpcap; static volatile u64 budget;
static u64 H(u64 a, u64 b) { return Rng::mix(salt ^ Rng::mix(a * 0x100000001b3ull + b)); }
// the value bytes number j of the object with the key
static void put(u8 *p, const Ty *t, u64 key) {
  memset(p, (int)(key & 0xff), t->size); int n = 0;
  for (const Leaf &l : t->leaves) {
    u64 h = H(key, n++), g = H(key, n++);
    if (l.cls == L_X87) { h |= 1ull << 63; u16 e = (u16)(g & 0xbfff); memcpy(p + l.off, &h, 8); memcpy(p + l.off + 8, &e, 2); }
    else if (l.cls == L_SSE) { h &= l.n == 4 ? 0xbfffffffull : 0xbfffffffffffffffull; memcpy(p + l.off, &h, l.n); }
    else memcpy(p + l.off, &h, l.n);
  }
}
static bool same(const u8 *p, const Ty *t, u64 key, u8 *tmp) { put(tmp, t, key); for (const Leaf &l : t->leaves) if (memcmp(p + l.off, tmp + l.off, l.n)) return false; return true; }
static u8 *take(size_t n) { n = (n + 31) & ~31ul; if (bump + n > bump0 + bumpcap) { fprintf(stderr, "value space exhausted\n"); _exit(2); } u8 *p = bump; bump += n; return p; }
static void deep(int d);
static void handler(ffi_cif *cif, void *ret, void **av, void *user) {
  int d = cur; Level &l = L[d]; Pal &p = P[l.pal]; u8 tmp[4200];
  if (cif != &p.cif || user != (l.how == 1 ? (void *)p.go : (void *)&p)) viol("misrouted", "level %d: cif %p user %p instead of %p %p", d, cif, user, &p.cif, &p);
  for (size_t i = 0; i < p.args.size(); i++) if (!same((u8 *)av[i], p.args[i], H(l.key, i), tmp)) viol("argument", "level %d argument %zu (%s): %s", d, i, p.args[i]->str().c_str(), hex(av[i], p.args[i]->size < 32 ? p.args[i]->size : 32).c_str());
  bool mut = H(l.key, 7777) & 1; u64 k2 = mut ? H(l.key, 4242) : l.key;
  if (mut) for (size_t i = 0; i < p.args.size(); i++) put((u8 *)av[i], p.args[i], H(k2, i));
  bool early = H(l.key, 99) & 1; if (early && p.rt->k != K_VOID && !p.rt->isint()) put((u8 *)ret, p.rt, H(l.key, 1000));
  if (d < D) { deep(d + 1); if ((int)(H(l.key, 5) % 100) < branch_pct && budget) deep(d + 1); }
  cur = d;
  if (jump_left > 0 && (int)(H(l.key, jump_left + 31) % 100) < jump_pct && d > 0) {
    int a = (int)(H(l.key, jump_left + 17) % (H(l.key, jump_left) % 3 ? (d < 6 ? d : 6) : d)); a = d - 1 - a; if (a >= 0 && L[a].armed) { jump_left--; n_jumps++; cur = a; siglongjmp(L[a].jb, 1); }
  }
  for (size_t i = 0; i < p.args.size(); i++) if (!same((u8 *)av[i], p.args[i], H(k2, i), tmp)) viol("argument", "level %d argument %zu (%s) changed while deeper levels ran: %s", d, i, p.args[i]->str().c_str(), hex(av[i], p.args[i]->size < 32 ? p.args[i]->size : 32).c_str());
  if (p.rt->k == K_VOID) return;
  if (p.rt->isint()) { u8 b[16]; put(b, p.rt, H(l.key, 1000)); u64 v = 0; memcpy(&v, b, p.rt->size); int sh = 64 - 8 * (int)p.rt->size; *(ffi_arg *)ret = p.rt->issigned() ? (u64)((s64)(v << sh) >> sh) : v; }
  else if (!early) put((u8 *)ret, p.rt, H(l.key, 1000));
  else if (!same((u8 *)ret, p.rt, H(l.key, 1000), tmp)) viol("result", "level %d (%s, convention %d): the stored result changed while deeper levels ran: %s", d, p.rt->str().c_str(), (int)p.abi, hex(ret, p.rt->size < 64 ? p.rt->size : 64).c_str());
}
// raw images: copied into an array of pointers which stays valid while the handler runs
static void raw_handler(ffi_cif *cif, void *ret, ffi_raw *raw, void *user) {
  void *av[64]; Pal &p = P[L[cur].pal]; u8 *b = (u8 *)raw;
  for (size_t i = 0; i < p.args.size(); i++) { Ty *t = p.args[i]; bool ref = t->k == K_STRUCT || t->iscomplex(); av[i] = ref ? *(void **)b : b; b += ref ? 8 : (t->size + 7) & ~7ul; }
  n_raw++; handler(cif, ret, av, user);
}
static void jraw_handler(ffi_cif *cif, void *ret, ffi_java_raw *raw, void *user) {
  void *av[64]; Pal &p = P[L[cur].pal]; u8 *b = (u8 *)raw;
  for (size_t i = 0; i < p.args.size(); i++) { Ty *t = p.args[i]; av[i] = b; b += t->k == K_U64 || t->k == K_S64 || t->k == K_F64 ? 16 : 8; }
  n_raw++; handler(cif, ret, av, user);
}
// One call of level d: everything it needs after a jump lives in L[d].
__attribute__((noinline)) static void deep(int d) {
  Level &l = L[d]; l.armed = 0; l.key = H(d, n_calls++); if (budget) budget--; l.pal = (int)(H(l.key, 1) % NP); Pal &p = P[l.pal]; l.how = p.go && H(l.key, 2) % 3 == 0 ? 1 : H(l.key, 2) % 4 == 1 ? (p.java && H(l.key, 2) % 8 == 1 ? 3 : 2) : 0; l.nullr = H(l.key, 3) % 8 == 0; if ((u64)d > n_maxdepth) n_maxdepth = d;
  l.store = take(p.store); l.av = (void **)take(8 * (p.args.size() + 1)); l.rv = take(p.rt->size + 32); size_t o = 0;
  for (size_t i = 0; i < p.args.size(); i++) { l.av[i] = l.store + o; put(l.store + o, p.args[i], H(l.key, i)); o += (p.args[i]->size + 15) & ~15ul; }
  if (l.how > 1) {
    l.raw = (ffi_raw *)take((l.how == 2 ? ffi_raw_size(&p.cif) : ffi_java_raw_size(&p.cif)) + 8); n_rawcalls++;
    if (l.how == 2) ffi_ptrarray_to_raw(&p.cif, l.av, l.raw); else ffi_java_ptrarray_to_raw(&p.cif, l.av, (ffi_java_raw *)l.raw);
  }
  memset(l.rv, 0x5a, p.rt->size + 32); l.landed = 0;
  if (H(l.key, 4) % 4 == 0) { if (sigsetjmp(l.jb, 1)) { l.landed++; } else l.armed = 1; }
  if (l.landed) { cur = d; if (l.landed < 3 && H(l.key, 60 + l.landed) % 2) goto again; l.armed = 0; goto check; }
again:
  cur = d; memset(l.rv, 0x5a, P[l.pal].rt->size + 32);
  switch (l.how) {
  case 0: ffi_call(&P[l.pal].cif, FFI_FN(P[l.pal].code), l.nullr ? 0 : l.rv, l.av); break;
  case 1: ffi_call_go(&P[l.pal].cif, FFI_FN(P[l.pal].go->tramp), l.nullr ? 0 : l.rv, l.av, P[l.pal].go); break;
  case 2: ffi_raw_call(&P[l.pal].cif, FFI_FN(P[l.pal].code), l.nullr ? 0 : l.rv, l.raw); break;
  default: ffi_java_raw_call(&P[l.pal].cif, FFI_FN(P[l.pal].code), l.nullr ? 0 : l.rv, (ffi_java_raw *)l.raw);
  }
  l.armed = 0; l.landed = 0;
  if (!l.nullr) {
    Pal &q = P[l.pal]; u8 tmp[4200]; size_t n = q.rt->k == K_VOID ? 0 : q.rt->isint() ? 8 : q.rt->size;
    if (q.rt->k == K_VOID) ; else if (q.rt->isint()) { put(tmp, q.rt, H(l.key, 1000)); u64 v = 0; memcpy(&v, tmp, q.rt->size); int sh = 64 - 8 * (int)q.rt->size; if (q.rt->issigned()) v = (u64)((s64)(v << sh) >> sh); if (*(u64 *)l.rv != v) viol("result", "level %d returned %llx instead of %llx", d, *(unsigned long long *)l.rv, (unsigned long long)v); }
    else if (!same(l.rv, q.rt, H(l.key, 1000), tmp)) viol("result", "level %d (%s) returned %s", d, q.rt->str().c_str(), hex(l.rv, n < 32 ? n : 32).c_str());
    for (size_t i = n; i < q.rt->size + 32 && i < n + 32; i++) if (l.rv[i] != 0x5a) viol("result-extent", "level %d: byte %zu written", d, i);
  }
check:
  { Level &m = L[d]; Pal &q = P[m.pal]; u8 tmp[4200]; for (size_t i = 0; i < q.args.size(); i++) if (!same((u8 *)m.av[i], q.args[i], H(m.key, i), tmp)) viol("argument", "level %d: the caller's argument %zu changed", d, i); bump = m.store; }
}
// ---- timer ---------------------------------------------------------------------------
static volatile int in_tick; static u64 tick_mix; static bool ticking;
static bool tick_alt; static u64 n_scribbled;
static void on_alarm(int, siginfo_t *, void *uc) {
  int e = errno; if (in_tick++ == 0) n_ticks++; else n_nested_ticks++; if ((u64)in_tick > n_max_tick) n_max_tick = in_tick; tick_mix = tick_mix * 6364136223846793005ull + 1442695040888963407ull; u64 z = tick_mix >> 20; if (tick_alt && in_tick == 1) { n_scribbled++; nest::scribble(uc, z >> 5); }
  if (in_tick < 4) { nest::one((unsigned)(z % nest::NOPS), z >> 8); nest::one((unsigned)(z / 16 % nest::NOPS), z >> 4); }
  if (in_tick < 3 && z % 5 == 1) raise(SIGALRM);
  in_tick--;
  if (async_left > 0 && !in_tick && z % 3 == 0) { int d = cur; for (int k = 0; k < 40 && d >= 0; k++, d--) if (L[d].armed) { async_left--; n_async++; errno = e; cur = d; siglongjmp(L[d].jb, 2); } }
  errno = e;
}
static void timer(long us) { struct itimerval v = { { 0, us }, { 0, us } }; setitimer(ITIMER_REAL, &v, 0); }
static void one(u64 idx) {
  R.seed(o_seed, idx, 41); pool.reset(); meta.reset(); for (int i = 0; i < K_STRUCT; i++) pool.scal[i].f = builtin_ffi((K)i); GenCfg g; g.maxsize = 1024; static const ffi_abi abis[] = { FFI_UNIX64, FFI_GNUW64, FFI_WIN64 };
  salt = R.next(); D = (int)R.below(R.chance(25) ? maxd : R.chance(50) ? 60 : 8); jump_left = R.chance(50) ? (int)R.below(12) : 0; jump_pct = R.chance(30) ? 2 : 30; branch_pct = D > 200 ? 0 : D > 20 ? 20 : 60; ticking = R.chance(60); async_left = ticking && R.chance(40) ? 1 + (int)R.below(4) : 0; n_calls = 0; budget = 300; bool onstack = R.chance(35); long us = R.range(20, 400);
  desc = strf("depth %d jumps %d/%d%% timer %ld us async %d onstack %d:", D, jump_left, jump_pct, ticking ? us : 0, async_left, onstack); op = "set up"; P = new Pal[NP];
  for (int k = 0; k < NP; k++) {
    Pal &p = P[k]; p.abi = abis[R.chance(60) ? 0 : 1 + R.below(2)]; GenCfg c = g; if (p.abi == FFI_WIN64) c.ld = false; p.rt = R.chance(15) ? &pool.scal[K_VOID] : gen_type(R, pool, c, 45); int n = (int)R.below(R.chance(10) ? 40 : 10); p.java = R.chance(12); for (int i = 0; i < n; i++) p.args.push_back(gen_type(R, pool, c, 35));
    if (p.java) { auto ok = [](Ty *t) { return t->isint() || t->k == K_F32 || t->k == K_F64; }; if (p.rt->k != K_VOID) while (!ok(p.rt)) p.rt = gen_type(R, pool, c, 0); for (Ty *&t : p.args) while (!ok(t)) t = gen_type(R, pool, c, 0); }
    if (p.abi == FFI_WIN64 && p.rt->k == K_CLD) p.rt = &pool.scal[K_F64]; ffi_type **at = (ffi_type **)meta.get(8 * (n + 1)); for (int i = 0; i < n; i++) at[i] = pool.emit(p.args[i], meta); if (ffi_prep_cif(&p.cif, p.abi, n, pool.emit(p.rt, meta), at)) viol("status", "valid signature rejected");
    p.shape = p.java && R.chance(60) ? 2 : R.chance(30) ? 1 : 0; p.clo = ffi_closure_alloc(p.shape == 0 ? sizeof(ffi_closure) : p.shape == 1 ? sizeof(ffi_raw_closure) : sizeof(ffi_java_raw_closure), &p.code); if (!p.clo) viol("closure-alloc", "no closure");
    if (p.shape == 0 ? ffi_prep_closure_loc((ffi_closure *)p.clo, &p.cif, handler, &p, p.code) : p.shape == 1 ? ffi_prep_raw_closure_loc((ffi_raw_closure *)p.clo, &p.cif, raw_handler, &p, p.code) : ffi_prep_java_raw_closure_loc((ffi_java_raw_closure *)p.clo, &p.cif, jraw_handler, &p, p.code)) viol("closure-alloc", "closure rejected"); p.go = 0; if (R.chance(40)) { p.go = (ffi_go_closure *)meta.get(sizeof(ffi_go_closure)); if (ffi_prep_go_closure(p.go, &p.cif, handler)) viol("status", "Go closure rejected"); }
    p.store = 16; for (Ty *t : p.args) p.store += (t->size + 15) & ~15ul; if (k < 6) { desc += strf(" %d%s(", (int)p.abi, p.rt->str().substr(0, 30).c_str()); for (Ty *t : p.args) desc += t->str().substr(0, 16) + ","; desc += ")"; }
  }
  for (int i = 0; i <= D; i++) L[i].armed = 0; bump = bump0; cur = 0; in_tick = 0; tick_mix = R.next(); ids.insert(fnv(desc)); op = "running"; tick_alt = onstack && !async_left;
  struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_sigaction = on_alarm; sa.sa_flags = SA_SIGINFO | SA_NODEFER | SA_RESTART | (onstack && !async_left ? SA_ONSTACK : 0); if (onstack) sa.sa_flags &= ~SA_NODEFER; sigaction(SIGALRM, &sa, 0);
  if (ticking) timer(us); int reps = D > 200 ? 1 : 4; u64 calls = 0; for (int r = 0; r < reps; r++) { budget = 300; deep(0); if (bump != bump0) viol("argument", "levels left behind"); } calls = n_calls; if (ticking) timer(0);
  static u64 total; total += calls; n_calls = 0; extern u64 g_total; g_total = total; op = "after";
  for (int k = 0; k < NP; k++) ffi_closure_free(P[k].clo); delete[] P;
}
u64 g_total; static long c_from, c_step, c_cases;
static void *body(void *) {
  stack_t ss; memset(&ss, 0, sizeof ss); ss.ss_size = 1 << 18; ss.ss_sp = mmap(0, ss.ss_size, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); sigaltstack(&ss, 0);
  sigset_t s; sigemptyset(&s); sigaddset(&s, SIGALRM); pthread_sigmask(SIG_UNBLOCK, &s, 0); for (long i = 0; i < c_cases; i++) { g_case = c_from + i * c_step; one(g_case); if (i < 3) printf("SAMPLE %s\n", desc.substr(0, 300).c_str()); } return 0;
}
int main(int argc, char **argv) {
  Opts o(argc, argv); setvbuf(stdout, 0, _IOLBF, 0); set_kinds(o.str("kinds", "")); install_crash_handlers(); viol_context = ctx; o_seed = o.num("seed", 1); c_from = o.num("from", 0); c_step = o.num("step", 1); c_cases = o.num("cases", 100); maxd = (int)o.num("maxdepth", 3000); nest::init();
  L = (Level *)mmap(0, sizeof(Level) * (maxd + 70), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); bumpcap = (size_t)(maxd + 100) << 15; bump0 = (u8 *)mmap(0, bumpcap, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  size_t stk = (size_t)(maxd + 200) * 60000; void *sp = mmap(0, stk, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (sp == MAP_FAILED || bump0 == MAP_FAILED || L == MAP_FAILED) { perror("mmap"); return 2; }
  sigset_t s; sigemptyset(&s); sigaddset(&s, SIGALRM); pthread_sigmask(SIG_BLOCK, &s, 0); pthread_attr_t a; pthread_attr_init(&a); pthread_attr_setstack(&a, sp, stk); pthread_t t; if (pthread_create(&t, &a, body, 0)) { perror("pthread_create"); return 2; } pthread_join(t, 0);
  stat_line("invocations", g_total); stat_line("max_depth_reached", n_maxdepth); stat_line("left_by_longjmp", n_jumps); stat_line("left_from_signal_handler", n_async); stat_line("timer_signals", n_ticks); stat_line("stacks_destroyed_below_the_red_zone", n_scribbled); stat_line("nested_timer_signals", n_nested_ticks); stat_line("max_signal_nesting", n_max_tick); stat_line("raw_handlers", n_raw); stat_line("raw_calls", n_rawcalls); stat_line("nested_operations", nest::runs);
  write_ids(o.str("ids", ""), ids); printf("DONE\n"); return 0;
}
