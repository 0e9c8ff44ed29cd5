// Exceptions, forced unwinding and stack walks through library frames.
//   --seed --from --step --cases --maxdepth
//   --single=1: the stack is also walked from a signal handler after every instruction of one hop per case
#define COMMON_IMPL
#include "model.h"
#include <unwind.h>
#include <pthread.h>
#include <stdexcept>
extern "C" char __start_hop_text[], __stop_hop_text[], __start_lvl_text[], __stop_lvl_text[], __executable_start[], etext[];
static Rng R; static u64 o_seed; static Arena meta(64 << 20); static TypePool pool;
static const int MAXD = 64;
enum Hop { H_CLOSURE, H_GO, H_NATIVE, H_DIRECT, H_RAW, H_NUM };
enum Act { ACT_THROW, ACT_WALK, ACT_EXIT, ACT_RETURN };
struct Lv { Hop hop; bool catches; int after; Ty *rt; std::vector<Ty *> args; ffi_cif *cif; ffi_closure *clo; void *code; ffi_go_closure *go; bool nullr; int native; std::vector<u8> store; std::vector<void *> av; std::vector<u8> rv; void *cfa; void *ip; u64 regs[6]; bool walk; };
static Lv lv[MAXD + 2]; static int D; static Act act; static int exkind; static std::string op = "start"; static u64 n_throw, n_catch, n_rethrow, n_walk, n_frames, n_exit, n_hops, n_dtor, n_return; static std::unordered_set<u64> ids; static std::string desc;
static volatile uintptr_t trap_ip; static std::string ctx() { return op + (trap_ip ? strf(" (walking from %lx)", (long)trap_ip) : "") + ": " + desc.substr(0, 1000); }
// event log: positive = destructor of level, negative = catch at level (with the value seen)
static std::vector<int> events, want;
struct Ex1 { int v; Ex1(int x) : v(x) { live++; } Ex1(const Ex1 &o) : v(o.v) { live++; } ~Ex1() { live--; } static int live; }; int Ex1::live;
struct Ex2 : std::runtime_error { int v; Ex2(int x) : std::runtime_error("x"), v(x) {} };
struct Guard { int d; Guard(int x) : d(x) {} ~Guard() { n_dtor++; events.push_back(d); } };
static void throw_kind(int k, int v) { switch (k) { case 0: throw v; case 1: throw Ex1(v); default: throw Ex2(v); } }
static void hop(int d);
static void walk(int d);
static int o_single, stepd = -1; static volatile int upper; static u64 n_steps, n_stepwalks, n_nofde;
static inline void tf_off() { __asm__ volatile("pushfq; andq $~0x100, (%%rsp); popfq" ::: "memory", "cc"); }
static inline void tf_on() { __asm__ volatile("pushfq; orq $0x100, (%%rsp); popfq" ::: "memory", "cc"); }

// One level of the chain. Six values are kept live in callee-saved registers across the hop.
#define LVL __attribute__((noinline, noclone, section("lvl_text")))
LVL static void descend(int d) {
  if (d == stepd) tf_off(); Guard g(d); Lv &l = lv[d]; l.cfa = __builtin_dwarf_cfa();
  u64 a = l.regs[0], b = l.regs[1], c = l.regs[2], e = l.regs[3], f = l.regs[4], h = l.regs[5];
  __asm__ volatile("" : "+r"(a), "+r"(b), "+r"(c), "+r"(e), "+r"(f), "+r"(h));
  bool rethrow = false;
  if (d == D) { switch (act) { case ACT_THROW: n_throw++; throw_kind(exkind, 1000 + d); case ACT_WALK: walk(d); break; case ACT_EXIT: n_exit++; pthread_exit(0); case ACT_RETURN: n_return++; break; } }
  else if (!l.catches) hop(d + 1);
  else {
    int got = 0, kind = -1;
    try { hop(d + 1); }
    catch (int &x) { n_catch++; got = x; kind = 0; events.push_back(-got); if (l.after == 1) { n_rethrow++; throw; } }
    catch (Ex1 &x) { n_catch++; got = x.v; kind = 1; events.push_back(-got); if (l.after == 1) { n_rethrow++; throw; } }
    catch (Ex2 &x) { n_catch++; got = x.v; kind = 2; events.push_back(-got); if (l.after == 1) { n_rethrow++; throw; } }
    if (kind >= 0) {
      __asm__ volatile("" : "+r"(a), "+r"(b), "+r"(c), "+r"(e), "+r"(f), "+r"(h));
      if (a != l.regs[0] || b != l.regs[1] || c != l.regs[2] || e != l.regs[3] || f != l.regs[4] || h != l.regs[5]) viol("unwind-registers", "values of level %d changed after an exception: %llx %llx %llx %llx %llx %llx", d, (long long)a, (long long)b, (long long)c, (long long)e, (long long)f, (long long)h);
      if (l.after == 2) throw_kind((kind + 1) % 3, 2000 + d);
    }
  }
  __asm__ volatile("" : "+r"(a), "+r"(b), "+r"(c), "+r"(e), "+r"(f), "+r"(h));
  if (a != l.regs[0] || b != l.regs[1] || c != l.regs[2] || e != l.regs[3] || f != l.regs[4] || h != l.regs[5]) viol("unwind-registers", "values of level %d changed", d);
  if (l.walk) walk(d);
  if (d == stepd) { upper = d - 1; tf_on(); }
}
// ---- stack walk -------------------------------------------------------------------
struct W { std::vector<std::pair<uintptr_t, uintptr_t>> fr; bool over; };
static _Unwind_Reason_Code step(_Unwind_Context *c, void *p) { W *w = (W *)p; w->fr.push_back({ (uintptr_t)_Unwind_GetIP(c), (uintptr_t)_Unwind_GetCFA(c) }); if (w->fr.size() > 4000) { w->over = true; return _URC_END_OF_STACK; } return _URC_NO_REASON; }
static uintptr_t text_lo, text_hi; 
__attribute__((noinline)) static void walk(int d) {
  W w; w.over = false; n_walk++; _Unwind_Reason_Code rc = _Unwind_Backtrace(step, &w); n_frames += w.fr.size();
  if (w.over) viol("unwind-walk", "the walk does not end");
  if (rc != _URC_END_OF_STACK) viol("unwind-walk", "walk from level %d ended with reason %d after %zu frames", d, rc, w.fr.size());
  int expect = d; size_t i; bool root = false;
  for (i = 0; i + 1 < w.fr.size(); i++) {
    uintptr_t ip = w.fr[i].first - 1, cfa = w.fr[i + 1].second;
    if (i && w.fr[i].second < w.fr[i - 1].second) viol("unwind-walk", "frame addresses do not grow");
    if (ip >= (uintptr_t)__start_lvl_text && ip < (uintptr_t)__stop_lvl_text) {
      if (expect < 0) viol("unwind-walk", "more levels than were entered");
      if (cfa != (uintptr_t)lv[expect].cfa) viol("unwind-walk", "level %d: frame at %lx, really at %lx", expect, cfa, (uintptr_t)lv[expect].cfa);
      expect--;
    } else if (expect >= 0 && (ip < text_lo || ip >= text_hi)) viol("unwind-walk", "frame %zu below level %d has the address %lx outside the program", i, expect, ip);
  }
  if (expect != -1) viol("unwind-walk", "walk from level %d found levels down to %d only, %zu frames", d, expect + 1, w.fr.size());
}
// ---- hops ------------------------------------------------------------------------------
struct SW { int n, expect; bool sig, skip, over; uintptr_t ip, ip0, last; };
static _Unwind_Reason_Code sstep(_Unwind_Context *c, void *p) {
  SW *w = (SW *)p; int before = 0; uintptr_t ip = _Unwind_GetIPInfo(c, &before), cfa = _Unwind_GetCFA(c); if (!before) ip--;
  if (++w->n > 400) { w->over = true; return _URC_END_OF_STACK; }
  // the CFA of a frame in libgcc's sense is the caller's stack pointer seen when the next frame is visited
  if (w->last && w->last >= (uintptr_t)__start_lvl_text && w->last < (uintptr_t)__stop_lvl_text) { if (w->expect < 0) viol("unwind-walk", "interrupted at %lx: more levels than were entered", w->ip0); if (cfa != (uintptr_t)lv[w->expect].cfa) viol("unwind-walk", "interrupted at %lx: frame of level %d at %lx, really at %lx", w->ip0, w->expect, cfa, (uintptr_t)lv[w->expect].cfa); w->expect--; }
  else if (w->sig && w->expect >= 0 && w->last && (w->last < text_lo || w->last >= text_hi)) viol("unwind-walk", "interrupted at %lx: frame %d above level %d has the address %lx outside the program", w->ip0, w->n - 2, w->expect, w->last);
  w->last = w->sig ? ip : 0; if (!w->sig && ip == w->ip0 && before) { w->sig = true; w->last = ip; }
  return _URC_NO_REASON;
}
struct dwarf_eh_bases { void *tbase, *dbase, *func; }; extern "C" const void *_Unwind_Find_FDE(void *, struct dwarf_eh_bases *);
static void on_trap(int, siginfo_t *, void *uc) {
  uintptr_t ip = (uintptr_t)((ucontext_t *)uc)->uc_mcontext.gregs[REG_RIP]; n_steps++; if (stepd < 0) return; if (ip < text_lo || ip >= text_hi || (ip >= (uintptr_t)__start_lvl_text && ip < (uintptr_t)__stop_lvl_text) || (ip >= (uintptr_t)__start_hop_text && ip < (uintptr_t)__stop_hop_text)) return; struct dwarf_eh_bases bs; if (!_Unwind_Find_FDE((void *)ip, &bs)) { n_nofde++; return; }
  int e = errno; n_stepwalks++; trap_ip = ip; SW w; memset(&w, 0, sizeof w); w.expect = upper; w.ip0 = ip; _Unwind_Reason_Code rc = _Unwind_Backtrace(sstep, &w);
  if (w.over || rc != _URC_END_OF_STACK) viol("unwind-walk", "interrupted at %lx: walk ended with reason %d after %d frames", ip, rc, w.n); if (!w.sig) viol("unwind-walk", "interrupted at %lx: the interrupted frame was not found", ip); if (w.expect != -1) viol("unwind-walk", "interrupted at %lx: levels found down to %d only, %d frames", ip, w.expect + 1, w.n); errno = e;
}
static int cur_level;                         // level the next handler or callee runs as
static void handler(ffi_cif *cif, void *ret, void **av, void *user) { int d = cur_level; if (R.chance(50)) for (size_t i = 0; i < lv[d].args.size(); i++) memset(av[i], 0x11, lv[d].args[i]->size); descend(d); if (lv[d].rt->k != K_VOID) memset(ret, 0x22, lv[d].rt->isint() ? 8 : lv[d].rt->size); }
static void rawhandler(ffi_cif *cif, void *ret, ffi_raw *av, void *user) { int d = cur_level; descend(d); if (lv[d].rt->k != K_VOID) memset(ret, 0x22, lv[d].rt->isint() ? 8 : lv[d].rt->size); }
struct Big { long v[40]; }; struct Mix { double d; int i; }; struct Ldd { long double l; };
static int nat0(int a, double b, int c) { int d = cur_level; if (a != 7 || b != 2.5 || c != -3) viol("argument", "native callee 0"); descend(d); return 5; }
static void nat1() { descend(cur_level); }
static Big nat2(Big b, int x) { int d = cur_level; if (b.v[39] != 39 || x != 4) viol("argument", "native callee 2"); descend(d); b.v[0]++; return b; }
static long double nat3(long double a, long b, long c, long d, long e, long f, long g, long h) { int q = cur_level; if (a != 1.25L || h != 8) viol("argument", "native callee 3"); descend(q); return a + h; }
static Mix nat4(Mix m, float f) { int d = cur_level; if (m.d != 1.5 || m.i != 3 || f != 2) viol("argument", "native callee 4"); descend(d); m.i++; return m; }
static double nat5(double a, double b, double c, double d, double e, double f, double g, double h, double i, double j) { int q = cur_level; if (j != 10) viol("argument", "native callee 5"); descend(q); return a + j; }
static _Complex long double nat6(_Complex long double z) { descend(cur_level); return z; }
static ffi_cif ncif[7]; static ffi_type *nat_types[7][12]; static ffi_type bigT, mixT; static ffi_type *bigE[41], *mixE[3];
static void init_native() {
  for (int i = 0; i < 40; i++) bigE[i] = &ffi_type_slong; bigE[40] = 0; bigT = { 0, 0, FFI_TYPE_STRUCT, bigE }; mixE[0] = &ffi_type_double; mixE[1] = &ffi_type_sint; mixE[2] = 0; mixT = { 0, 0, FFI_TYPE_STRUCT, mixE };
  ffi_type *I = &ffi_type_sint, *L = &ffi_type_slong, *Dd = &ffi_type_double, *LD = &ffi_type_longdouble, *F = &ffi_type_float, *Z = &ffi_type_complex_longdouble;
  auto set = [](int i, ffi_type *r, std::vector<ffi_type *> a) { for (size_t k = 0; k < a.size(); k++) nat_types[i][k] = a[k]; if (ffi_prep_cif(&ncif[i], FFI_DEFAULT_ABI, (unsigned)a.size(), r, nat_types[i])) viol("status", "native signature %d", i); };
  set(0, I, { I, Dd, I }); set(1, &ffi_type_void, {}); set(2, &bigT, { &bigT, I }); set(3, LD, { LD, L, L, L, L, L, L, L }); set(4, &mixT, { &mixT, F }); set(5, Dd, { Dd, Dd, Dd, Dd, Dd, Dd, Dd, Dd, Dd, Dd }); set(6, Z, { Z });
}
__attribute__((noinline, section("hop_text"))) static void hop(int d) {
  Lv &l = lv[d]; n_hops++; cur_level = d; void *rv = l.nullr ? 0 : l.rv.data();
  if (d == stepd && l.hop != H_NATIVE) { upper = d - 1; tf_on(); }
  switch (l.hop) {
  case H_CLOSURE: ffi_call(l.cif, FFI_FN(l.code), rv, l.av.data()); break;
  case H_GO: ffi_call_go(l.cif, FFI_FN(l.go->tramp), rv, l.av.data(), l.go); break;
  case H_RAW: ffi_call(l.cif, FFI_FN(l.code), rv, l.av.data()); break;
  case H_DIRECT: ((void (*)())l.code)(); break;
  default: {
    int i0 = 7, i1 = -3, x = 4; double b = 2.5; Big big; for (int i = 0; i < 40; i++) big.v[i] = i; long double ld = 1.25L; long ls[7] = { 2, 3, 4, 5, 6, 7, 8 }; Mix m = { 1.5, 3 }; float f = 2; double ds[10]; for (int i = 0; i < 10; i++) ds[i] = i + 1; _Complex long double z = 3; alignas(16) u8 res[512];
    void *av[12]; void (*fn)() = 0;
    switch (l.native) {
    case 0: fn = FFI_FN(nat0); av[0] = &i0; av[1] = &b; av[2] = &i1; break; case 1: fn = FFI_FN(nat1); break; case 2: fn = FFI_FN(nat2); av[0] = &big; av[1] = &x; break;
    case 3: fn = FFI_FN(nat3); av[0] = &ld; for (int i = 0; i < 7; i++) av[1 + i] = &ls[i]; break; case 4: fn = FFI_FN(nat4); av[0] = &m; av[1] = &f; break;
    case 5: fn = FFI_FN(nat5); for (int i = 0; i < 10; i++) av[i] = &ds[i]; break; default: fn = FFI_FN(nat6); av[0] = &z; }
    if (d == stepd) { upper = d - 1; tf_on(); }
    ffi_call(&ncif[l.native], fn, l.nullr ? 0 : (void *)res, av);
    if (d == stepd) tf_off();
    if (!l.nullr) { if (l.native == 0 && *(ffi_arg *)res != 5) viol("result", "native callee 0"); if (l.native == 3 && *(long double *)res != 9.25L) viol("result", "native callee 3"); if (l.native == 5 && *(double *)res != 11) viol("result", "native callee 5"); } } }
  if (d == stepd) tf_off();
}
// ---- what must happen ----------------------------------------------------------------------
// returns value in flight (0 = none) when level d is left; fills want. kind irrelevant to the order.
static int simulate(int d) {
  int fl;
  if (d == D) fl = act == ACT_THROW ? 1000 + d : act == ACT_EXIT ? -1 : 0;
  else { fl = simulate(d + 1); if (fl > 0 && lv[d].catches) { want.push_back(-fl); if (lv[d].after == 1) ; else if (lv[d].after == 2) fl = 2000 + d; else fl = 0; } }
  want.push_back(d); return fl;
}
static void top() {
  int fl = 0; cur_level = 0; bool thrown = false; int v = 0;
  try { descend(0); } catch (int x) { thrown = true; v = x; } catch (Ex1 &x) { thrown = true; v = x.v; } catch (Ex2 &x) { thrown = true; v = x.v; }
  want.clear(); fl = simulate(0);
  if (thrown != (fl > 0) || v != fl) viol("exception", "%s leaves the chain, expected %d", thrown ? std::to_string(v).c_str() : "no exception", fl);
}
static void *thread_main(void *) { top(); return (void *)1; }
static void check_events() {
  if (events != want) { std::string a, b; for (int x : events) a += " " + std::to_string(x); for (int x : want) b += " " + std::to_string(x); viol("exception", "events%.400s, expected%.400s", a.c_str(), b.c_str()); }
  if (Ex1::live) viol("exception", "%d exception objects left", Ex1::live);
}
static void one(u64 idx, int maxdepth) {
  R.seed(o_seed, idx, 31); pool.reset(); meta.reset(); for (int i = 0; i < K_STRUCT; i++) pool.scal[i].f = builtin_ffi((K)i); GenCfg g; g.maxsize = 2048;
  D = (int)R.below(R.chance(20) ? maxdepth : 8); desc = strf("depth %d:", D); op = "set up"; unsigned z = (unsigned)R.below(100); act = z < 60 ? ACT_THROW : z < 85 ? ACT_WALK : z < 95 ? ACT_EXIT : ACT_RETURN; exkind = (int)R.below(3); int cp = (int)R.below(60);
  std::string shape;
  for (int d = 0; d <= D; d++) {
    Lv &l = lv[d]; l.catches = R.chance(cp); l.after = R.chance(50) ? 0 : (int)R.below(3); l.walk = act != ACT_EXIT && R.chance(15); for (u64 &r : l.regs) r = R.next(); l.hop = (Hop)R.below(H_NUM); l.nullr = R.chance(15); l.native = (int)R.below(7); l.clo = 0; l.go = 0; l.args.clear(); l.rt = &pool.scal[K_VOID];
    if (l.hop != H_NATIVE && d) {
      if (l.hop != H_DIRECT) { l.rt = R.chance(20) ? l.rt : gen_type(R, pool, g, 40); int n = (int)R.below(R.chance(10) ? 60 : 10); for (int i = 0; i < n; i++) l.args.push_back(gen_type(R, pool, g, 35)); if (l.hop == H_RAW) { for (Ty *t : l.args) (void)t; } }
      size_t n = l.args.size(); l.cif = (ffi_cif *)meta.get(sizeof(ffi_cif)); ffi_type **at = (ffi_type **)meta.get(8 * (n + 1)); for (size_t i = 0; i < n; i++) at[i] = pool.emit(l.args[i], meta);
      if (ffi_prep_cif(l.cif, FFI_DEFAULT_ABI, (unsigned)n, pool.emit(l.rt, meta), at)) viol("status", "valid signature rejected");
      if (l.hop == H_GO) { l.go = (ffi_go_closure *)meta.get(sizeof(ffi_go_closure)); if (ffi_prep_go_closure(l.go, l.cif, handler)) viol("status", "Go closure rejected"); }
      else { size_t cs = sizeof(ffi_raw_closure) > sizeof(ffi_closure) ? sizeof(ffi_raw_closure) : sizeof(ffi_closure); l.clo = (ffi_closure *)ffi_closure_alloc(cs, &l.code); if (!l.clo) viol("closure-alloc", "no closure"); ffi_status s = l.hop == H_RAW ? ffi_prep_raw_closure_loc((ffi_raw_closure *)l.clo, l.cif, rawhandler, &l, l.code) : ffi_prep_closure_loc(l.clo, l.cif, handler, &l, l.code); if (s) viol("status", "closure rejected"); }
      size_t tot = 0; for (Ty *t : l.args) tot += (t->size + 15) & ~15ul; l.store.assign(tot + 16, 0x33); l.av.assign(n + 1, 0); size_t o = 0; for (size_t i = 0; i < n; i++) { l.av[i] = l.store.data() + o; o += (l.args[i]->size + 15) & ~15ul; } l.rv.assign(l.rt->size + 16, 0x44);
      shape += strf(" %d:%s%s(%zu)", l.hop, l.catches ? "C" : "", l.rt->str().substr(0, 20).c_str(), n);
    } else shape += strf(" n%d%s", l.native, l.catches ? "C" : "");
  }
  desc += strf(" act=%d ex=%d", act, exkind) + shape; ids.insert(fnv(desc)); op = "running"; stepd = o_single && D ? 1 + (int)R.below(D) : -1; events.clear(); events.reserve(MAXD * 4);
  if (act == ACT_EXIT) {
    pthread_t t; void *res = &res; if (pthread_create(&t, 0, thread_main, 0) || pthread_join(t, &res)) { perror("pthread"); exit(2); } if (res != 0) viol("exception", "the thread did not exit through the chain"); want.clear(); simulate(0);
  } else top();
  stepd = -1; op = "after"; check_events();
  for (int d = 0; d <= D; d++) if (lv[d].clo) ffi_closure_free(lv[d].clo);
}
int main(int argc, char **argv) {
  Opts o(argc, argv); setvbuf(stdout, 0, _IOLBF, 0); set_kinds(o.str("kinds", "")); install_crash_handlers(); viol_context = ctx; o_seed = o.num("seed", 1); long from = o.num("from", 0), step = o.num("step", 1), cases = o.num("cases", 1000); int md = (int)o.num("maxdepth", 40);
  text_lo = (uintptr_t)__executable_start; text_hi = (uintptr_t)etext; if ((uintptr_t)__stop_lvl_text > text_hi) text_hi = (uintptr_t)__stop_lvl_text; init_native(); o_single = (int)o.num("single", 0); if (o_single) { struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_sigaction = on_trap; sa.sa_flags = SA_SIGINFO; sigaction(SIGTRAP, &sa, 0); }
  for (long i = 0; i < cases; i++) { g_case = from + i * step; one(g_case, md > MAXD ? MAXD : md); if (i < 3) printf("SAMPLE %s\n", desc.substr(0, 300).c_str()); }
  stat_line("invocations", n_hops); stat_line("exceptions_thrown", n_throw); stat_line("caught", n_catch); stat_line("rethrown", n_rethrow); if (o_single) { stat_line("instructions_interrupted", n_steps); stat_line("interrupted_in_stubs_without_unwind_information", n_nofde); stat_line("walks_from_interrupted_instructions", n_stepwalks); } stat_line("stack_walks", n_walk); stat_line("frames_walked", n_frames); stat_line("thread_exits", n_exit); stat_line("destructors", n_dtor); stat_line("normal_returns", n_return);
  write_ids(o.str("ids", ""), ids); printf("DONE\n"); return 0;
}
