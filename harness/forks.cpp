// Closure histories continued on both sides of forks: every process keeps its
// own copy of the shadow table and checks all its closures against it, in turns
// with or concurrently to its relatives.
//   --seed --from --step --cases --ops
#define COMMON_IMPL
#define CLO_IMPL
#include "clo.h"
#include <sys/wait.h>
#include <sys/prctl.h>
#include <pthread.h>
static Rng R; static u64 o_seed; static int o_ops; static std::string op = "start"; static std::string who = "root"; static std::string desc;
static std::string ctx() { return who + " " + op + ": " + desc; }
struct Shared { volatile u64 inv, alloc, freed, prep, reprep, forks, infork, checks, procs, turns, orphans, cifs, walked, max_live; volatile int bad; u64 ids[1 << 16]; volatile u64 nids; }; static Shared *S;
#define CNT(x, n) __atomic_add_fetch(&S->x, (n), __ATOMIC_RELAXED)
struct Clo { ffi_closure *w; void *code; int sig, hand, cifk; void *user; u64 pat; size_t size; bool raw; };
static std::vector<Clo> live; static std::vector<void *> freed_codes;
static u8 patb(u64 p, size_t i) { return (u8)Rng::mix(p + i); }
static void invoke(Clo &c) { u64 n = R.next(); std::string e = clo_invoke(c.code, c.sig, c.hand, c.user, &clo_cif[c.sig][c.cifk], n); CNT(inv, 1); if (!e.empty()) viol("misrouted", "closure %p (%s): %s", c.w, clo_signame[c.sig], e.c_str()); }
static void check(Clo &c) { CNT(checks, 1); for (size_t i = sizeof(ffi_closure); i < c.size; i++) if (((u8 *)c.w)[i] != patb(c.pat, i)) viol("content", "closure %p: byte %zu changed", c.w, i); invoke(c); }
static void check_all() { op = "check of all closures"; for (Clo &c : live) check(c); }
static void prep(Clo &c) { c.sig = (int)R.below(CSIG); c.hand = (int)R.below(NHAND); c.cifk = (int)R.below(2); c.user = (void *)R.next(); if (ffi_prep_closure_loc(c.w, &clo_cif[c.sig][c.cifk], clo_handlers[c.sig][c.hand], c.user, c.code)) viol("status", "preparation refused"); }
static void alloc() {
  op = "allocation"; Clo c; c.size = sizeof(ffi_closure) + (R.chance(60) ? 0 : R.below(R.chance(10) ? 9000 : 200)); c.w = (ffi_closure *)ffi_closure_alloc(c.size, &c.code); if (!c.w) viol("closure-alloc", "no closure"); CNT(alloc, 1);
  for (Clo &o : live) { if ((u8 *)c.w < (u8 *)o.w + o.size && (u8 *)o.w < (u8 *)c.w + c.size) viol("overlap", "objects %p and %p", c.w, o.w); if (o.code == c.code) viol("overlap", "code address %p twice", c.code); }
  c.pat = R.next(); for (size_t i = sizeof(ffi_closure); i < c.size; i++) ((u8 *)c.w)[i] = patb(c.pat, i); prep(c); CNT(prep, 1); live.push_back(c); if (live.size() > S->max_live) S->max_live = live.size();
}
static void release(size_t i) { op = "release"; ffi_closure_free(live[i].w); CNT(freed, 1); live[i] = live.back(); live.pop_back(); }
static ffi_type *at[3] = { &ffi_type_double, &ffi_type_sint, 0 };
static double cal(double d, int i) { return d * 2 + i; }
static void ops(int n) {
  int want = 1 + (int)R.below(R.chance(20) ? 400 : 60);
  if (R.chance(10)) { int m = (int)R.below(400); while ((int)live.size() < m) alloc(); }
  if (R.chance(10)) { size_t m = R.below(30); while (live.size() > m) release(R.below(live.size())); }
  for (int k = 0; k < n; k++) {
    unsigned z = (unsigned)R.below(100); op = "operation";
    if (live.empty() || (z < 30 && (int)live.size() < want)) alloc(); else if (z < 55 && !live.empty()) release(R.below(live.size())); else if (z < 75) { op = "preparation"; Clo &c = live[R.below(live.size())]; prep(c); CNT(reprep, 1); invoke(c); }
    else if (z < 97) { op = "invocation"; invoke(live[R.below(live.size())]); }
    else { op = "call"; ffi_cif cif; if (ffi_prep_cif(&cif, FFI_DEFAULT_ABI, 2, &ffi_type_double, at)) viol("status", "ffi_prep_cif"); double d = (double)R.below(1000), r; int i = (int)R.below(99); void *av[] = { &d, &i }; ffi_call(&cif, FFI_FN(cal), &r, av); CNT(cifs, 1); if (r != d * 2 + i) viol("result", "call returned %g", r); }
  }
}
// Relatives take turns by a byte passed round; in concurrent cases they do not wait.
static void give(int fd) { char c = 'x'; if (write(fd, &c, 1) < 0) {} }
static bool take(int fd) { char c; return read(fd, &c, 1) == 1; }
static void *idle(void *) { for (;;) pause(); }
static int forkmode; static int depthleft; static pid_t forked; static bool want_fork; static int pp[2], pc[2];
static void in_handler(u64) { if (!want_fork) return; want_fork = false; CNT(infork, 1); forked = fork(); if (forked < 0) { perror("fork"); _exit(2); } }
static void life(int level) {
  ops((int)R.below(o_ops)); check_all();
  if (level >= depthleft) { while (!live.empty()) release(R.below(live.size())); return; }
  if (pipe(pp) || pipe(pc)) { perror("pipe"); _exit(2); }
  bool turns = R.chance(60), orphan = R.chance(20), inside = R.chance(30); int rounds = 1 + (int)R.below(4), first = (int)R.below(2); u64 cs = R.next(), ps = R.next();
  CNT(forks, 1); forked = -1; op = "fork";
  if (inside) { if (live.empty()) alloc(); want_fork = true; clo_in_handler = in_handler; invoke(live[R.below(live.size())]); clo_in_handler = 0; } else { forked = fork(); if (forked < 0) { perror("fork"); _exit(2); } }
  bool child = forked == 0; pid_t kid = forked; int in = child ? pp[0] : pc[0], out = child ? pc[1] : pp[1]; close(child ? pp[1] : pp[0]); close(child ? pc[0] : pc[1]);
  R.seed(child ? cs : ps, level, child); if (child) { who += ".c"; CNT(procs, 1); } else who += ".p"; if (child) prctl(PR_SET_PDEATHSIG, 0);
  // after the fork nothing has changed on either side
  if (turns && child != (first == 1)) take(in);
  check_all();
  for (int r = 0; r < rounds; r++) {
    if (!turns) { ops((int)R.below(o_ops)); check_all(); continue; }
    ops((int)R.below(o_ops)); if (R.chance(50)) check_all(); give(out); CNT(turns, 1); if (!take(in)) break; check_all();
  }
  if (turns) give(out);
  if (child) { int a = pp[0], b = pc[1]; life(level + 1); close(a); close(b); _exit(0); }
  int a = pp[1], b = pc[0];
  if (R.chance(30)) while (!live.empty()) release(R.below(live.size()));            // everything gone in the parent while the child goes on
  if (R.chance(50)) life(level + 1); close(a); close(b); int st; op = "waiting for the child"; if (waitpid(kid, &st, 0) != kid) { perror("waitpid"); _exit(2); }
  if (!WIFEXITED(st) || WEXITSTATUS(st)) { if (WIFSIGNALED(st)) viol("crash-child", "a child process ended by signal %d", WTERMSIG(st)); fflush(stdout); _exit(WEXITSTATUS(st)); }
  op = "after the child's end"; check_all(); ops(20); check_all();
}
static void case_main(u64 idx) {
  R.seed(o_seed, idx, 51); depthleft = 1 + (int)R.below(3); bool thr = R.chance(30); desc = strf("case %llu depth %d idle thread %d", (unsigned long long)idx, depthleft, thr); pthread_t t; if (thr) pthread_create(&t, 0, idle, 0);
  if (R.chance(15)) { } else alloc(); if (R.chance(20)) o_ops = 4; life(0); check_all(); _exit(0);
}
int main(int argc, char **argv) {
  Opts o(argc, argv); setvbuf(stdout, 0, _IOLBF, 0); set_kinds(o.str("kinds", "")); install_crash_handlers(); signal(SIGPIPE, SIG_IGN); viol_context = ctx; o_seed = o.num("seed", 1); long from = o.num("from", 0), step = o.num("step", 1), cases = o.num("cases", 100); o_ops = (int)o.num("ops", 120); clo_init();
  S = (Shared *)mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); std::unordered_set<u64> ids;
  for (long i = 0; i < cases; i++) {
    g_case = from + i * step; pid_t p = fork(); if (p < 0) { perror("fork"); return 2; } if (!p) case_main(g_case); int st; if (waitpid(p, &st, 0) != p) { perror("waitpid"); return 2; }
    if (WIFSIGNALED(st)) { who = "root"; op = "run"; desc = ""; viol("crash-root", "the process ended by signal %d", WTERMSIG(st)); } if (WEXITSTATUS(st)) { fflush(stdout); _exit(WEXITSTATUS(st)); } ids.insert(Rng::mix(o_seed * 1000003 + g_case)); if (i < 2) printf("SAMPLE case %ld: up to %llu live closures, %llu forks so far\n", g_case, (unsigned long long)S->max_live, (unsigned long long)S->forks);
  }
  stat_line("invocations", S->inv); stat_line("allocations", S->alloc); stat_line("releases", S->freed); stat_line("re_preparations", S->reprep); stat_line("contents_checked", S->checks); stat_line("forks", S->forks); stat_line("forks_inside_a_handler", S->infork); stat_line("turns", S->turns); stat_line("ordinary_calls", S->cifs); stat_line("max_live", S->max_live);
  write_ids(o.str("ids", ""), ids); printf("DONE\n"); return 0;
}
