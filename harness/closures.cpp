// Single-threaded closure histories against a shadow model, with resource
// accounting and page-protection monitoring.
//   --mode=history|cycle|protect   --seed --from --cases --ops --static=1/0
#define COMMON_IMPL
#define CLO_IMPL
#define WRAP_IMPL
#include "clo.h"
#include "wrap.h"
#include <dirent.h>
#include <fcntl.h>
#include <stddef.h>
#include <sys/prctl.h>
#include <linux/seccomp.h>
#include <linux/filter.h>
#include <sys/syscall.h>
extern "C" void *ffi_data_to_code_pointer(void *) __attribute__((weak));
static Rng R; static u64 o_seed; static bool o_static; static std::string o_mode;
static u64 n_ops, n_alloc, n_free, n_inv, n_prep, n_reprep, n_query, n_maps, n_user, n_raw, n_refused, max_live_seen, n_check;
static std::unordered_set<u64> seen_states;
static std::string cur_op; static u64 hist_ops;
static std::string ctx() { return strf("mode=%s history op %llu: %s", o_mode.c_str(), (unsigned long long)hist_ops, cur_op.c_str()); }

enum PK { PK_NONE, PK_PLAIN, PK_RAW };
struct Clo { u8 *w; size_t size; u8 *code; int sig, hand, cifk; void *user; PK prepared; u64 pat; bool usermem; };
static std::vector<Clo> live; static std::map<u8 *, size_t> blocks; static std::set<u8 *> codes;

// ---- page protections ---------------------------------------------------------
struct Reg { uintptr_t a, b; char r, w, x; }; static std::vector<Reg> regs;
static char mapsbuf[4 << 20];
static void read_maps() {
  int fd = __real_open("/proc/self/maps", O_RDONLY); size_t n = 0; ssize_t k; while ((k = read(fd, mapsbuf + n, sizeof mapsbuf - 1 - n)) > 0) n += k; __real_close(fd); mapsbuf[n] = 0;
  regs.clear(); for (char *p = mapsbuf; *p;) { unsigned long a, b; char f[8]; if (sscanf(p, "%lx-%lx %7s", &a, &b, f) == 3) regs.push_back({ a, b, f[0], f[1], f[2] }); p = strchr(p, '\n'); if (!p) break; p++; }
  n_maps++;
}
static const Reg *reg_of(const void *p) { uintptr_t a = (uintptr_t)p; size_t lo = 0, hi = regs.size(); while (lo < hi) { size_t m = (lo + hi) / 2; if (regs[m].b <= a) lo = m + 1; else hi = m; } return lo < regs.size() && regs[lo].a <= a ? &regs[lo] : 0; }
static uintptr_t user_rwx; static size_t user_rwx_len;
static void check_maps(bool full) {
  read_maps();
  for (const Reg &r : regs) if (r.w == 'w' && r.x == 'x') { if (r.a >= user_rwx && r.b <= user_rwx + user_rwx_len) continue; if (o_static) viol("writable-executable", "mapping %lx-%lx is writable and executable", r.a, r.b); }
  if (full) for (Clo &c : live) if (!c.usermem) {
    // an object may straddle mappings: every one of them must be writable
    const Reg *rw = reg_of(c.w), *rx = reg_of(c.code); uintptr_t at = (uintptr_t)c.w, end = at + c.size; bool anyx = false;
    while (at < end) { const Reg *g = reg_of((void *)at); if (!g || g->w != 'w') { viol("closure-memory", "closure object %p+%zu not in writable memory at %lx", c.w, c.size, at); break; } anyx |= g->x == 'x'; at = g->b; }
    if (!rx || rx->x != 'x') viol("closure-code", "code address %p not in executable memory", c.code);
    else if (o_static && rw && (anyx || rx->w == 'w')) viol("writable-executable", "closure %p: object page %c%c%c, code page %c%c%c", c.w, rw->r, rw->w, rw->x, rx->r, rx->w, rx->x);
  }
}
// contents of the executable pages of live closures must never change (static trampolines)
static std::map<uintptr_t, u64> codehash;
static void check_code_pages() {
  if (!o_static) return;
  std::map<uintptr_t, u64> now;
  for (Clo &c : live) if (!c.usermem) { uintptr_t p = (uintptr_t)c.code & ~4095ul; if (!now.count(p)) { u64 h = fnv((void *)p, 4096); now[p] = h; auto it = codehash.find(p); if (it != codehash.end() && it->second != h) viol("code-modified", "executable page %lx changed", p); } }
  codehash = now;
}
// ---- descriptors -----------------------------------------------------------------
static int count_fds(bool check, int *nlib) {
  DIR *d = opendir("/proc/self/fd"); int n = 0; struct dirent *e; *nlib = 0;
  while ((e = readdir(d))) { if (e->d_name[0] == '.') continue; int fd = atoi(e->d_name); if (fd == dirfd(d)) continue; n++; if (W.fds.count(fd)) { (*nlib)++; int f = fcntl(fd, F_GETFD); if (check && !(f & FD_CLOEXEC)) viol("descriptor-inherited", "descriptor %d opened by the library is not close-on-exec", fd); } }
  closedir(d); return n;
}
static int base_fds;

// ---- operations ---------------------------------------------------------------
static u8 *usermem; static size_t user_used;
static void op_invoke(Clo &c) {
  if (!c.prepared) return;
  Held held; u64 nonce = R.next(); std::string e;
  if (c.prepared == PK_PLAIN) { LIB l; e = clo_invoke(c.code, c.sig, c.hand, c.user, &clo_cif[c.sig][c.cifk], nonce); }
  else { LIB l; e = clo_invoke(c.code, c.sig, c.hand, c.user, &clo_cif[c.sig][c.cifk], nonce); }
  n_inv++;
  if (!e.empty()) viol("misrouted", "closure %p code %p: %s", c.w, c.code, e.c_str());
  if (held.grew()) viol("call-allocates", "memory or descriptors acquired while invoking a closure were kept");
}
static void check_content(Clo &c) {
  n_check++;
  for (size_t i = sizeof(ffi_closure); i < c.size; i += (i + 64 < c.size ? 1 + i / 16 : 1)) if (c.w[i] != (u8)(c.pat + i * 7)) viol("content", "byte %zu of live closure object %p changed", i, c.w);
  if (c.prepared == PK_PLAIN) { ffi_closure *f = (ffi_closure *)c.w; if (f->cif != &clo_cif[c.sig][c.cifk] || f->fun != clo_handlers[c.sig][c.hand] || f->user_data != c.user) viol("content", "fields of live closure object %p changed", c.w); }
}
static void op_query(Clo &c) {
  if (!ffi_data_to_code_pointer) return;
  void *p; { LIB l; p = ffi_data_to_code_pointer(c.w); } n_query++;
  if (p != c.code) viol("data-to-code", "query for %p gives %p, allocation gave %p", c.w, p, c.code);
}
static void op_prep(Clo &c) {
  c.sig = (int)R.below(CSIG); c.hand = (int)R.below(NHAND); c.cifk = (int)R.below(2);
  c.user = R.chance(10) ? 0 : R.chance(10) ? (void *)c.w : R.chance(10) ? (void *)c.code : (void *)(uintptr_t)R.next();
  Held held; ffi_status st;
  { LIB l; st = ffi_prep_closure_loc((ffi_closure *)c.w, &clo_cif[c.sig][c.cifk], clo_handlers[c.sig][c.hand], c.user, c.code); }
  if (st != FFI_OK) viol("status", "ffi_prep_closure_loc returned %d", st);
  if (held.grew()) viol("call-allocates", "memory or descriptors acquired while preparing a closure were kept");
  if (c.prepared) n_reprep++; n_prep++; c.prepared = PK_PLAIN;
}
static size_t pick_size(bool uniform) {
  if (uniform) return sizeof(ffi_closure);
  unsigned z = (unsigned)R.below(100); if (z < 60) return sizeof(ffi_closure); if (z < 90) return sizeof(ffi_closure) + R.below(300); if (z < 98) return sizeof(ffi_closure) + R.below(6000); return sizeof(ffi_closure) + R.below(300000);
}
static size_t live_bytes, peak_bytes, peak_live;
static bool op_alloc(bool uniform) {
  Clo c; memset(&c, 0, sizeof c); c.size = pick_size(uniform); void *code = (void *)0x1;
  cur_op = strf("alloc %zu with %zu live", c.size, live.size());
  { LIB l; c.w = (u8 *)ffi_closure_alloc(c.size, &code); } n_alloc++;
  if (!c.w) viol("closure-alloc", "ffi_closure_alloc(%zu) returned null", c.size);
  c.code = (u8 *)code; c.pat = R.next();
  if ((uintptr_t)c.w % 8) viol("closure-memory", "closure object %p misaligned", c.w);
  auto it = blocks.lower_bound(c.w); if (it != blocks.end() && it->first < c.w + c.size) viol("overlap", "new object %p+%zu overlaps live object %p", c.w, c.size, it->first);
  if (it != blocks.begin()) { --it; if (it->first + it->second > c.w) viol("overlap", "new object %p overlaps live object %p+%zu", c.w, it->first, it->second); }
  if (codes.count(c.code)) viol("overlap", "code address %p handed out twice", c.code);
  blocks[c.w] = c.size; codes.insert(c.code);
  for (size_t i = sizeof(ffi_closure); i < c.size; i++) c.w[i] = (u8)(c.pat + i * 7);
  live_bytes += c.size; if (live_bytes > peak_bytes) peak_bytes = live_bytes;
  live.push_back(c); if (live.size() > peak_live) peak_live = live.size();
  return true;
}
static void op_free(size_t i) {
  Clo c = live[i]; cur_op = strf("free %p", c.w); live[i] = live.back(); live.pop_back();
  if (c.usermem) { return; }
  check_content(c); blocks.erase(c.w); codes.erase(c.code); live_bytes -= c.size;
  { LIB l; ffi_closure_free(c.w); } n_free++;
}
static void op_user() {                 // closure in memory the user manages, next to the library's
  if (user_used + 64 > user_rwx_len) return;
  Clo c; memset(&c, 0, sizeof c); c.w = c.code = (u8 *)user_rwx + user_used; user_used += 64; c.size = sizeof(ffi_closure); c.usermem = true; n_user++;
  if (ffi_data_to_code_pointer && ffi_data_to_code_pointer(c.w) != c.w) viol("data-to-code", "query for user-managed memory %p", c.w);
  live.push_back(c); cur_op = "prep user memory"; op_prep(live.back());
}
static void bounds(bool uniform) {
  // space held is a function of the peak number of live closures, not of the history's length
  size_t heap_ok = uniform ? peak_live * 128 + (192 << 10) + (2 << 20) : peak_bytes * 4 + peak_live * 128 + (5 << 20);
  size_t tables = peak_live / 64 + 3, tbl_ok = tables * 8192;
  if (W.map_bytes > heap_ok + tbl_ok) viol("mappings-grow", "library holds %zu mapped bytes; peak %zu live closures of %zu bytes", W.map_bytes, peak_live, peak_bytes);
  if (W.heap_bytes > tables * 16384) viol("heap-grows", "library holds %zu heap bytes; peak %zu live closures", W.heap_bytes, peak_live);
  int nlib; int n = count_fds(true, &nlib); if (n > base_fds + 2) viol("descriptors-grow", "%d descriptors open, %d at start", n, base_fds);
  size_t nx = 0; for (auto &m : W.maps) if (m.second.second & PROT_EXEC) nx += m.second.first;
  if (o_static && nx > tables * 4096) viol("mappings-grow", "%zu bytes of trampoline code mapped; peak %zu live closures", nx, peak_live);
}
static void free_all() { while (!live.empty()) op_free(R.chance(50) ? live.size() - 1 : R.below(live.size())); }
static void after_all_freed(bool uniform) {
  bounds(uniform);
  size_t nx = 0; for (auto &m : W.maps) if (m.second.second & PROT_EXEC) nx += m.second.first;
  if (o_static && nx > 2 * 4096) viol("tables-not-returned", "%zu bytes of trampoline code mapped with no live closure", nx);
  if (W.heap_bytes > 2 * 16384) viol("heap-grows", "%zu heap bytes held with no live closure", W.heap_bytes);
  // heap segments: dlmalloc keeps at most the trim threshold beyond what fragmentation pinned
}
static void step_random(size_t target, bool uniform) {
  unsigned z = (unsigned)R.below(100); hist_ops++; n_ops++;
  bool grow = live.size() < target;
  if (z < 35 ? grow : z < 45 ? !grow && live.size() < target + 40 : false) { op_alloc(uniform); if (R.chance(90)) { cur_op = "prep"; op_prep(live.back()); } }
  else if (live.empty()) { op_alloc(uniform); }
  else if (z < 60) { if (!grow || R.chance(40)) op_free(R.chance(30) ? live.size() - 1 : R.below(live.size())); }
  else if (z < 72) { cur_op = "prep"; op_prep(live[R.below(live.size())]); }
  else if (z < 92) { cur_op = "invoke"; op_invoke(live[R.below(live.size())]); }
  else if (z < 95) { cur_op = "query"; Clo &c = live[R.below(live.size())]; if (!c.usermem) op_query(c); }
  else if (z < 98) { cur_op = "content"; Clo &c = live[R.below(live.size())]; if (!c.usermem) check_content(c); }
  else if (z == 98) { cur_op = "impossible size"; void *code; void *p; { LIB l; p = ffi_closure_alloc(!o_static || R.chance(50) ? SIZE_MAX - R.below(300) : ((size_t)1 << 46) + R.below(99), &code); } if (p) viol("impossible-size", "allocation of an impossible size succeeded"); n_refused++; { LIB l; p = ffi_closure_alloc(sizeof(ffi_closure), 0); } if (p) viol("status", "allocation without a place for the code address succeeded"); }
  else op_user();
}
static void verify_all() { cur_op = "verify all"; for (Clo &c : live) { if (!c.usermem) { check_content(c); op_query(c); } op_invoke(c); } check_code_pages(); }

static void history(u64 idx, u64 ops, bool uniform) {
  g_case = (long)idx; R.seed(o_seed, o_mode == "cycle" ? 11 : 12, idx); hist_ops = 0;
  size_t target = 0; u64 next_target = 0, next_verify = 50;
  for (u64 k = 0; k < ops; k++) {
    if (k >= next_target) { unsigned z = (unsigned)R.below(10); target = z < 3 ? R.below(8) : z < 7 ? R.below(230) : z < 9 ? R.below(700) : R.below(2500); next_target = k + 1 + R.below(target * 4 + 50); if (R.chance(15)) { free_all(); after_all_freed(uniform); } }
    step_random(target, uniform);
    if (k >= next_verify) { verify_all(); check_maps(true); bounds(uniform); next_verify = k + 100 + R.below(ops / 4 + 1); }
    seen_states.insert((u64)live.size() * 1000003 + W.maps.size() * 131 + W.heap.size());
    if (live.size() > max_live_seen) max_live_seen = live.size();
  }
  verify_all(); check_maps(true); free_all(); user_used = 0; after_all_freed(uniform);
}

// long steady-state run: the same peak over and over; footprint must not creep
static void cycle(u64 idx, u64 ops) {
  g_case = (long)idx; R.seed(o_seed, 13, idx); size_t peak = 1 + R.below(R.chance(50) ? 30 : 400); int style = (int)R.below(4); size_t m1 = 0, h1 = 0; u64 rounds = ops / (peak * 2) + 6;
  for (u64 r = 0; r < rounds; r++) {
    cur_op = "cycle"; hist_ops = r; size_t keep = style == 3 ? R.below(peak) : 0;
    while (live.size() < peak) { op_alloc(true); n_ops++; if (R.chance(30)) op_prep(live.back()); }
    if (R.chance(3)) verify_all(); else op_prep(live[0]), op_invoke(live[0]);
    while (live.size() > keep) { size_t i = style == 0 ? live.size() - 1 : style == 1 ? 0 : R.below(live.size()); op_free(i); n_ops++; }
    if (r == 3) { m1 = W.map_bytes; h1 = W.heap_bytes; }
    if (r > 3 && r % 16 == 0) { size_t slack = peak * 128 + 16384; if (W.map_bytes > m1 + slack + 3 * 8192) viol("mappings-grow", "cycle %llu: %zu mapped bytes, %zu after the third cycle, peak %zu", (unsigned long long)r, W.map_bytes, m1, peak); if (W.heap_bytes > h1 + (peak / 64 + 2) * 16384) viol("heap-grows", "cycle %llu: %zu heap bytes, %zu after the third cycle", (unsigned long long)r, W.heap_bytes, h1); }
    seen_states.insert(live.size() * 1000003 + peak * 131 + style);
  }
  free_all(); after_all_freed(true);
}

// ---- kernel-enforced policy ------------------------------------------------------
static volatile sig_atomic_t sys_nr; 
static void on_sys(int, siginfo_t *si, void *) { const char m[] = "\nVIOL policy | the library asked for memory writable and executable, or to make memory executable\n"; if (write(1, m, sizeof m - 1) < 0) {} _exit(3); }
static void install_policy(bool trap, int err) {
  struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_sigaction = on_sys; sa.sa_flags = SA_SIGINFO; sigaction(SIGSYS, &sa, 0);
  u32 act = trap ? SECCOMP_RET_TRAP : (SECCOMP_RET_ERRNO | (u32)err);
  struct sock_filter f[] = {
    BPF_STMT(BPF_LD | BPF_W | BPF_ABS, offsetof(struct seccomp_data, nr)),
    BPF_JUMP(BPF_JMP | BPF_JEQ | BPF_K, __NR_mmap, 0, 4),
    BPF_STMT(BPF_LD | BPF_W | BPF_ABS, offsetof(struct seccomp_data, args[2])),
    BPF_STMT(BPF_ALU | BPF_AND | BPF_K, PROT_WRITE | PROT_EXEC),
    BPF_JUMP(BPF_JMP | BPF_JEQ | BPF_K, PROT_WRITE | PROT_EXEC, 5, 0),
    BPF_STMT(BPF_RET | BPF_K, SECCOMP_RET_ALLOW),
    BPF_JUMP(BPF_JMP | BPF_JEQ | BPF_K, __NR_mprotect, 0, 4),
    BPF_STMT(BPF_LD | BPF_W | BPF_ABS, offsetof(struct seccomp_data, args[2])),
    BPF_STMT(BPF_ALU | BPF_AND | BPF_K, PROT_EXEC),
    BPF_JUMP(BPF_JMP | BPF_JEQ | BPF_K, PROT_EXEC, 0, 1),
    BPF_STMT(BPF_RET | BPF_K, act),
    BPF_STMT(BPF_RET | BPF_K, SECCOMP_RET_ALLOW),
  };
  struct sock_fprog p = { sizeof f / sizeof *f, f };
  if (prctl(PR_SET_NO_NEW_PRIVS, 1, 0, 0, 0) || prctl(PR_SET_SECCOMP, SECCOMP_MODE_FILTER, &p)) { perror("seccomp"); exit(2); }
  // the policy must be in force, or the run would prove nothing
  if (!trap) { void *q = __real_mmap(0, 4096, PROT_READ | PROT_WRITE | PROT_EXEC, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); if (q != MAP_FAILED || errno != err) { fprintf(stderr, "policy not enforced\n"); exit(2); } }
}

int main(int argc, char **argv) {
  Opts o(argc, argv); setvbuf(stdout, 0, _IOLBF, 0); set_kinds(o.str("kinds", "")); install_crash_handlers(); viol_context = ctx;
  o_seed = (u64)o.num("seed", 1); o_static = o.num("static", 1); o_mode = o.str("mode", "history");
  u64 from = (u64)o.num("from", 0), n = (u64)o.num("cases", 5), step = (u64)o.num("step", 1), ops = (u64)o.num("ops", 4000);
  clo_init(); live.reserve(100000);
  if (!o.num("policy", 0)) { user_rwx_len = 64 * 400; user_rwx_len = (user_rwx_len + 4095) & ~4095ul; }
  int nlib; base_fds = count_fds(false, &nlib);
  if (o.num("policy", 0) == 1) install_policy(true, 0); else if (o.num("policy", 0)) install_policy(false, o.num("policy", 0) == 2 ? EACCES : EPERM);
  if (user_rwx_len) {       // ask for the pages right behind the first closure segment, to be its neighbour
    void *code; u8 *p; { LIB l; p = (u8 *)ffi_closure_alloc(sizeof(ffi_closure), &code); } if (!p) viol("closure-alloc", "first allocation failed");
    uintptr_t a = 0; for (auto &m : W.maps) if ((uintptr_t)p >= m.first && (uintptr_t)p < m.first + m.second.first) a = m.first + m.second.first;
    void *q = __real_mmap((void *)a, user_rwx_len, PROT_READ | PROT_WRITE | PROT_EXEC, MAP_PRIVATE | MAP_ANONYMOUS | 0x100000, -1, 0);
    if (q == MAP_FAILED) q = __real_mmap(0, user_rwx_len, PROT_READ | PROT_WRITE | PROT_EXEC, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    user_rwx = (uintptr_t)q; { LIB l; ffi_closure_free(p); }
  }
  for (u64 i = 0; i < n; i++) {
    u64 idx = from + i * step; bool uniform = idx % 3 == 0;
    if (o_mode == "cycle") cycle(idx, ops); else history(idx, ops, false);
    if (i < 2) printf("SAMPLE %s %llu: %llu operations, peak %zu live, %zu mapped bytes, %zu mappings, last: %s\n", o_mode.c_str(), (unsigned long long)idx, (unsigned long long)hist_ops, peak_live, W.map_bytes, W.maps.size(), cur_op.c_str());
    (void)uniform; if (o_mode == "cycle") { peak_live = live.size(); peak_bytes = live_bytes; }
  }
  check_maps(true);
  if (o.num("expect-wx0", 0) && W.wxreq) viol("writable-executable", "%llu requests for writable and executable memory", (unsigned long long)W.wxreq);
  stat_line("operations", n_ops); stat_line("allocations", n_alloc); stat_line("frees", n_free); stat_line("preparations", n_prep); stat_line("re_preparations", n_reprep); stat_line("invocations", n_inv);
  stat_line("queries", n_query); stat_line("content_checks", n_check); stat_line("protection_scans", n_maps); stat_line("user_memory_closures", n_user); stat_line("impossible_sizes", n_refused); stat_line("max_live", max_live_seen);
  stat_line("library_requests", W.total); stat_line("library_munmaps", W.munmaps); stat_line("max_mapped_bytes", W.map_bytes); stat_line("wx_requests", W.wxreq);
  stat_line("unreported_other_kinds", n_otherkinds); write_ids(o.str("ids", ""), seen_states);
  printf("DONE\n"); return 0;
}
