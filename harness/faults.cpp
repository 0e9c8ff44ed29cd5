// Fault injection into every system resource the library asks for, and the
// search for executable memory.
//   --mode=inject|order|fs   --env=0..3 (standing refusals)
#define COMMON_IMPL
#define CLO_IMPL
#define WRAP_IMPL
#include "clo.h"
#include "wrap.h"
#include <algorithm>
#include <dirent.h>
#include <fcntl.h>
#include <sys/stat.h>
#include <sys/wait.h>
extern "C" void *ffi_data_to_code_pointer(void *) __attribute__((weak));
static Rng R; static u64 o_seed; static bool o_static; static int o_env; static std::string o_mode, plan_text, cur_op;
struct Shared { u64 cases, refused, refused_by[RC_NUM], allocs, nulls, invocations, recovered, requests, max_index, candidates, chosen[16], none, scenarios, ids_n, ids[1 << 16]; }; static Shared *S;
static void id_add(u64 h) { if (S->ids_n < (1 << 16)) S->ids[S->ids_n++] = h; }
static std::string ctx() { std::string l; size_t n = W.log.size(); for (size_t i = n > 14 ? n - 14 : 0; i < n; i++) l += "; " + W.log[i]; return plan_text + " | " + cur_op + " | last requests" + l; }

struct Clo { u8 *w; size_t size; u8 *code; int sig, hand, cifk; void *user; u64 pat; bool prepared; };
static std::vector<Clo> live;
static void prep(Clo &c) { c.sig = (int)R.below(CSIG); c.hand = (int)R.below(NHAND); c.cifk = (int)R.below(2); c.user = (void *)(uintptr_t)R.next(); ffi_status s; { LIB l; s = ffi_prep_closure_loc((ffi_closure *)c.w, &clo_cif[c.sig][c.cifk], clo_handlers[c.sig][c.hand], c.user, c.code); } if (s != FFI_OK) viol("status", "ffi_prep_closure_loc returned %d", s); c.prepared = true; }
static void invoke(Clo &c) { S->invocations++; std::string e; { LIB l; e = clo_invoke(c.code, c.sig, c.hand, c.user, &clo_cif[c.sig][c.cifk], R.next()); } if (!e.empty()) viol("misrouted", "closure %p code %p: %s", c.w, c.code, e.c_str()); for (size_t i = sizeof(ffi_closure); i < c.size; i += 16) if (c.w[i] != (u8)(c.pat + i)) viol("content", "closure object %p changed", c.w); }
static bool alloc1(bool must) {
  Clo c; memset(&c, 0, sizeof c); c.size = sizeof(ffi_closure) + (R.chance(80) ? 0 : R.below(9000)); void *code = 0; u64 f0 = W.failed; S->allocs++; cur_op = strf("alloc of %zu bytes with %zu live", c.size, live.size());
  { LIB l; c.w = (u8 *)ffi_closure_alloc(c.size, &code); }
  if (!c.w) { S->nulls++; if (must || W.failed == f0) viol("not-recovered", "allocation failed although %s", must ? "resources are available again" : "nothing was refused during it"); return false; }
  c.code = (u8 *)code; c.pat = R.next(); for (size_t i = sizeof(ffi_closure); i < c.size; i++) c.w[i] = (u8)(c.pat + i);
  for (Clo &d : live) if (d.code == c.code || (d.w < c.w + c.size && c.w < d.w + d.size)) viol("overlap", "allocation %p code %p overlaps live closure %p code %p", c.w, c.code, d.w, d.code);
  live.push_back(c); prep(live.back()); invoke(live.back());
  if (ffi_data_to_code_pointer) { void *q; { LIB l; q = ffi_data_to_code_pointer(c.w); } if (q != c.code) viol("data-to-code", "query for %p gives %p instead of %p", c.w, q, c.code); }
  return true;
}
static void free1(size_t i) { cur_op = "free"; invoke(live[i]); u8 *w = live[i].w; live[i] = live.back(); live.pop_back(); LIB l; ffi_closure_free(w); }
static void all_work() { cur_op = "existing closures"; for (Clo &c : live) invoke(c); }
static int open_fds() { DIR *d = opendir("/proc/self/fd"); int n = 0; while (readdir(d)) n++; closedir(d); return n; }
static void reserved() { if (W.unreserved) viol("unreserved-space", "closure memory was mapped from a part of the file without space behind it: %s", W.unreserved_text.c_str()); }
// ---- standing refusals ---------------------------------------------------------------
static bool env_refuse(RClass c, const char *p) {
  if (o_env == 1) return c == RC_MMAP_ANON_X;                                     // no writable and executable memory
  if (o_env == 2) return c == RC_FOPEN && p && strstr(p, "maps");                 // no process information
  if (o_env == 3) return c == RC_MMAP_ANON_X || c == RC_MEMFD || (c == RC_FOPEN && p && strstr(p, "maps"));
  return false;
}
// ---- fault plans -----------------------------------------------------------------------
static struct { int type; u64 k, m; u32 mask; unsigned pct; } P; static Rng FR;
static bool fault(RClass c, u64 i, const char *) {
  if (!(P.mask >> c & 1)) return false; bool f = false;
  switch (P.type) { case 0: f = i == P.k; break; case 1: f = i >= P.k; break; case 2: f = true; break; case 3: f = FR.chance(P.pct); break; case 4: f = i >= P.k && i < P.k + P.m; break; }
  if (f) { S->refused++; S->refused_by[c]++; if (i > S->max_index) S->max_index = i; }
  return f;
}
// the same refusal over and over: nothing may pile up
static void storm(u64 idx) {
  g_case = (long)idx; R.seed(o_seed, 33, idx * 8 + o_env); FR.seed(o_seed, 34, idx); W.logging = true;
  static const u32 masks[] = { 1u << RC_MMAP_FILE_X, 1u << RC_MALLOC, 1u << RC_MMAP_ANON, 1u << RC_MMAP_FILE_W, 1u << RC_WRITE, (1u << RC_MMAP_ANON_X) | (1u << RC_MMAP_FILE_X), 1u << RC_MMAP_ANON_X, ~0u };
  P.mask = masks[(idx / 5) % 8]; P.type = R.chance(80) ? 2 : 3; P.pct = (unsigned)(30 + R.below(65)); for (int i = 0; i < RC_NUM; i++) W.fail_errno[i] = 0;
  if (R.chance(30)) W.fail_errno[RC_MMAP_ANON_X] = R.chance(50) ? EACCES : EPERM; if (R.chance(20)) W.fail_errno[RC_MMAP_FILE_X] = EPERM;
  if (o_env == 1 || o_env == 3) W.fail_errno[RC_MMAP_ANON_X] = R.chance(50) ? EACCES : EPERM;
  size_t pre = R.chance(15) ? 0 : 1 + R.below(120); int n = 2500;
  plan_text = strf("env %d, %zu closures first, then %d attempts with mask=%x refused (type %d pct=%u)", o_env, pre, n, P.mask, P.type, P.pct);
  W.always_fail = env_refuse; for (size_t i = 0; i < pre; i++) alloc1(true);
  W.armed_index = 0; W.should_fail = fault; int nulls = 0; for (int i = 0; i < 300 && nulls < 8; i++) nulls = alloc1(false) ? 0 : nulls + 1;
  size_t m1 = 0, h1 = 0; int fd1 = 0; size_t base = live.size();
  for (int i = 0; i < n; i++) { if (i == 200) { m1 = W.map_bytes; h1 = W.heap_bytes; fd1 = open_fds(); } if (alloc1(false)) free1(live.size() - 1); if (i % 64 == 0 && W.log.size() > 64) W.log.erase(W.log.begin(), W.log.end() - 20); }
  cur_op = strf("after %d attempts with %zu closures held", n, base);
  if (W.map_bytes > m1 + 65536) viol("mappings-leak", "%zu mapped bytes, %zu after 200 attempts", W.map_bytes, m1);
  if (W.heap_bytes > h1 + 16384) viol("heap-leak", "%zu heap bytes, %zu after 200 attempts", W.heap_bytes, h1);
  if (open_fds() > fd1 + 1) viol("descriptors-leak", "%d descriptors, %d after 200 attempts", open_fds(), fd1);
  W.should_fail = 0; u64 f1 = W.failed; for (int i = 0; i < 120; i++) alloc1(true); if (f1) S->recovered++; all_work(); reserved();
  while (!live.empty()) free1(R.below(live.size())); cur_op = "all freed";
  if (W.foreign_unmaps) viol("foreign-unmap", "the library unmapped memory it does not own, %llu times", (unsigned long long)W.foreign_unmaps);
  id_add(fnv(&P, sizeof P) ^ pre * 977 ^ (u64)o_env << 56 ^ 1ull << 60); S->requests += W.total;
}
static void inject(u64 idx) {
  if (idx % 5 == 4) { storm(idx); return; }
  g_case = (long)idx; R.seed(o_seed, 31, idx * 8 + o_env); FR.seed(o_seed, 32, idx); W.logging = true;
  P.type = (int)R.below(5); P.k = R.below(R.chance(70) ? 14 : 60); P.m = 1 + R.below(12); P.pct = (unsigned)(5 + R.below(80)); P.mask = R.chance(50) ? ~0u : (u32)(R.next() & R.next()); if (R.chance(30)) P.mask = 1u << R.below(RC_NUM - 1); if (idx < 40) { P.type = (int)(idx & 1); P.k = idx / 2; P.mask = ~0u; }
  for (int i = 0; i < RC_NUM; i++) W.fail_errno[i] = 0;
  if (R.chance(30)) W.fail_errno[RC_MMAP_ANON_X] = R.chance(50) ? EACCES : EPERM; if (R.chance(30)) W.fail_errno[RC_OPEN] = R.chance(50) ? EACCES : ENFILE; if (R.chance(20)) W.fail_errno[RC_MMAP_FILE_X] = EPERM;
  if (o_env == 1 || o_env == 3) W.fail_errno[RC_MMAP_ANON_X] = R.chance(50) ? EACCES : EPERM;
  size_t pre = R.chance(40) ? 0 : R.below(230);
  plan_text = strf("env %d, %zu closures first, then plan type %d k=%llu m=%llu mask=%x pct=%u", o_env, pre, P.type, (unsigned long long)P.k, (unsigned long long)P.m, P.mask, P.pct);
  { u8 z[256]; memset(z, 0, sizeof z); }
  W.always_fail = env_refuse; int fd0 = open_fds();
  for (size_t i = 0; i < pre; i++) alloc1(true);
  // operations under the plan
  size_t m1 = 0, h1 = 0; int rounds = R.chance(25) ? 12 : 1; size_t peak = live.size(); int fd1 = 0;
  for (int r = 0; r < rounds; r++) {
    W.armed_index = 0; W.should_fail = fault; size_t base = live.size(); int n = (int)(rounds > 1 ? 40 + R.below(200) : 20 + R.below(300)); u64 f0 = W.failed;
    for (int k = 0; k < n; k++) { unsigned z = (unsigned)R.below(100); if (z < 70 || live.empty()) alloc1(false); else if (z < 85) free1(R.below(live.size())); else { cur_op = "invoke"; invoke(live[R.below(live.size())]); } if (live.size() > peak) peak = live.size(); }
    all_work(); W.should_fail = 0; u64 f1 = W.failed; reserved();
    // resources are back
    size_t extra = 1 + R.below(R.chance(30) ? 230 : 20); for (size_t i = 0; i < extra; i++) alloc1(true); if (live.size() > peak) peak = live.size();
    if (f1 > f0) S->recovered++; all_work(); reserved();
    if (rounds > 1) { while (live.size() > base) free1(live.size() - 1); if (r == 2) { m1 = W.map_bytes; h1 = W.heap_bytes; fd1 = open_fds(); }
      if (r == rounds - 1) { cur_op = strf("after %d rounds", rounds); if (W.map_bytes > m1 + peak * 512 + (4 << 20)) viol("mappings-leak", "%zu mapped bytes, %zu after the third round", W.map_bytes, m1); if (W.heap_bytes > h1 + (peak / 64 + 3) * 8192) viol("heap-leak", "%zu heap bytes, %zu after the third round", W.heap_bytes, h1); if (open_fds() > std::max(fd1, fd0 + 2)) viol("descriptors-leak", "%d descriptors, %d after the third round, %d at the start", open_fds(), fd1, fd0); } }
  }
  while (!live.empty()) free1(R.below(live.size())); cur_op = "all freed";
  size_t nx = 0; for (auto &m : W.maps) if ((m.second.second & (PROT_EXEC | PROT_WRITE)) == PROT_EXEC && o_static) nx += m.second.first;
  if (W.foreign_unmaps) viol("foreign-unmap", "the library unmapped memory it does not own, %llu times", (unsigned long long)W.foreign_unmaps);
  if (open_fds() > fd0 + 2) viol("descriptors-leak", "%d descriptors open, %d at the start", open_fds(), fd0);
  if (W.heap_bytes > 3 * 16384) viol("heap-leak", "%zu heap bytes held with no live closure", W.heap_bytes);
  id_add(fnv(&P, sizeof P) ^ pre * 977 ^ (u64)o_env << 56); S->requests += W.total;
  if (idx < 3 && S->scenarios < 6) { S->scenarios++; printf("SAMPLE %s: %llu requests refused, %llu allocations, %llu null\n", plan_text.c_str(), (unsigned long long)W.failed, (unsigned long long)S->allocs, (unsigned long long)S->nulls); }
}

// ---- the search order (C15) ------------------------------------------------------------
struct Cand { std::string name; std::string dir; bool present, tmpfile, space, exec; int attempts; bool via_name; };
static std::vector<Cand> cands; static std::vector<int> attempts; static std::string scratch; static std::map<int, int> fdcand; static std::string mtab, mounts;
static int cand_of(const std::string &p) {        // p: directory or template the library asked for
  std::string d = p; size_t s = d.rfind("/ffi"); if (s != std::string::npos && d.size() == s + 10) d = d.substr(0, s);
  for (size_t i = 0; i < cands.size(); i++) if (cands[i].name == d) return (int)i; return -1;
}
static bool order_refuse(RClass c, const char *p) {
  W.fail_errno[c] = 0;
  if (c == RC_MMAP_ANON_X) { W.fail_errno[c] = (g_case & 1) ? EACCES : EPERM; return true; }
  if (c == RC_FOPEN && p && strstr(p, "/proc/") && strstr(p, "maps")) { W.fail_errno[c] = ENOENT; return true; }
  if (c != RC_MEMFD && c != RC_OPEN && c != RC_MKTEMP && c != RC_WRITE && c != RC_MMAP_FILE_X) return false;
  int k = c == RC_MEMFD ? 0 : p ? cand_of(p) : -1; if (k < 0) return false; Cand &d = cands[k];
  if (c == RC_MEMFD || c == RC_OPEN || c == RC_MKTEMP) {
    if (c != RC_MKTEMP || !attempts.size() || attempts.back() != k) attempts.push_back(k); d.attempts++;
    if (!d.present) { W.fail_errno[c] = c == RC_MEMFD ? ENOSYS : (k & 1) ? ENOENT : EACCES; return true; }
    if (c == RC_OPEN && !d.tmpfile) { W.fail_errno[c] = (g_case & 2) ? EOPNOTSUPP : (g_case & 4) ? EISDIR : EINVAL; return true; }
    return false;
  }
  if (c == RC_WRITE && !d.space) { W.fail_errno[c] = ENOSPC; return true; }
  if (c == RC_MMAP_FILE_X && !d.exec) { W.fail_errno[c] = (g_case & 8) ? EPERM : EACCES; return true; }
  return false;
}
static std::string order_redirect(RClass c, const char *p) {
  if (c == RC_FOPEN) { if (!strcmp(p, "/etc/mtab")) return mtab; if (!strcmp(p, "/proc/mounts")) return mounts; return p; }
  int k = cand_of(p); if (k < 0) return p; std::string s = p; return cands[k].dir + s.substr(cands[k].name.size());
}
static void mkd(const std::string &d) { mkdir(d.c_str(), 0700); }
static int files_in(const std::string &d) { DIR *q = opendir(d.c_str()); if (!q) return 0; int n = 0; struct dirent *e; while ((e = readdir(q))) if (e->d_name[0] != '.') n++; closedir(q); return n; }
static void order(u64 idx) {
  g_case = (long)idx; R.seed(o_seed, 41, idx); W.logging = true; scratch = strf("%s/c%llu", o_mode.c_str() + 5, (unsigned long long)idx); mkd(scratch);
  // the documented list
  auto add = [&](const std::string &name) { Cand c; c.name = name; c.dir = scratch + "/d" + std::to_string(cands.size()); mkd(c.dir); c.present = R.chance(45); c.tmpfile = R.chance(60); c.space = R.chance(75); c.exec = R.chance(60); c.attempts = 0; cands.push_back(c); };
  add("memfd"); cands[0].present = R.chance(25); bool hard = R.chance(40);
  const char *envs[] = { "LIBFFI_TMPDIR", "TMPDIR", "HOME" }; std::vector<std::string> order_names; std::string envtext; std::vector<std::string> envdir(3);
  for (int i = 0; i < 3; i++) { unsigned z = (unsigned)R.below(10); if (z < 3) { unsetenv(envs[i]); envtext += strf(" no-%s", envs[i]); } else if (z == 3) { setenv(envs[i], "", 1); envtext += strf(" empty-%s", envs[i]); } else { unsigned long long u = R.below(9); static const char *const form[] = { "%s/%s dir%llu", "%s/%s dir%llu", "%s/%s dir%llu", "%s/%s dir%llu/", "%.0sffimon %s rel/%llu", "%.0s./%s%llu", "%.0s../%s%llu/", "%.0s~%s%llu" };
    envdir[i] = strf(form[R.below(8)], scratch.c_str(), envs[i], u); if (R.chance(5)) envdir[i] = scratch + "/" + std::string(R.below(3900), 'n') + envs[i]; if (R.chance(3) && i != 1) envdir[i] = i ? "." : ".."; if (R.chance(10) && i && !envdir[0].empty()) envdir[i] = envdir[0]; setenv(envs[i], envdir[i].c_str(), 1); } }
  auto add_dir = [&](const std::string &n) { if (n.empty()) return; for (auto &c : cands) if (c.name == n) return; add(n); };
  add_dir(envdir[0]); add_dir(envdir[1]); add_dir("/tmp"); add_dir("/var/tmp"); add_dir("/dev/shm"); add_dir(envdir[2]);
  // two mount tables
  mtab = scratch + "/mtab"; mounts = scratch + "/mounts"; std::vector<std::string> exp_mounts[2];
  for (int t = 0; t < 2; t++) { FILE *f = fopen((t ? mounts : mtab).c_str(), "w"); int n = (int)R.below(6);
    for (int i = 0; i < n; i++) { std::string md = strf("/mnt%d.%d", t, i); bool ro = R.chance(20), nx = R.chance(20), wr = R.chance(80); if (R.chance(15) && i) md = strf("/mnt%d.%d", t, i - 1); 
      bool dup = false; for (auto &c : cands) dup |= c.name == md; if (!dup) { add(md); if (!wr) { rmdir(cands.back().dir.c_str()); } } Cand &c = cands[cand_of(md)]; bool usable = !ro && !nx && access(c.dir.c_str(), W_OK) == 0;
      fprintf(f, "dev%d %s ext4 %s%s,relatime 0 0\n", i, md.c_str(), ro ? "ro" : "rw", nx ? ",noexec" : ""); if (usable) exp_mounts[t].push_back(md); }
    fclose(f); }
  if (hard) for (auto &c : cands) if (R.chance(70)) c.present = false;
  // what the documented rule selects
  std::vector<int> list; list.push_back(0); for (int i = 0; i < 2; i++) if (!envdir[i].empty()) list.push_back(cand_of(envdir[i])); list.push_back(cand_of("/tmp")); list.push_back(cand_of("/var/tmp")); list.push_back(cand_of("/dev/shm")); if (!envdir[2].empty()) list.push_back(cand_of(envdir[2])); for (int t = 0; t < 2; t++) for (auto &m : exp_mounts[t]) list.push_back(cand_of(m));
  auto works = [&](int k) { return cands[k].present && cands[k].space && cands[k].exec; };
  int want = -1; size_t wpos = 0; for (size_t i = 0; i < list.size(); i++) if (works(list[i])) { want = list[i]; wpos = i; break; }
  // static trampolines take their file from the first candidate that can be created, and give way to the search if it does not work
  bool st_used = false; if (o_static) for (int k : list) if (cands[k].present) { st_used = works(k); if (st_used) want = k; break; }
  plan_text = "candidates:"; for (int k : list) plan_text += strf(" %s[%s%s%s%s]", cands[k].name.c_str() + (cands[k].name.compare(0, scratch.size(), scratch) ? 0 : scratch.size()), cands[k].present ? "" : "absent ", cands[k].tmpfile ? "" : "named ", cands[k].space ? "" : "full ", cands[k].exec ? "" : "noexec"); plan_text += ";" + envtext;
  W.always_fail = order_refuse; W.redirect = order_redirect; int fd0 = open_fds();
  size_t n = 1 + R.below(R.chance(30) ? 300 : 40); int nulls = 0;
  for (size_t i = 0; i < n; i++) {
    size_t before = live.size(); void *code = 0; u8 *w; cur_op = strf("allocation %zu", i); size_t a0 = attempts.size(); Clo c; memset(&c, 0, sizeof c); c.size = sizeof(ffi_closure) + (R.chance(90) ? 0 : R.below(20000));
    { LIB l; w = (u8 *)ffi_closure_alloc(c.size, &code); } S->allocs++;
    if (!w) { S->nulls++; if (want >= 0) viol("candidate-missed", "allocation failed although candidate %s works", cands[want].name.c_str()); if (++nulls > 3) break; attempts.clear(); continue; }
    if (want < 0) viol("candidate-order", "allocation succeeded although no candidate works");
    c.w = w; c.code = (u8 *)code; c.pat = R.next(); for (size_t j = sizeof(ffi_closure); j < c.size; j++) c.w[j] = (u8)(c.pat + j); live.push_back(c); prep(live.back()); invoke(live.back()); (void)before;
    // the writable and the executable view
    uintptr_t mw = 0, mx = 0; int fdw = -1, fdx = -1; for (auto &m : W.fmaps) { if (!m.x && m.a <= (uintptr_t)w && (uintptr_t)w < m.a + m.n) { mw = m.a; fdw = m.fd; } if (m.x && m.a <= (uintptr_t)code && (uintptr_t)code < m.a + m.n) { mx = m.a; fdx = m.fd; } }
    if (st_used) { if (mw || !mx || W.maps.empty()) viol("dual-mapping", "closure %p code %p: static trampolines expected", w, code); std::string used = W.fdpath.count(fdx) ? W.fdpath[fdx] : "?"; int k = used == "memfd" ? 0 : cand_of(used); if (k != want) viol("candidate-order", "trampolines come from %s, the first candidate is %s", used.c_str(), cands[want].name.c_str()); continue; }
    if (!mw || !mx || fdw != fdx) viol("dual-mapping", "closure %p code %p is not in a writable and an executable mapping of one file", w, code);
    std::string used = W.fdpath.count(fdw) ? W.fdpath[fdw] : "?"; int k = used == "memfd" ? 0 : cand_of(used);
    if (k != want) viol("candidate-order", "memory comes from %s, the first workable candidate is %s", used.c_str(), cands[want].name.c_str());
    if (memcmp(w, code, sizeof(ffi_closure))) viol("dual-mapping", "the two views of closure %p differ", w);
    (void)a0;
  }
  // attempts follow the documented order (a prefix of the list up to the chosen candidate)
  { size_t pos = 0; for (int k : attempts) { if (k == 0) pos = 0; while (pos < list.size() && list[pos] != k) pos++; if (pos == list.size()) { std::string t; for (int j : attempts) t += " " + cands[j].name; viol("candidate-order", "candidates were tried in the order%s", t.c_str()); } } if (want >= 0 && !st_used && !nulls && pos > wpos) viol("candidate-order", "candidates behind the first workable one were tried"); }
  for (auto &c : cands) if (int nf = files_in(c.dir)) viol("name-left", "%d temporary file names left in %s", nf, c.name.c_str());
  int keep = (want >= 0 ? 1 : 0) + st_used; if (open_fds() > fd0 + keep) viol("descriptors-leak", "%d descriptors kept after the search, %d expected", open_fds() - fd0, keep);
  for (int fd : W.fds) if (!(fcntl(fd, F_GETFD) & FD_CLOEXEC)) viol("descriptor-inherited", "descriptor of %s is inherited", W.fdpath[fd].c_str());
  reserved(); if (W.wx) viol("writable-executable", "memory writable and executable was obtained");
  all_work(); while (!live.empty()) free1(R.below(live.size()));
  S->candidates += attempts.size(); if (want >= 0) S->chosen[wpos < 15 ? wpos : 15]++; else S->none++; id_add(fnv(plan_text));
  if (idx < 4) printf("SAMPLE %s -> %s\n", plan_text.c_str(), want < 0 ? "(none)" : cands[want].name.c_str() + (cands[want].name.compare(0, scratch.size(), scratch) ? 0 : scratch.size()));
}
static void rm_tree(const std::string &d) { DIR *q = opendir(d.c_str()); if (!q) return; struct dirent *e; std::vector<std::string> v; while ((e = readdir(q))) if (strcmp(e->d_name, ".") && strcmp(e->d_name, "..")) v.push_back(d + "/" + e->d_name); closedir(q); for (auto &s : v) if (unlink(s.c_str())) { rm_tree(s); } rmdir(d.c_str()); }

// ---- the file the library came from (C24) ------------------------------------------------
static const char *const fs_action[] = { "nothing", "unlink", "replaced by zeros", "replaced by garbage of the same size", "replaced by a shorter file", "replaced by another build", "renamed", "renamed, other file under the old name", "replaced by a directory", "replaced by a dangling link", "unlinked, other file named '<path> (deleted)'", "replaced by a shifted copy", "replaced by an identical copy", "replaced by an unreadable file", "other file at the path's prefix before the first space", "replaced by a copy with the trampolines of another size" };
enum { NFS = sizeof fs_action / sizeof *fs_action };
static std::string slurp(const std::string &p) { std::string r; FILE *f = fopen(p.c_str(), "rb"); if (!f) return r; char b[65536]; size_t n; while ((n = fread(b, 1, sizeof b, f))) r.append(b, n); fclose(f); return r; }
static void spit(const std::string &p, const std::string &d) { std::string t = p + ".new"; FILE *f = fopen(t.c_str(), "wb"); if (!f) { perror(t.c_str()); exit(2); } fwrite(d.data(), 1, d.size(), f); fclose(f); chmod(t.c_str(), 0755); if (rename(t.c_str(), p.c_str())) { perror("rename"); exit(2); } }
static int fs_refuse_mask;
static bool fs_refuse(RClass c, const char *p) {
  if ((fs_refuse_mask & 1) && c == RC_FOPEN) return true; if ((fs_refuse_mask & 2) && c == RC_OPEN) { W.fail_errno[c] = EMFILE; return true; }
  if ((fs_refuse_mask & 4) && (c == RC_MEMFD || c == RC_MKTEMP)) { W.fail_errno[c] = ENOSYS; return true; } if ((fs_refuse_mask & 8) && c == RC_MMAP_ANON_X) return true; return false;
}
static int fs_child(Opts &o) {
  int act = (int)o.num("action", 0); std::string self = o.str("self", ""), other = o.str("other", ""); fs_refuse_mask = (int)o.num("refuse", 0); u64 idx = (u64)o.num("from", 0); g_case = (long)idx; R.seed(o_seed, 51, idx);
  plan_text = strf("library file %s, requests refused %d, path '%s'", fs_action[act], fs_refuse_mask, self.c_str() + self.rfind('/')); clo_init(); W.logging = true;
  std::string img = slurp(self), dir = self.substr(0, self.rfind('/')), o_img = other.empty() ? std::string(5000, 'q') : slurp(other), z = img; Rng G; G.seed(idx);
  switch (act) {
  case 1: unlink(self.c_str()); break;
  case 2: spit(self, std::string(img.size(), 0)); break;
  case 3: G.fill(&z[0], z.size()); spit(self, z); break;
  case 4: spit(self, img.substr(0, 3000)); break;
  case 5: spit(self, o_img); break;
  case 6: rename(self.c_str(), (self + ".moved").c_str()); break;
  case 7: rename(self.c_str(), (self + ".moved").c_str()); spit(self, o_img + std::string(img.size(), 'x')); break;
  case 8: unlink(self.c_str()); mkdir(self.c_str(), 0755); break;
  case 9: unlink(self.c_str()); if (symlink("/nonexistent/x", self.c_str())) {} break;
  case 10: unlink(self.c_str()); spit(self + " (deleted)", std::string(img.size(), 0x90)); break;
  case 11: spit(self, std::string(4096, 0) + img); break;
  case 12: spit(self, img); break;
  case 13: G.fill(&z[0], z.size()); spit(self, z); chmod(self.c_str(), 0); break;
  case 14: { size_t s = self.find(' '); if (s != std::string::npos && s > dir.size() + 1) spit(self.substr(0, s), std::string(img.size(), 0)); unlink(self.c_str()); break; }
  case 15: { for (size_t i = 0; i + 4096 <= z.size(); i += 4096) std::rotate(z.begin() + i, z.begin() + i + 8 * (1 + G.below(5)), z.begin() + i + 4096); spit(self, z); break; }
  }
  W.always_fail = fs_refuse; u64 nulls = 0; size_t n = 1 + R.below(250);
  for (size_t i = 0; i < n; i++) {
    Clo c; memset(&c, 0, sizeof c); c.size = sizeof(ffi_closure); void *code = 0; cur_op = strf("allocation %zu", i); { LIB l; c.w = (u8 *)ffi_closure_alloc(c.size, &code); } S->allocs++;
    if (!c.w) { if (!(fs_refuse_mask & 8)) viol("not-available", "allocation failed although memory can be had otherwise"); if (++nulls > 5) break; continue; }
    c.code = (u8 *)code; live.push_back(c); cur_op += " use"; phase("closure obtained"); prep(live.back()); invoke(live.back());
  }
  all_work(); while (!live.empty()) free1(R.below(live.size())); S->nulls += nulls;
  return 0;
}
static int run_child(void (*f)(u64), u64 idx) {
  fflush(stdout); pid_t p = fork(); if (!p) { clo_init(); f(idx); fflush(stdout); _exit(0); }
  int st; waitpid(p, &st, 0); S->cases++; if (WIFSIGNALED(st)) { g_case = (long)idx; viol("crash", "child killed by signal %d", WTERMSIG(st)); } return WEXITSTATUS(st);
}

int main(int argc, char **argv) {
  Opts o(argc, argv); setvbuf(stdout, 0, _IOLBF, 0); set_kinds(o.str("kinds", "")); install_crash_handlers(); viol_context = ctx;
  o_seed = (u64)o.num("seed", 1); o_static = o.num("static", 1); o_env = (int)o.num("env", 0); std::string mode = o.str("mode", "inject"); u64 from = (u64)o.num("from", 0), n = (u64)o.num("cases", 50), step = (u64)o.num("step", 1);
  S = (Shared *)mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  if (mode == "fschild") { int r = fs_child(o); printf("STAT invocations %llu\nSTAT allocations %llu\nSTAT null_results %llu\n", (unsigned long long)S->invocations, (unsigned long long)S->allocs, (unsigned long long)S->nulls); fflush(stdout); return r; }
  char tmpl[] = "/tmp/ffimonXXXXXX"; std::string top;
  if (mode != "inject") { top = mkdtemp(tmpl); o_mode = "order" + top; }
  int bad = 0;
  for (u64 i = 0; i < n && !bad; i++) {
    u64 idx = from + i * step;
    if (mode == "inject") bad = run_child(inject, idx);
    else if (mode == "order") { bad = run_child(order, idx); rm_tree(strf("%s/c%llu", top.c_str(), (unsigned long long)idx)); }
    else {
      Rng Q; Q.seed(o_seed, 52, idx); int act = (int)(idx % NFS), mask = Q.chance(40) ? 0 : (int)Q.below(16); const char *names[] = { "prog", "a b", "two  spaces here", "x (deleted)", "tab\there", " lead", "trail ", "dir with/space prog", "r-xp 00000000" }; std::string nm = names[Q.below(9)];
      std::string d = strf("%s/c%llu", top.c_str(), (unsigned long long)idx); mkd(d); size_t sl = nm.find('/'); if (sl != std::string::npos) mkd(d + "/" + nm.substr(0, sl)); std::string self = d + "/" + nm, so = o.str("so", ""), prog = self; spit(self, slurp(so.empty() ? "/proc/self/exe" : so));
      // the library is a shared one: the program stays as it is, a link leads the dynamic linker to the library under its odd name
      if (!so.empty()) { prog = "/proc/self/exe"; if (symlink(self.c_str(), (d + so.substr(so.rfind('/'))).c_str())) {} setenv("LD_LIBRARY_PATH", d.c_str(), 1); }
      std::vector<std::string> a = { prog, "--mode=fschild", strf("--action=%d", act), "--self=" + self, strf("--refuse=%d", mask), strf("--from=%llu", (unsigned long long)idx), strf("--seed=%llu", (unsigned long long)o_seed), "--static=" + o.str("static", "1"), "--other=" + o.str("other", ""), "--kinds=" + o.str("kinds", "") };
      std::vector<char *> av; for (auto &s : a) av.push_back(&s[0]); av.push_back(0); fflush(stdout);
      pid_t p = fork(); if (!p) { execv(prog.c_str(), av.data()); perror("execv"); _exit(2); } int st; waitpid(p, &st, 0); S->cases++; g_case = (long)idx; if (WIFSIGNALED(st)) { plan_text = fs_action[act]; viol("crash", "child killed by signal %d", WTERMSIG(st)); } bad = WEXITSTATUS(st);
      if (i < 5) printf("SAMPLE file %s, refused requests mask %d, name '%s': exit %d\n", fs_action[act], mask, nm.c_str(), bad); id_add(fnv(nm) ^ (u64)act * 1000 ^ (u64)mask * 77777); rm_tree(d);
    }
  }
  if (!top.empty()) rm_tree(top);
  if (bad) return bad;
  stat_line("cases", S->cases); if (mode != "fs") { stat_line("allocations", S->allocs); stat_line("null_results", S->nulls); stat_line("invocations", S->invocations); }
  if (mode == "inject") { stat_line("refused_requests", S->refused); for (int i = 0; i < RC_NUM; i++) if (S->refused_by[i]) stat_line((std::string("refused_") + rc_name[i]).c_str(), S->refused_by[i]); stat_line("recoveries", S->recovered); stat_line("max_refused_index", S->max_index); }
  if (mode == "order") { stat_line("candidates_tried", S->candidates); stat_line("no_candidate_works", S->none); for (int i = 0; i < 16; i++) if (S->chosen[i]) stat_line(strf("chosen_position_%d", i).c_str(), S->chosen[i]); }
  stat_line("unreported_other_kinds", n_otherkinds); std::unordered_set<u64> ids(S->ids, S->ids + S->ids_n); write_ids(o.str("ids", ""), ids); printf("DONE\n"); return 0;
}
