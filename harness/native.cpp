// Natively compiled functions (gcc and clang) from random signatures as callee,
// caller and layout oracle for ffi_call, closures and type descriptors.
//   --table=K (of the linked tables) --abi=unix64|win64|gnuw64 --trials --seed --from --step --cases
#define COMMON_IMPL
#include "model.h"
extern "C" {
#include "nat.h"
}
#include "nat_tables.h"     // generated: struct nat_tab { const char *name; const nat_sig *t; int n; bool ms, var, layout, clang; } nat_tabs[]
static const size_t MAXA = 512, CAP = 16384;
unsigned char *nat_in[MAXA]; unsigned char *nat_out; long nat_count;
extern "C" void nat_trash(void *p, size_t n) { memset(p, 0xa7, n); }
static Rng R; static Arena meta(8 << 20); static TypePool pool;
static const nat_sig *cur; static const char *curtab = ""; static std::string op;
static std::string ctx() { return strf("%s table=%s sig=%.800s nfixed=%d", op.c_str(), curtab, cur ? cur->enc : "", cur ? cur->nfixed : 0); }
static u64 n_over, n_calls, n_clo, n_lay, n_status, n_args, n_skip; static std::unordered_set<u64> ids;

static const std::map<char, K> code = { {'v',K_VOID},{'a',K_U8},{'b',K_S8},{'c',K_U16},{'d',K_S16},{'e',K_U32},{'f',K_S32},{'g',K_U64},{'h',K_S64},{'p',K_PTR},{'F',K_F32},{'D',K_F64},{'L',K_LD},
  {'X',K_CF32},{'Y',K_CF64},{'Z',K_CLD},{'q',K_CI8},{'r',K_CI16},{'s',K_CI32},{'t',K_CI64} };
struct LayRef { Ty *t; const size_t *v; size_t off0; };       // C layout of a struct type: size, alignment, offsets
static std::vector<LayRef> lays;
static Ty *parse(const char *&p, const size_t *&l) {
  if (*p != '{') return &pool.scal[code.at(*p++)];
  p++; std::vector<Ty *> el;
  while (*p != '}') { Ty *m = parse(p, l); long k = 1; if (*p == '*') { char *e; k = strtol(p + 1, &e, 10); p = e; if (*p != ';') { fprintf(stderr, "bad encoding\n"); exit(2); } p++; } while (k--) el.push_back(m); }
  p++; Ty *t = pool.mk(el); if (*p == '@') { char *e; size_t al = strtoul(p + 1, &e, 10); p = e + 1; t->over = true; t->size = (t->size + al - 1) / al * al; t->align = al; n_over++; } lays.push_back({ t, l, 0 }); l += 2 + el.size();
  // the monitor's own model must agree with the compiler, or its verdicts would be worthless
  const size_t *v = lays.back().v; bool ok = v[0] == t->size && v[1] == t->align; for (size_t i = 0; i < el.size(); i++) ok &= v[2 + i] == t->off[i];
  if (!ok) { fprintf(stderr, "layout model disagrees with the C compiler: %s\n", cur->enc); exit(2); }
  return t;
}
static bool eq(const Ty *t, const u8 *a, const u8 *b) { for (const Leaf &l : t->leaves) if (memcmp(a + l.off, b + l.off, l.n)) return false; return true; }
static const u64 edge[] = { 0, 1, 0x7f, 0x80, 0xff, 0x7fff, 0x8000, 0xffff, 0x7fffffff, 0x80000000u, 0xffffffffu, 0x7fffffffffffffffull, 0x8000000000000000ull, ~0ull };
static void fillval(const Ty *t, u8 *p) { R.fill(p, t->size); if (t->isint() && R.chance(40)) memcpy(p, &edge[R.below(14)], t->size); }
static void widen(const Ty *t, u8 *p) { // integral results are widened to ffi_arg
  u64 v = 0; memcpy(&v, p, t->size); if (t->issigned() && t->size < 8) { int s = 64 - 8 * t->size; v = (u64)((s64)(v << s) >> s); } memcpy(p, &v, 8);
}
static void check_layouts(ffi_abi abi) {
  for (LayRef &r : lays) {
    ffi_type *f = r.t->f; n_lay++;
    if (f->size != r.v[0] || f->alignment != r.v[1]) viol("layout", "%s: libffi size %zu alignment %u, C size %zu alignment %zu", r.t->str().c_str(), f->size, f->alignment, r.v[0], r.v[1]);
    if (!r.t->over && R.chance(50)) {     // (the query would lay out an emulated union anew)
      std::vector<size_t> o(r.t->el.size() + 1, 0x5a5a5a5a); ffi_status s = ffi_get_struct_offsets(abi, f, o.data());
      if (s != FFI_OK) viol("status", "struct offset query gives %d", s);
      for (size_t i = 0; i < r.t->el.size(); i++) if (o[i] != r.v[2 + i]) viol("layout", "%s: offset of member %zu is %zu, C says %zu", r.t->str().c_str(), i, o[i], r.v[2 + i]);
      if (o.back() != 0x5a5a5a5a) viol("layout", "offset query wrote behind the array");
      if (f->size != r.v[0] || f->alignment != r.v[1]) viol("layout", "%s: recomputing changed the layout", r.t->str().c_str());
    }
  }
}
struct Cx { Ty *ret; std::vector<Ty *> args; std::vector<u8 *> v; u8 *retv; ffi_cif *cif; int handled; bool trash; } C;
static void handler(ffi_cif *cif, void *ret, void **av, void *user) {
  C.handled++;
  if (cif != C.cif) viol("closure-cif", "handler got cif %p", cif);
  if (user != &C) viol("closure-userdata", "handler got user data %p", user);
  for (size_t i = 0; i < C.args.size(); i++) { if ((uintptr_t)av[i] % C.args[i]->align) viol("closure-argument", "argument %zu storage misaligned", i); if (!eq(C.args[i], (u8 *)av[i], C.v[i])) viol("closure-argument", "argument %zu (%s): handler sees %s, caller passed %s", i, C.args[i]->str().c_str(), hex(av[i], std::min<size_t>(C.args[i]->size, 48)).c_str(), hex(C.v[i], std::min<size_t>(C.args[i]->size, 48)).c_str()); }
  if (C.trash) for (size_t i = 0; i < C.args.size(); i++) memset(av[i], 0xc3, C.args[i]->size);
  if (C.ret->k == K_VOID) return;
  u8 b[CAP]; memcpy(b, C.retv, C.ret->size); size_t n = C.ret->size; if (C.ret->isint() && n < 8) { widen(C.ret, b); n = 8; } memcpy(ret, b, n);
}
static u8 *guarded[MAXA]; static u8 *block(size_t i) { return guarded[i]; }

static void one(const nat_tab &tab, int k, ffi_abi abi, int trials) {
  pool.reset(); meta.reset(); lays.clear(); for (int i = 0; i < K_STRUCT; i++) pool.scal[i].f = builtin_ffi((K)i);
  cur = &tab.t[k]; curtab = tab.name; ids.insert(fnv(std::string(cur->enc) + tab.name + std::to_string(abi))); op = "preparing";
  const char *p = cur->enc; const size_t *l = cur->lay; std::vector<Ty *> all; while (*p) all.push_back(parse(p, l));
  if (tab.layout) {
    // three ways to the same layout: return type, argument type, offset query; then all nested ones
    ffi_type *f = pool.emit(all[0], meta); int how = (int)R.below(3); ffi_cif cif; ffi_status s; ffi_type *a[1] = { f };
    if (how == 0) s = ffi_prep_cif(&cif, abi, 0, f, 0); else if (how == 1) s = ffi_prep_cif(&cif, abi, 1, &ffi_type_void, a); else { std::vector<size_t> o(all[0]->el.size()); s = ffi_get_struct_offsets(abi, f, o.data()); }
    if (s != FFI_OK) viol("status", "valid structure rejected with %d", s);
    check_layouts(abi); check_layouts(abi); return;
  }
  C.ret = all[0]; C.args.assign(all.begin() + 1, all.end()); size_t n = C.args.size();
  if (abi == FFI_WIN64) for (Ty *t : all) if (t->str().find("ld") != std::string::npos) return;   // long double is a different type under this ABI value
  // clang's ms_abi on this platform has its own ways with long double; gcc's va_arg does not follow references there
  if (tab.ms && tab.clang) for (Ty *t : all) if (t->k == K_LD || t->k == K_CLD) { n_skip++; return; }
  if (tab.ms && tab.var && !tab.clang) for (size_t i = cur->nfixed; i < n; i++) if (!ms_by_value(C.args[i])) { n_skip++; return; }
  for (Ty *t : all) if (t->k == K_STRUCT) t->preset = R.chance(10);
  C.cif = (ffi_cif *)meta.get(sizeof(ffi_cif)); ffi_type **at = (ffi_type **)meta.get(sizeof(ffi_type *) * (n + 1)); for (size_t i = 0; i < n; i++) at[i] = pool.emit(C.args[i], meta);
  ffi_type *rt = pool.emit(C.ret, meta); ffi_status s; n_status++;
  if (cur->nfixed >= 0) s = ffi_prep_cif_var(C.cif, abi, cur->nfixed, (unsigned)n, rt, at); else s = ffi_prep_cif(C.cif, abi, (unsigned)n, rt, at);
  if (s != FFI_OK) viol("status", "valid signature rejected with %d", s);
  check_layouts(abi);
  void *codep; ffi_closure *clo = (ffi_closure *)ffi_closure_alloc(sizeof(ffi_closure), &codep); if (!clo) viol("closure-alloc", "no closure");
  if (!tab.var && ffi_prep_closure_loc(clo, C.cif, handler, &C, codep) != FFI_OK) viol("status", "valid closure rejected");
  u8 *ri = block(MAXA - 1), *ro = block(MAXA - 2); C.v.clear(); for (size_t i = 0; i < n; i++) C.v.push_back(block(i)); C.retv = ro; nat_out = ro;
  static void *av[MAXA]; for (size_t i = 0; i < n; i++) av[i] = C.v[i];
  for (int q = 0; q < trials; q++) {
    for (size_t i = 0; i < n; i++) { fillval(C.args[i], C.v[i]); memset(nat_in[i], 0xee, C.args[i]->size); }
    fillval(C.ret, ro); size_t rs = C.ret->k == K_VOID ? 0 : C.ret->isint() && C.ret->size < 8 ? 8 : C.ret->size; bool nul = R.chance(8);
    u8 want[CAP]; memcpy(want, ro, C.ret->size); if (C.ret->isint()) widen(C.ret, want);
    memset(ri, 0x5c, rs + 64); op = "ffi_call to native callee"; nat_count = 0; n_calls++; n_args += n;
    ffi_call(C.cif, FFI_FN(cur->callee), nul ? 0 : ri, n ? av : 0);
    if (nat_count != 1) viol("callee-count", "callee entered %ld times", nat_count);
    for (size_t i = 0; i < n; i++) if (!eq(C.args[i], nat_in[i], C.v[i])) viol(tab.var ? "variadic-argument" : "argument", "argument %zu (%s): callee got %s, passed %s", i, C.args[i]->str().c_str(), hex(nat_in[i], std::min<size_t>(C.args[i]->size, 48)).c_str(), hex(C.v[i], std::min<size_t>(C.args[i]->size, 48)).c_str());
    for (size_t i = 0; i < n; i++) if (av[i] != C.v[i]) viol("argument", "argument array modified");
    if (!nul) { bool ok = C.ret->isint() ? !memcmp(ri, want, rs) : eq(C.ret, ri, want); if (!ok && C.ret->k != K_VOID) viol("result", "%s: got %s want %s", C.ret->str().c_str(), hex(ri, std::min<size_t>(rs, 64)).c_str(), hex(want, std::min<size_t>(rs, 64)).c_str()); for (size_t i = rs; i < rs + 64; i++) if (ri[i] != 0x5c) viol("result-extent", "byte %zu behind the result written", i - rs); }
    if (tab.var) continue;
    op = "native caller to closure"; n_clo++; C.handled = 0; C.trash = R.chance(50); memset(ri, 0x5c, C.ret->size + 64);
    cur->caller(codep, av, ri);
    if (C.handled != 1) viol("closure-count", "handler entered %d times", C.handled);
    if (C.ret->k != K_VOID && !eq(C.ret, ri, ro)) viol("closure-result", "%s: caller got %s, handler stored %s", C.ret->str().c_str(), hex(ri, std::min<size_t>(C.ret->size, 64)).c_str(), hex(ro, std::min<size_t>(C.ret->size, 64)).c_str());
  }
  ffi_closure_free(clo);
}

// ---- preparation rules for variable arguments --------------------------------
static void status_case(u64 idx, const ffi_abi *abis, int nabi) {
  R.seed(7700, idx); pool.reset(); meta.reset(); for (int i = 0; i < K_STRUCT; i++) pool.scal[i].f = builtin_ffi((K)i); cur = 0; op = "variadic preparation rules";
  GenCfg g; size_t n = R.chance(10) ? 1 + R.below(300) : 1 + R.below(12), nf = 1 + R.below(n); std::vector<ffi_type *> at(n + 1); std::string s; bool bad = false; bool allow = R.chance(50);
  for (size_t i = 0; i < n; i++) { Ty *t = gen_type(R, pool, g, 20); if (i >= nf) { bool forb = t->k == K_F32 || (t->isint() && t->size < 4); if (forb && allow && !R.chance(3)) { t = &pool.scal[K_F64]; forb = false; } bad |= forb; } at[i] = pool.emit(t, meta); if (s.size() < 600) s += (i == nf ? " ...," : ",") + t->str(); }
  Ty *r = gen_type(R, pool, g, 20); ffi_cif cif; memset(&cif, 0x77, sizeof cif); ffi_abi abi = abis[R.below(nabi)];
  ffi_status st = ffi_prep_cif_var(&cif, abi, (unsigned)nf, (unsigned)n, pool.emit(r, meta), at.data()); n_status++; ids.insert(fnv(s + std::to_string(nf)));
  if (st != (bad ? FFI_BAD_ARGTYPE : FFI_OK)) viol("variadic-status", "status %d, expected %d for abi %d fixed %zu: %s", st, bad ? FFI_BAD_ARGTYPE : FFI_OK, abi, nf, s.c_str());
}
int main(int argc, char **argv) {
  Opts o(argc, argv); setvbuf(stdout, 0, _IOLBF, 0); set_kinds(o.str("kinds", "")); install_crash_handlers(); viol_context = ctx;
  std::string abi = o.str("abi", "unix64"); ffi_abi a = abi == "unix64" ? FFI_UNIX64 : abi == "win64" ? FFI_WIN64 : FFI_GNUW64; u64 seed = o.num("seed", 1); long from = o.num("from", 0), step = o.num("step", 1), cases = o.num("cases", 100); int trials = (int)o.num("trials", 4);
  for (size_t i = 0; i < MAXA; i++) { guarded[i] = (u8 *)aligned_alloc(64, CAP); nat_in[i] = (u8 *)aligned_alloc(64, CAP); }
  if (o.num("status", 0)) { static const ffi_abi abis[] = { FFI_UNIX64, FFI_WIN64, FFI_GNUW64 }; for (long i = 0; i < cases; i++) { g_case = from + i * step; status_case(Rng::mix(seed) + g_case, abis, 3); } }
  else { std::vector<std::pair<int, int>> all; std::string want = o.str("tables", ""); for (size_t t = 0; t < sizeof nat_tabs / sizeof *nat_tabs; t++) if (want.empty() || want == nat_tabs[t].name || (want.size() < strlen(nat_tabs[t].name) && !strncmp(nat_tabs[t].name, want.c_str(), want.size()) && nat_tabs[t].name[want.size()] == '-')) for (int k = 0; k < nat_tabs[t].n; k++) all.push_back({ (int)t, k });
    if (o.num("print-count", 0)) { printf("%zu\n", all.size()); return 0; }
    for (long i = 0; i < cases; i++) { g_case = from + i * step; if ((size_t)g_case >= all.size()) break; R.seed(seed, g_case, 99); one(nat_tabs[all[g_case].first], all[g_case].second, a, trials); } }
  stat_line("invocations", n_calls + n_clo + n_lay + n_status); stat_line("native_calls", n_calls); stat_line("native_closure_calls", n_clo); stat_line("layouts_compared", n_lay); stat_line("preparations", n_status); stat_line("skipped_compiler_deviation", n_skip); stat_line("arguments", n_args); stat_line("unions_and_aligned_structs", n_over); stat_line("unreported_other_kinds", n_otherkinds);
  write_ids(o.str("ids", ""), ids); printf("DONE\n"); return 0;
}
