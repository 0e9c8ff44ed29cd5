// Preparation: layouts of type descriptors, statuses for valid and ill-formed
// input, and what a failed preparation leaves behind.
//   --mode=layout|status  --seed --from --step --cases --big
#define COMMON_IMPL
#include "model.h"
#include <stddef.h>
static Rng R; static Arena meta(512 << 20); static TypePool pool; static u64 o_seed; static bool o_big, o_odd;
static std::string op, desc; static u64 n_prep, n_layout, n_off, n_bad, n_repaired, n_calls, n_clo, n_desc; static std::unordered_set<u64> ids;
static std::string ctx() { return op + ": " + desc.substr(0, 1200); }
static const ffi_abi abis[] = { FFI_UNIX64, FFI_WIN64, FFI_GNUW64 };
static const int bad_abis[] = { FFI_FIRST_ABI, FFI_LAST_ABI, FFI_FIRST_ABI - 1, FFI_LAST_ABI + 1, -1, 7, 8, 16, 100, 255, 256, 258, 65536 + 2, 0x7fffffff, (int)0x80000000, (int)0x80000002, (int)0xffffff02 };
static int bad_abi() { for (;;) { int a = R.chance(70) ? bad_abis[R.below(sizeof bad_abis / sizeof *bad_abis)] : (int)R.next(); if (a <= FFI_FIRST_ABI || a >= FFI_LAST_ABI) return a; } }

// ---- predefined descriptors ------------------------------------------------------
struct Pre { const char *name; ffi_type *t; size_t size, align; int kind; ffi_type *el; };
#define P(n, c, k) { #n, &ffi_type_##n, sizeof(c), alignof(c), k, 0 }
#define PC(n, c, e) { #n, &ffi_type_##n, sizeof(c), alignof(c), FFI_TYPE_COMPLEX, &ffi_type_##e }
static const Pre pres[] = {
  { "void", &ffi_type_void, 1, 1, FFI_TYPE_VOID, 0 }, P(uint8, u8, FFI_TYPE_UINT8), P(sint8, s8, FFI_TYPE_SINT8), P(uint16, u16, FFI_TYPE_UINT16), P(sint16, s16, FFI_TYPE_SINT16),
  P(uint32, u32, FFI_TYPE_UINT32), P(sint32, s32, FFI_TYPE_SINT32), P(uint64, u64, FFI_TYPE_UINT64), P(sint64, s64, FFI_TYPE_SINT64),
  P(uchar, unsigned char, FFI_TYPE_UINT8), P(schar, signed char, FFI_TYPE_SINT8), P(ushort, unsigned short, FFI_TYPE_UINT16), P(sshort, short, FFI_TYPE_SINT16),
  P(uint, unsigned, FFI_TYPE_UINT32), P(sint, int, FFI_TYPE_SINT32), P(ulong, unsigned long, FFI_TYPE_UINT64), P(slong, long, FFI_TYPE_SINT64),
  P(float, float, FFI_TYPE_FLOAT), P(double, double, FFI_TYPE_DOUBLE), P(longdouble, long double, FFI_TYPE_LONGDOUBLE), P(pointer, void *, FFI_TYPE_POINTER),
  PC(complex_float, _Complex float, float), PC(complex_double, _Complex double, double), PC(complex_longdouble, _Complex long double, longdouble) };
static_assert(sizeof(ffi_arg) == sizeof(void *) && sizeof(ffi_sarg) == sizeof(void *), "ffi_arg");
static void check_pre(const char *when) {
  for (const Pre &p : pres) { n_desc++;
    if (p.t->size != p.size || p.t->alignment != p.align || p.t->type != p.kind) viol("descriptor", "%s: %s has size %zu alignment %u kind %d, C says %zu %zu kind %d", when, p.name, p.t->size, p.t->alignment, p.t->type, p.size, p.align, p.kind);
    if (p.el ? !p.t->elements || p.t->elements[0] != p.el || p.t->elements[1] : p.t->elements != 0 && p.kind != FFI_TYPE_VOID) viol("descriptor", "%s: elements of %s", when, p.name);
  }
}
// ---- cif at the end of a page, canary in front -------------------------------------
static u8 *cifpage;
static ffi_cif *newcif() { memset(cifpage, 0x6b, 4096); return (ffi_cif *)(cifpage + 4096 - sizeof(ffi_cif)); }
static void cif_canary() { for (size_t i = 0; i < 4096 - sizeof(ffi_cif); i++) if (cifpage[i] != 0x6b) viol("outside-write", "preparation wrote %zu bytes in front of the cif", 4096 - sizeof(ffi_cif) - i); }
static u8 *offpage; static const size_t OFFCAP = 1 << 16;
static size_t *newoffs(size_t n) { size_t b = n * sizeof(size_t); memset(offpage, 0x6b, OFFCAP); return (size_t *)(offpage + OFFCAP - b); }

// what the caller sees of a prepared cif
static void same_cif(ffi_cif *a, ffi_cif *b, const char *what) { if (a->abi != b->abi || a->nargs != b->nargs || a->bytes != b->bytes || a->flags != b->flags) viol("preparation-differs", "%s: abi %d/%d nargs %u/%u bytes %u/%u flags %x/%x", what, a->abi, b->abi, a->nargs, b->nargs, a->bytes, b->bytes, a->flags, b->flags); }

static void all_structs(Ty *t, std::vector<Ty *> &v) { if (t->k != K_STRUCT) return; for (Ty *s : v) if (s == t) return; for (Ty *e : t->el) all_structs(e, v); v.push_back(t); }
static void verify_layout(Ty *t, const char *when) {
  std::vector<Ty *> v; all_structs(t, v);
  for (Ty *s : v) { n_layout++; if (s->f->size != s->size || s->f->alignment != s->align) viol("layout", "%s: %s: size %zu alignment %u, want %zu %zu", when, s->str().substr(0, 300).c_str(), s->f->size, s->f->alignment, s->size, s->align); if (s->f->type != FFI_TYPE_STRUCT) viol("layout", "%s: kind changed", when); for (size_t i = 0; i < s->el.size(); i++) if (s->f->elements[i] != s->el[i]->f) viol("layout", "%s: member list changed", when); if (s->f->elements[s->el.size()]) viol("layout", "%s: member list end changed", when); }
}
static void query(Ty *s, ffi_abi abi, bool null) {
  size_t n = s->el.size(); ffi_status st; n_off++;
  if (null || n * 8 > OFFCAP) { std::vector<size_t> big; if (!null) big.resize(n); st = ffi_get_struct_offsets(abi, s->f, null ? 0 : big.data()); if (st != FFI_OK) viol("status", "offset query gives %d", st); for (size_t i = 0; i < big.size(); i++) if (big[i] != s->off[i]) viol("layout", "offset of member %zu: %zu, want %zu", i, big[i], s->off[i]); return; }
  size_t *o = newoffs(n); st = ffi_get_struct_offsets(abi, s->f, o); if (st != FFI_OK) viol("status", "offset query gives %d", st);
  for (size_t i = 0; i < n; i++) if (o[i] != s->off[i]) viol("layout", "%s: offset of member %zu: %zu, want %zu", s->str().substr(0, 300).c_str(), i, o[i], s->off[i]);
  for (u8 *p = offpage; p < (u8 *)o; p++) if (*p != 0x6b) viol("outside-write", "offset query wrote in front of the array");
}
// shared, deep and wide types
static Ty *gen_any(int depth) {
  GenCfg g; g.depth = 4; g.maxsize = 1 << 20;
  unsigned z = (unsigned)R.below(100);
  if (z < 50) return gen_struct(R, pool, g, 3);
  if (z < 65) { std::vector<Ty *> base; for (int i = 0; i < 6; i++) base.push_back(R.chance(50) ? gen_struct(R, pool, g, 2) : &pool.scal[gen_scalar(R, g)]); Ty *t = 0; for (int k = 0; k < 5; k++) { std::vector<Ty *> el; int n = 1 + (int)R.below(6); for (int i = 0; i < n; i++) el.push_back(base[R.below(base.size())]); t = pool.mk(el); t->leaves.clear(); base.push_back(t); } return t; }   // shared members
  if (z < 80) { Ty *t = &pool.scal[gen_scalar(R, g)]; int n = 1 + (int)R.below(R.chance(20) ? 400 : 40); for (int i = 0; i < n; i++) { std::vector<Ty *> el; if (R.chance(40)) el.push_back(&pool.scal[gen_scalar(R, g)]); el.push_back(t); if (R.chance(40)) el.push_back(&pool.scal[gen_scalar(R, g)]); t = pool.mk(el); t->leaves.clear(); } return t; }   // deep
  if (z < 92) { std::vector<Ty *> el; size_t n = 1 + R.below(o_big || R.chance(10) ? 20000 : 600); Ty *e = R.chance(50) ? &pool.scal[gen_scalar(R, g)] : gen_struct(R, pool, g, 1); for (size_t i = 0; i < n; i++) el.push_back(R.chance(97) ? e : &pool.scal[gen_scalar(R, g)]); Ty *t = pool.mk(el); t->leaves.clear(); return t; }   // wide
  Ty *t = &pool.scal[gen_scalar(R, g)]; int lv = 2 + (int)R.below(5); for (int l = 0; l < lv; l++) { std::vector<Ty *> el(1 + R.below(600), t); if (R.chance(50)) el.push_back(&pool.scal[K_U8]); t = pool.mk(el); t->leaves.clear(); if (t->size > (1ull << 44)) break; } return t;   // beyond 4 GiB
}
static void fresh() { pool.reset(); meta.reset(); for (int i = 0; i < K_STRUCT; i++) pool.scal[i].f = builtin_ffi((K)i); }
static void layout_case(u64 idx) {
  R.seed(o_seed, idx, 21); fresh(); Ty *t = gen_any(0); desc = t->str(); op = "layout"; ids.insert(fnv(desc));
  std::vector<Ty *> v; all_structs(t, v); for (Ty *s : v) if (R.chance(5)) { std::vector<Ty *> sub; all_structs(s, sub); for (Ty *q : sub) q->preset = true; }   // a complete type has complete members
  pool.emit(t, meta); int steps = 2 + (int)R.below(6);
  for (int k = 0; k < steps; k++) {
    ffi_abi abi = abis[R.below(3)]; ffi_cif *c = newcif(); Ty *s = R.chance(60) ? t : v[R.below(v.size())]; ffi_type *a[3] = { &ffi_type_double, s->f, &ffi_type_sint16 }; ffi_status st = FFI_OK; n_prep++;
    switch (R.below(4)) {
    case 0: op = "layout by return type"; st = ffi_prep_cif(c, abi, 0, s->f, 0); break;
    case 1: op = "layout by argument type"; st = ffi_prep_cif(c, abi, 3, &ffi_type_void, a); break;
    case 2: op = "layout by offset query"; query(s, abi, false); break;
    default: op = "layout by query without array"; query(s, abi, true); break;
    }
    if (st != FFI_OK) viol("status", "valid structure rejected with %d", st);
    cif_canary(); verify_layout(s, op.c_str());
  }
  for (Ty *s : v) if (s->f->size) { op = "final query"; if (R.chance(30)) query(s, abis[R.below(3)], false); }
  op = "final"; ffi_cif *c = newcif(); if (ffi_prep_cif(c, FFI_UNIX64, 0, t->f, 0) != FFI_OK) viol("status", "valid structure rejected at the end"); verify_layout(t, "at the end");
}

// ---- statuses ------------------------------------------------------------------------
// A type tree in which some structures are broken (no or empty member list); broken ones can be repaired.
struct Broken { Ty *t; int how; ffi_type **good; };
static std::vector<Broken> broken;
static ffi_type *empty_list[1] = { 0 };
static void break_one(Ty *t) { Broken b = { t, (int)R.below(2), t->f->elements }; t->f->size = 0; t->f->alignment = 0; t->f->elements = b.how ? empty_list : 0; broken.push_back(b); }
static void repair_all() { for (Broken &b : broken) b.t->f->elements = b.good; broken.clear(); }
static void mark_unset(Ty *t) { std::vector<Ty *> v; all_structs(t, v); for (Ty *s : v) s->preset = false; }
struct H { ffi_cif *cif; size_t n; std::vector<Ty *> *args; std::vector<std::vector<u8>> *vals; std::vector<u8> ret; Ty *rt; int seen; };
static void handler(ffi_cif *cif, void *ret, void **av, void *u) { H *h = (H *)u; h->seen++; for (size_t i = 0; i < h->n; i++) for (const Leaf &l : (*h->args)[i]->leaves) if (memcmp((u8 *)av[i] + l.off, (*h->vals)[i].data() + l.off, l.n)) viol("round-trip", "argument %zu differs", i);
  if (h->rt->k != K_VOID) { u8 b[8192]; size_t n = h->rt->size; memcpy(b, h->ret.data(), n); if (h->rt->isint() && n < 8) { u64 x = 0; memcpy(&x, b, n); if (h->rt->issigned()) { int s = 64 - 8 * n; x = (u64)((s64)(x << s) >> s); } memcpy(b, &x, 8); n = 8; } memcpy(ret, b, n); } }
static void round_trip(ffi_cif *cif, Ty *rt, std::vector<Ty *> &args) {
  std::vector<std::vector<u8>> vals; std::vector<void *> av(args.size() + 1); size_t total = 0; for (Ty *t : args) total += t->size; if (total > 60000 || rt->size > 8000) return;
  for (size_t i = 0; i < args.size(); i++) { vals.emplace_back(args[i]->size + 16); R.fill(vals[i].data(), args[i]->size); } for (size_t i = 0; i < args.size(); i++) av[i] = vals[i].data();
  H h = { cif, args.size(), &args, &vals, std::vector<u8>(rt->size + 16), rt, 0 }; R.fill(h.ret.data(), rt->size); void *code; ffi_closure *c = (ffi_closure *)ffi_closure_alloc(sizeof(ffi_closure), &code); if (!c) viol("closure-alloc", "no closure");
  if (ffi_prep_closure_loc(c, cif, handler, &h, code) != FFI_OK) viol("status", "closure over a valid cif rejected");
  alignas(64) u8 out[8192]; memset(out, 0x5c, sizeof out); ffi_call(cif, FFI_FN(code), out, av.data()); n_calls++;
  if (h.seen != 1) viol("round-trip", "handler entered %d times", h.seen);
  for (const Leaf &l : rt->leaves) if (memcmp(out + l.off, h.ret.data() + l.off, l.n)) viol("round-trip", "result differs");
  ffi_closure_free(c);
}
// A prepared closure whose renewed preparation is refused goes on as it was.
struct Seen { ffi_cif *cif; void *user; int n; }; static Seen seen; static size_t clear_n; static u64 n_survived;
static void note(ffi_cif *cif, void *ret, void *u) { seen.cif = cif; seen.user = u; seen.n++; memset(ret, 0, clear_n); }
static void h_old(ffi_cif *cif, void *ret, void **, void *u) { note(cif, ret, u); }
static void h_old_raw(ffi_cif *cif, void *ret, ffi_raw *, void *u) { note(cif, ret, u); }
static void h_old_jraw(ffi_cif *cif, void *ret, ffi_java_raw *, void *u) { note(cif, ret, u); }
static void h_new(ffi_cif *, void *, void **, void *) { viol("failed-preparation-effect", "the handler of a refused preparation was invoked"); }
static void h_new_raw(ffi_cif *, void *, ffi_raw *, void *) { viol("failed-preparation-effect", "the handler of a refused preparation was invoked"); }
static void h_new_jraw(ffi_cif *, void *, ffi_java_raw *, void *) { viol("failed-preparation-effect", "the handler of a refused preparation was invoked"); }
static void refused(ffi_cif *cif, ffi_abi abi, Ty *rt, std::vector<Ty *> &args) {
  size_t total = 0; bool java = rt->k != K_STRUCT && !rt->iscomplex() && rt->k != K_LD; for (Ty *t : args) { total += t->size; java &= t->k != K_STRUCT && !t->iscomplex() && t->k != K_LD; } if (total > 60000 || rt->size > 8000 || args.size() > 100) return;
  std::vector<u8> v(total + 16 * args.size() + 64); std::vector<void *> av(args.size() + 1); size_t o = 0; for (size_t i = 0; i < args.size(); i++) { o = (o + 15) & ~15ul; av[i] = v.data() + o; o += args[i]->size; }
  void *code; void *c = ffi_closure_alloc(sizeof(ffi_closure) + sizeof(ffi_raw_closure) + sizeof(ffi_java_raw_closure), &code); if (!c) viol("closure-alloc", "no closure");
  static ffi_go_closure go; ffi_cif bad = *cif; bad.abi = (ffi_abi)bad_abi(); int kind = (int)R.below(java ? 4 : 3), t1, t2; void *ou = &t1; ffi_status s; clear_n = rt->k == K_VOID ? 0 : rt->size < 8 ? 8 : rt->size;
  for (int k = 0; k < 2; k++) { ffi_cif *u = k ? &bad : cif; void *ud = k ? &t2 : &t1;
    switch (kind) {
    case 0: op = "ffi_prep_closure_loc refused"; s = ffi_prep_closure_loc((ffi_closure *)c, u, k ? h_new : h_old, ud, code); break;
    case 1: op = "ffi_prep_go_closure refused"; s = ffi_prep_go_closure(&go, u, k ? h_new : h_old); ou = &go; break;
    case 2: op = "ffi_prep_raw_closure_loc refused"; s = ffi_prep_raw_closure_loc((ffi_raw_closure *)c, u, k ? h_new_raw : h_old_raw, ud, code); break;
    default: op = "ffi_prep_java_raw_closure_loc refused"; s = ffi_prep_java_raw_closure_loc((ffi_java_raw_closure *)c, u, k ? h_new_jraw : h_old_jraw, ud, code); break; }
    if (s != (k ? FFI_BAD_ABI : FFI_OK)) viol("status", "status %d", s); }
  alignas(64) static u8 out[8192]; seen.n = 0; n_survived++;
  if (kind == 1) ffi_call_go(cif, (void (*)(void))*(void **)&go, out, av.data(), &go); else ffi_call(cif, FFI_FN(code), out, av.data());
  if (seen.n != 1 || seen.cif != cif || seen.user != ou) viol("failed-preparation-effect", "closure whose renewed preparation was refused: entered %d times, cif %s, user data %s", seen.n, seen.cif == cif ? "right" : "wrong", seen.user == ou ? "right" : "wrong");
  ffi_closure_free(c);
}
static void expect(ffi_status got, bool badabi, bool badtype, bool badarg, const char *what) {
  bool ok = badabi && got == FFI_BAD_ABI || badtype && got == FFI_BAD_TYPEDEF || badarg && !badtype && !badabi && got == FFI_BAD_ARGTYPE || !badabi && !badtype && !badarg && got == FFI_OK;
  if (badabi || badtype || badarg) n_bad++;
  if (!ok) viol("status", "%s: status %d for %s%s%s%s", what, got, badabi ? "a bad ABI " : "", badtype ? "an ill-formed type " : "", badarg ? "a forbidden variable argument " : "", !badabi && !badtype && !badarg ? "valid input" : "");
}
static void status_case(u64 idx) {
  R.seed(o_seed, idx, 22); fresh(); broken.clear(); GenCfg g; g.maxsize = 2048; op = "statuses"; desc = "";
  size_t n = R.chance(3) ? R.below(o_big ? 20000 : 3000) : R.below(9); bool ld_ok = true; std::vector<Ty *> args; std::vector<Ty *> structs;
  ffi_abi abi = abis[R.below(3)]; if (abi == FFI_WIN64) g.ld = false; (void)ld_ok;
  Ty *rt = R.chance(10) ? &pool.scal[K_VOID] : gen_type(R, pool, g, 50); for (size_t i = 0; i < n; i++) args.push_back(gen_type(R, pool, g, 50));
  if (R.chance(30) && n > 1) args[R.below(n)] = args[R.below(n)];      // the same descriptor twice
  for (Ty *t : args) mark_unset(t); mark_unset(rt);
  ffi_type **at = (ffi_type **)meta.get(sizeof(ffi_type *) * (n + 1)); for (size_t i = 0; i < n; i++) at[i] = pool.emit(args[i], meta); pool.emit(rt, meta);
  all_structs(rt, structs); if (n < 100) for (Ty *t : args) all_structs(t, structs);
  desc = rt->str() + " f("; for (Ty *t : args) { if (desc.size() > 1000) break; desc += t->str() + ","; } desc += strf(") abi=%d", abi);
  if (structs.size() && R.chance(55)) { int k = 1 + (int)R.below(2); while (k--) break_one(structs[R.below(structs.size())]); for (Broken &b : broken) desc += " broken:" + b.t->str(); }
  // a type whose descriptor was broken twice must be restored to its first list
  for (size_t i = 1; i < broken.size(); i++) for (size_t j = 0; j < i; j++) if (broken[i].t == broken[j].t) { broken[i].good = broken[j].good; }
  bool bt = !broken.empty(); bool ba = R.chance(15); int use = ba ? bad_abi() : (int)abi; if (ba) desc += strf(" abi used=%d", use);
  ids.insert(fnv(desc)); int rounds = bt || ba ? 1 + (int)R.below(3) : 1; bool var = n && R.chance(25); unsigned nf = var ? 1 + (unsigned)R.below(n) : (unsigned)n; bool forb = false;
  if (var) for (size_t i = nf; i < n; i++) forb |= args[i]->k == K_F32 || (args[i]->isint() && args[i]->size < 4);
  for (int k = 0; k < rounds; k++) {
    ffi_cif *c = newcif(); n_prep++; op = strf("preparation %d", k + 1);
    ffi_status st = var ? ffi_prep_cif_var(c, (ffi_abi)use, nf, (unsigned)n, rt->f, at) : ffi_prep_cif(c, (ffi_abi)use, (unsigned)n, rt->f, n ? at : 0);
    cif_canary(); expect(st, ba, bt, var && forb, "cif");
    if (structs.size()) { Ty *s = structs[R.below(structs.size())]; std::vector<Ty *> sub; all_structs(s, sub); bool sb = false; for (Broken &b : broken) for (Ty *q : sub) sb |= q == b.t; op = strf("offset query %d", k + 1); size_t *o = R.chance(50) && s->el.size() * 8 < OFFCAP ? newoffs(s->el.size()) : 0; st = ffi_get_struct_offsets((ffi_abi)use, s->f, o); expect(st, ba, sb, false, "offset query"); n_off++; }
    { static const K sc[] = { K_VOID, K_U8, K_S32, K_PTR, K_F32, K_F64, K_LD, K_CF32, K_CLD, K_CI16 }; op = "offset query of a non-structure"; size_t o[8]; st = ffi_get_struct_offsets((ffi_abi)use, builtin_ffi(sc[R.below(10)]), o); expect(st, ba, true, false, "offset query of a non-structure"); }
  }
  // the same objects, repaired
  if (bt || ba || forb) {
    repair_all(); n_repaired++; ffi_cif *c = newcif(); op = "after repair"; if (R.chance(30) && structs.size()) { Ty *s = structs[R.below(structs.size())]; query(s, abi, false); }
    expect(ffi_prep_cif(c, abi, (unsigned)n, rt->f, n ? at : 0), false, false, false, "cif after repair"); verify_layout(rt, "after repair"); if (n < 100) for (Ty *t : args) verify_layout(t, "after repair");
  }
  // equals a preparation of fresh objects; then used
  op = "use"; alignas(16) static u8 cbuf[sizeof(ffi_cif)]; ffi_cif *c = (ffi_cif *)cbuf; memset(c, R.next(), sizeof *c); expect(ffi_prep_cif(c, abi, (unsigned)n, rt->f, n ? at : 0), false, false, false, "cif");
  { std::vector<Ty *> v; all_structs(rt, v); if (n < 100) for (Ty *t : args) all_structs(t, v); for (Ty *s : v) s->f = 0; for (Ty *s : v) if (R.chance(30)) { std::vector<Ty *> sub; all_structs(s, sub); for (Ty *q : sub) q->preset = true; } ffi_type **at2 = (ffi_type **)meta.get(sizeof(ffi_type *) * (n + 1)); if (n < 100) { for (size_t i = 0; i < n; i++) at2[i] = pool.emit(args[i], meta); ffi_cif c2; memset(&c2, R.next(), sizeof c2); expect(ffi_prep_cif(&c2, abi, (unsigned)n, pool.emit(rt, meta), n ? at2 : 0), false, false, false, "fresh cif"); same_cif(c, &c2, "used objects and fresh objects"); } }
  if (n < 200 && R.chance(30)) round_trip(c, rt, args);
  if (R.chance(20)) refused(c, abi, rt, args);
  // closures over this cif with a good and a bad ABI number
  op = "closure preparation"; void *code; ffi_closure *cl = (ffi_closure *)ffi_closure_alloc(sizeof(ffi_java_raw_closure) > sizeof(ffi_closure) ? sizeof(ffi_java_raw_closure) : sizeof(ffi_closure), &code); if (!cl) viol("closure-alloc", "no closure");
  ffi_cif bad = *c; bad.abi = (ffi_abi)bad_abi(); static ffi_go_closure go; n_clo++; bool small = n < 100;
  for (int k = 0; k < 2; k++) { bool b = k == 0 ? R.chance(60) : false; ffi_cif *u = b ? &bad : c; ffi_status st; const char *w;
    switch (R.below(small ? 6 : 3)) {
    case 0: w = "ffi_prep_closure_loc"; st = ffi_prep_closure_loc(cl, u, handler, 0, code); break;
    case 1: w = "ffi_prep_closure"; st = ffi_prep_closure(cl, u, handler, 0); break;
    case 2: w = "ffi_prep_go_closure"; st = ffi_prep_go_closure(&go, u, handler); break;
    case 3: w = "ffi_prep_raw_closure_loc"; st = ffi_prep_raw_closure_loc((ffi_raw_closure *)cl, u, (void (*)(ffi_cif *, void *, ffi_raw *, void *))handler, 0, code); break;
    case 4: w = "ffi_prep_raw_closure"; st = ffi_prep_raw_closure((ffi_raw_closure *)cl, u, (void (*)(ffi_cif *, void *, ffi_raw *, void *))handler, 0); break;
    default: w = "ffi_prep_java_raw_closure_loc"; st = ffi_prep_java_raw_closure_loc((ffi_java_raw_closure *)cl, u, (void (*)(ffi_cif *, void *, ffi_java_raw *, void *))handler, 0, code); break; }
    op = w; expect(st, b, false, false, w); }
  ffi_closure_free(cl);
  // a result type of no known kind
  if (o_odd && abi == FFI_UNIX64 && R.chance(20)) { ffi_type odd = { 8, 8, (unsigned short)(R.chance(50) ? FFI_TYPE_LAST + 1 + R.below(40) : 100 + R.below(60000)), 0 }; op = "unknown kind of result"; ffi_cif q; if (odd.type > FFI_TYPE_LAST) expect(ffi_prep_cif(&q, abi, 0, &odd, 0), false, true, false, "unknown kind of result"); }
}
int main(int argc, char **argv) {
  Opts o(argc, argv); setvbuf(stdout, 0, _IOLBF, 0); set_kinds(o.str("kinds", "")); install_crash_handlers(); viol_context = ctx; o_seed = o.num("seed", 1); o_big = o.num("big", 0); o_odd = o.num("odd", 1);
  long from = o.num("from", 0), step = o.num("step", 1), cases = o.num("cases", 1000); std::string mode = o.str("mode", "layout");
  cifpage = (u8 *)mmap(0, 8192, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); mprotect(cifpage + 4096, 4096, PROT_NONE);
  offpage = (u8 *)mmap(0, OFFCAP + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); mprotect(offpage + OFFCAP, 4096, PROT_NONE);
  check_pre("at the start");
  for (long i = 0; i < cases; i++) { g_case = from + i * step; if (mode == "layout") layout_case(g_case); else status_case(g_case); if (i < 3) printf("SAMPLE %s\n", desc.substr(0, 300).c_str()); }
  op = "at the end"; check_pre("at the end");
  stat_line("invocations", n_prep + n_off + n_clo + n_calls); stat_line("preparations", n_prep); stat_line("layouts_checked", n_layout); stat_line("offset_queries", n_off); stat_line("error_statuses_checked", n_bad); stat_line("repaired_and_reused", n_repaired);
  stat_line("closure_preparations", n_clo); stat_line("round_trips", n_calls); stat_line("refused_re_preparations", n_survived); stat_line("descriptor_checks", n_desc); stat_line("unreported_other_kinds", n_otherkinds); write_ids(o.str("ids", ""), ids); printf("DONE\n"); return 0;
}
