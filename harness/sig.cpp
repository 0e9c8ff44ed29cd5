// Signature monitor: random and systematic signatures are driven through
// ffi_call / closures / raw / Go entry points while assembly probes record the
// full machine state; the model in model.h is the oracle.
#define COMMON_IMPL
#include "model.h"
#ifdef SIG_WRAP
#define WRAP_IMPL
#include "wrap.h"
#else
struct LIB { LIB() {} ~LIB() {} };
#endif
#include <assert.h>
#include <setjmp.h>
#include "nest.h"
#include "branches.h"

struct alignas(64) mstate { u64 r[16]; u64 fl, rip; u64 pad[14]; u8 fx[512]; };
static_assert(sizeof(mstate) == 768, "layout");
enum { RAX, RCX, RDX, RBX, RSP, RBP, RSI, RDI, R8, R9, R10, R11, R12, R13, R14, R15 };
extern "C" {
void mach_call(mstate *in, mstate *out, void *target, const void *stk, u64 n);
void mach_callee(void); extern char mach_callee_end[];
void probe_entry(u64 *rsp);
extern __thread mstate pc_in __attribute__((tls_model("local-exec")));
extern __thread mstate pc_out __attribute__((tls_model("local-exec")));
}
static inline u8 *XMM(mstate &m, int i) { return m.fx + 160 + 16 * i; }
static inline u8 *ST(mstate &m, int i) { return m.fx + 32 + 16 * i; }
static inline u16 &FCW(mstate &m) { return *(u16 *)(m.fx + 0); }
static inline u16 &FSW(mstate &m) { return *(u16 *)(m.fx + 2); }
static inline u8 &FTW(mstate &m) { return *(u8 *)(m.fx + 4); }
static inline u32 &MXC(mstate &m) { return *(u32 *)(m.fx + 24); }

// ---- options ---------------------------------------------------------------
enum Api { A_CALL, A_CLOSURE, A_GOCALL, A_GOCLOSURE, A_RAWCALL, A_JRAWCALL, A_RAWCLOSURE, A_JRAWCLOSURE, A_VARCALL };
static int o_abi, o_api; static bool ms; static u64 o_seed; static bool o_big, o_strict = true;
static std::string o_focus;

// ---- value memory: every value ends at an inaccessible page ----------------
struct Slot { u8 *rw, *ro; size_t cap; };
static std::vector<Slot> slots, bigslots; static size_t slot_next, big_next;
static u8 *rwpool, *ropool; static size_t pool_cap = 8 << 20, pool_used;
static u8 *mapfd(int fd, size_t off, size_t n, int prot) { void *p = mmap(0, n + 4096, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); if (p == MAP_FAILED) { perror("mmap"); exit(2);} p = mmap(p, n, prot, MAP_SHARED | MAP_FIXED, fd, off); if (p == MAP_FAILED) { perror("mmap"); exit(2);} return (u8 *)p; }
static void init_slots() {
  int fd = memfd_create("vals", 0); size_t off = 0; int ns = 200, nb = 6; size_t bsz = 1 << 20;
  if (ftruncate(fd, ns * 4096 + nb * bsz + pool_cap)) { perror("ftruncate"); exit(2); }
  for (int i = 0; i < ns; i++) { slots.push_back({ mapfd(fd, off, 4096, PROT_READ | PROT_WRITE), mapfd(fd, off, 4096, PROT_READ), 4096 }); off += 4096; }
  for (int i = 0; i < nb; i++) { bigslots.push_back({ mapfd(fd, off, bsz, PROT_READ | PROT_WRITE), mapfd(fd, off, bsz, PROT_READ), bsz }); off += bsz; }
  rwpool = mapfd(fd, off, pool_cap, PROT_READ | PROT_WRITE); ropool = mapfd(fd, off, pool_cap, PROT_READ);
  close(fd);
}
struct Val { u8 *rw, *ro; };
static Val place0(size_t n, size_t align) {
  (void)align;
  if (n <= 4096 && slot_next < slots.size()) { Slot &s = slots[slot_next++]; return { s.rw + s.cap - n, s.ro + s.cap - n }; }
  if (n > 4096 && big_next < bigslots.size() && n <= bigslots[0].cap) { Slot &s = bigslots[big_next++]; return { s.rw + s.cap - n, s.ro + s.cap - n }; }
  pool_used = (pool_used + 15) & ~15ul; if (pool_used + n > pool_cap) { fprintf(stderr, "value pool exhausted\n"); exit(2); }
  Val v = { rwpool + pool_used, ropool + pool_used }; pool_used += n; return v;
}
static Val place(size_t n, size_t align) { Val v = place0(n, align); VALGRIND_MAKE_MEM_DEFINED(v.rw, n); VALGRIND_MAKE_MEM_DEFINED(v.ro, n); return v; }
static void reset_slots() { slot_next = big_next = pool_used = 0; }

// ---- the running case --------------------------------------------------------
static Rng R; static Arena meta(24 << 20); static TypePool pool;
struct Case {
  Ty *ret; std::vector<Ty *> args; unsigned nfixed; bool var;
  ffi_cif *cif, *cif_rw; void **avalue; std::vector<Val> val; Layout L;
  std::vector<u8> retbytes;      // what callee/handler returns (size bytes)
  bool null_rvalue; u8 *rvalue; size_t rsize;
  mstate in, out;
  void *userdata; void *chain; u64 entry_rsp; int entered;
  void *code; size_t raw_size; void *raw; bool javaraw; bool user_mem, aliased; void **avalue_rw;
  u8 *hidden; std::vector<u8> stk; size_t stkused;
} C;
static std::string ctx() {
  std::string s = strf("abi=%d api=%d ", o_abi, o_api); if (!C.ret) return s;
  s += C.ret->str() + " f("; for (size_t i = 0; i < C.args.size() && s.size() < 1500; i++) { if (i) s += ","; if (C.var && i == C.nfixed) s += "...,"; s += C.args[i]->str(); }
  s += ")"; if (C.null_rvalue) s += " rvalue=NULL"; if (C.user_mem) s += " usermem"; return s;
}
static u64 n_cases, n_calls, n_args, n_nontrivial, n_retcheck, n_regcheck, n_stackargs, n_hidden, n_null, n_usermem, n_userdual, n_aliased, n_sharedval;
static std::unordered_set<u64> sigs;

static const u64 edge[] = { 0, 1, 0x7f, 0x80, 0xff, 0x7fff, 0x8000, 0xffff, 0x7fffffff, 0x80000000u, 0xffffffffu, 0x7fffffffffffffffull, 0x8000000000000000ull, ~0ull };
static void fillval(const Ty *t, u8 *p) {
  R.fill(p, t->size);
  if (t->isint() && R.chance(40)) { u64 v = edge[R.below(14)]; memcpy(p, &v, t->size); }
  for (const Leaf &l : t->leaves) if (l.cls == L_INT && R.chance(10)) { u64 v = edge[R.below(14)]; memcpy(p + l.off, &v, l.n); }
}
static bool leaves_eq(const Ty *t, const u8 *a, const u8 *b) { for (const Leaf &l : t->leaves) if (memcmp(a + l.off, b + l.off, l.n)) return false; return true; }
static void rand_state(mstate &m) {
  memset(&m, 0, sizeof m);
  for (int i = 0; i < 16; i++) m.r[i] = R.next();
  for (int i = 0; i < 16; i++) R.fill(XMM(m, i), 16);
  m.fl = 0x202 | (R.next() & 0x8d5);          // arithmetic flags, DF clear
  FCW(m) = 0x7f | (u16)(R.chance(60) ? 0x340 : ((R.below(4) == 1 ? 3 : R.below(4)) << 8 | R.below(4) << 10));
  if (((FCW(m) >> 8) & 3) == 1) FCW(m) |= 0x300;
  FSW(m) = 0; FTW(m) = 0;
  MXC(m) = 0x1f80 | (R.chance(50) ? 0 : (u32)(R.below(4) << 13 | R.below(2) << 15 | R.below(2) << 6)) | (u32)R.below(64);
}
static const int saved_sysv[] = { RBX, RBP, R12, R13, R14, R15 };
static const int saved_ms[] = { RBX, RBP, RSI, RDI, R12, R13, R14, R15 };
static const char *const rn[] = { "rax","rcx","rdx","rbx","rsp","rbp","rsi","rdi","r8","r9","r10","r11","r12","r13","r14","r15" };

// ---- single stepping: a signal after every instruction ---------------------------
// The processor's trap flag is set for the whole call; the signal handler runs
// on the interrupted stack, overwrites the stack below it and makes calls of its own.
static int o_trap; static u64 n_traps, n_jumps; static sigjmp_buf trap_jb; static volatile long trap_jump; static u64 trap_mix; static int trap_alt; static u64 n_scribbled; extern "C" { extern __thread void *mc_top __attribute__((tls_model("local-exec"))); }
static int o_cet;
static inline __attribute__((always_inline)) void tf_off() { if (o_trap) { asm volatile("pushfq; andq $~0x100, (%%rsp); popfq; nop" ::: "memory", "cc"); cet_paused = 1; } }
static inline __attribute__((always_inline)) void tf_on() { if (o_trap) asm volatile("pushfq; orq $0x100, (%%rsp); popfq; nop" ::: "memory", "cc"); }
static void on_trap(int, siginfo_t *si, void *uc) {
  if (si->si_code != TRAP_TRACE) { signal(SIGTRAP, SIG_DFL); raise(SIGTRAP); return; }
  if (o_cet) { n_traps++; cet_step((ucontext_t *)uc, (uintptr_t)mach_callee, (uintptr_t)mach_callee_end); return; }
  n_traps++; trap_mix = trap_mix * 6364136223846793005ull + 1442695040888963407ull; u64 z = trap_mix >> 33; int e = errno;
  if (trap_jump >= 0 && trap_jump-- == 0) { n_jumps++; siglongjmp(trap_jb, 1); }
  if (trap_alt) { n_scribbled++; nest::scribble(uc, z >> 3); }
  else if (z % 4 == 0) nest::trash_stack();
  if ((int)(z / 4 % 100) < o_trap) { nest::one((unsigned)(z / 400 % nest::NOPS), z >> 8); if (z % 16 == 0) nest::one((unsigned)(z / 900 % nest::NOPS), z >> 4); }
  errno = e;
}
// Half of the time the handler runs on another stack and destroys everything below the red zone of what it interrupted.
static void arm_trap() { struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_sigaction = on_trap; sa.sa_flags = SA_SIGINFO | (trap_alt ? SA_ONSTACK : 0); sigaction(SIGTRAP, &sa, 0); }
// mach_call, possibly interrupted at every instruction and possibly left by siglongjmp
static bool run_machine(void *target, const void *stk, u64 n) {
  if (!o_trap) { mach_call(&C.in, &C.out, target, stk, n); return true; }
  if (o_cet) { C.in.fl |= 0x100; cet_start(); mach_call(&C.in, &C.out, target, stk, n); C.in.fl &= ~0x100ull; return true; }
  bool alt = R.chance(50); if (alt != (trap_alt != 0)) { trap_alt = alt; arm_trap(); }
  C.in.fl |= 0x100; trap_mix = R.next(); void *top = mc_top; trap_jump = R.chance(25) ? (long)R.below(R.chance(50) ? 120 : 1200) : -1;
  if (sigsetjmp(trap_jb, 1)) { mc_top = top; C.in.fl &= ~0x100ull; return false; }
  mach_call(&C.in, &C.out, target, stk, n); trap_jump = -1; C.in.fl &= ~0x100ull; return true;
}

// state after a call made by mach_call; x87used = stack slots the result occupies.
// use_ms = convention of the function mach_call called.
static void check_after(mstate &in, mstate &out, bool use_ms, int x87used, const char *what) {
  const int *sv = use_ms ? saved_ms : saved_sysv; int n = use_ms ? 8 : 6;
  for (int i = 0; i < n; i++) if (in.r[sv[i]] != out.r[sv[i]]) viol("callee-saved", "%s: %s changed %llx -> %llx", what, rn[sv[i]], (long long)in.r[sv[i]], (long long)out.r[sv[i]]);
  if (use_ms) for (int i = 6; i < 16; i++) if (memcmp(XMM(in, i), XMM(out, i), 16)) viol("callee-saved", "%s: xmm%d changed", what, i);
  if (out.r[RSP] != out.rip) viol("stack-pointer", "%s: rsp off by %lld", what, (long long)(out.r[RSP] - out.rip));
  if (out.fl & 0x400) viol("direction-flag", "%s: DF set on return", what);
  if ((MXC(in) ^ MXC(out)) & 0xffc0) viol("mxcsr", "%s: control bits %x -> %x", what, MXC(in), MXC(out));
  if (FCW(in) != FCW(out)) viol("x87-control", "%s: FCW %x -> %x", what, FCW(in), FCW(out));
  int used = __builtin_popcount(FTW(out));
  if (used != x87used) viol("x87-stack", "%s: %d registers in use on return, expected %d", what, used, x87used);
  n_regcheck++;
}
static u8 *st_reg(mstate &m, int i) { return ST(m, i); }   // fxsave stores ST(i) relative to top

// ---- callee side -------------------------------------------------------------
static void check_entry_state(mstate &m, u64 rsp) {
  if (rsp % 16 != 8) viol("stack-alignment", "rsp=%llx at callee entry", (long long)rsp);
  if (m.fl & 0x400) viol("direction-flag", "DF set at callee entry");
  if (FTW(m)) viol("x87-stack", "x87 registers in use at callee entry (tags %02x)", FTW(m));
  if ((MXC(m) ^ MXC(C.in)) & 0xffc0) viol("mxcsr", "control bits at callee entry %x, caller had %x", MXC(m), MXC(C.in));
  if (FCW(m) != FCW(C.in)) viol("x87-control", "FCW at callee entry %x, caller had %x", FCW(m), FCW(C.in));
}
static const int sysv_gpr[] = { RDI, RSI, RDX, RCX, R8, R9 };
static const int ms_gpr[] = { RCX, RDX, R8, R9 };

static void bad_arg(size_t i, const u8 *got, const char *where) {
  const Ty *t = C.args[i]; size_t n = t->size > 48 ? 48 : t->size;
  viol("argument", "argument %zu (%s) in %s: got %s want %s", i, t->str().c_str(), where, hex(got, n).c_str(), hex(C.val[i].ro, n).c_str());
}
static std::vector<u8> tmpbuf;
static void check_args_sysv(mstate &m, u8 *sp) {
  int sse = 0;
  for (size_t i = 0; i < C.args.size(); i++) {
    const Ty *t = C.args[i]; const ArgLoc &a = C.L.args[i];
    if (a.mem) {
      n_stackargs++;
      if (!leaves_eq(t, sp + a.parts[0].idx, C.val[i].ro)) bad_arg(i, sp + a.parts[0].idx, "stack");
      // integers narrower than int: compilers read 32 bits from registers only; memory is read at its own width
      continue;
    }
    tmpbuf.assign(t->size + 16, 0);
    for (const Part &p : a.parts) {
      if (p.kind == 'g') memcpy(&tmpbuf[p.src], &m.r[sysv_gpr[p.idx]], p.n); else { memcpy(&tmpbuf[p.src], XMM(m, p.idx), p.n); sse++; }
    }
    if (!leaves_eq(t, tmpbuf.data(), C.val[i].ro)) bad_arg(i, tmpbuf.data(), "registers");
    if (t->isint() && t->size < 4) {
      u32 got = (u32)m.r[sysv_gpr[a.parts[0].idx]], want; const u8 *v = C.val[i].ro;
      switch (t->k) { case K_U8: want = *v; break; case K_S8: want = (u32)(s32)(s8)*v; break; case K_U16: want = *(u16 *)v; break; default: want = (u32)(s32) * (s16 *)v; }
      if (got != want) viol("extension", "argument %zu (%s): register low half %x want %x", i, t->str().c_str(), got, want);
    }
  }
  if (C.var) { unsigned al = (u8)m.r[RAX]; if (al < (unsigned)sse || al > 8) viol("vector-count", "al=%u, %d vector registers used", al, sse); }
}
static void check_args_ms(mstate &m, u8 *sp) {
  int pos = ms_ret_hidden(C.ret) ? 1 : 0;
  for (size_t i = 0; i < C.args.size(); i++, pos++) {
    const Ty *t = C.args[i]; u64 slot; bool fp = t->k == K_F32 || t->k == K_F64;
    u64 stackslot; memcpy(&stackslot, sp + 8 * pos, 8);
    if (pos < 4) {
      if (fp) { memcpy(&slot, XMM(m, pos), 8); if (C.var && i >= C.nfixed && memcmp(&slot, &m.r[ms_gpr[pos]], t->size)) viol("argument", "variadic floating argument %zu not duplicated in the integer register", i); }
      else slot = m.r[ms_gpr[pos]];
    } else { slot = stackslot; n_stackargs++; }
    if (ms_by_value(t)) { if (!leaves_eq(t, (u8 *)&slot, C.val[i].ro)) bad_arg(i, (u8 *)&slot, "slot"); }
    else {
      u8 *p = (u8 *)(uintptr_t)slot;
      if (slot % t->align) viol("argument", "argument %zu (%s): by-reference copy misaligned (%llx)", i, t->str().c_str(), (long long)slot);
      phase("reading by-reference argument");
      if (!leaves_eq(t, p, C.val[i].ro)) bad_arg(i, p, "by-reference copy");
    }
  }
  // by-reference copies belong to the callee: overwrite them all, after checking (copies must also be distinct)
  pos = ms_ret_hidden(C.ret) ? 1 : 0;
  for (size_t i = 0; i < C.args.size(); i++, pos++) if (!ms_by_value(C.args[i])) {
    u64 slot; if (pos < 4) slot = m.r[ms_gpr[pos]]; else memcpy(&slot, sp + 8 * pos, 8);
    phase("callee overwriting its by-reference argument copy");
    if (!leaves_eq(C.args[i], (u8 *)(uintptr_t)slot, C.val[i].ro)) viol("argument", "argument %zu: by-reference copies overlap", i);
    memset((void *)(uintptr_t)slot, 0xdb, C.args[i]->size);
  }
}
static void trash_scratch(mstate &o, const mstate &in, bool use_ms) {
  // start from entry values (callee-saved stay), randomise everything the callee may change
  o = in; const int cs_sysv[] = { RAX, RCX, RDX, RSI, RDI, R8, R9, R10, R11 }, cs_ms[] = { RAX, RCX, RDX, R8, R9, R10, R11 };
  if (use_ms) { for (int r : cs_ms) o.r[r] = R.next(); for (int i = 0; i < 6; i++) R.fill(XMM(o, i), 16); }
  else { for (int r : cs_sysv) o.r[r] = R.next(); for (int i = 0; i < 16; i++) R.fill(XMM(o, i), 16); }
  o.fl = 0x202 | (R.next() & 0x8d5) | (o_trap ? 0x100 : 0);
  MXC(o) = (MXC(o) & ~0x3fu) | (u32)R.below(64); FTW(o) = 0; FSW(o) = 0;
}
static void put_st(mstate &o, int n, const u8 *a, const u8 *b) {
  // n values on the x87 stack, a on top
  int top = 8 - n; FSW(o) = (u16)(top << 11); FTW(o) = 0;
  for (int i = 0; i < n; i++) { memcpy(ST(o, i), i ? b : a, 10); FTW(o) |= 1 << ((top + i) & 7); }
}
// place C.retbytes where the ABI returns it
static void set_return(mstate &o) {
  const Ty *t = C.ret; const u8 *v = C.retbytes.data();
  if (t->k == K_VOID) return;
  if (C.hidden) {
    phase("callee writing its result through the hidden pointer");
    if ((uintptr_t)C.hidden % t->align) viol("result-pointer", "hidden result pointer %p misaligned for %s", C.hidden, t->str().c_str());
    memcpy(C.hidden, v, t->size); o.r[RAX] = (u64)(uintptr_t)C.hidden; phase("call"); return;
  }
  if (ms) { if (t->k == K_F32 || t->k == K_F64) memcpy(XMM(o, 0), v, t->size); else memcpy(&o.r[RAX], v, t->size); return; }
  if (t->k == K_CLD) { put_st(o, 2, v, v + 16); return; }
  Cls c[2]; int n = sysv_classify(t, c), g = 0, s = 0;
  if (c[0] == C_X87) { put_st(o, 1, v, 0); return; }
  for (int i = 0; i < n; i++) { size_t m = t->size - 8 * i > 8 ? 8 : t->size - 8 * i; if (c[i] == C_INT) memcpy(&o.r[g++ ? RDX : RAX], v + 8 * i, m); else if (c[i] == C_SSE) memcpy(XMM(o, s++), v + 8 * i, m); }
}
void probe_entry(u64 *rsp) {
  tf_off(); mstate m = pc_in; phase("callee"); C.entered++;
  u8 *sp = (u8 *)(rsp + 1);
  check_entry_state(m, (u64)rsp);
  bool hid = ms ? ms_ret_hidden(C.ret) : C.L.hidden;
  C.hidden = hid ? (u8 *)(uintptr_t)m.r[ms ? RCX : RDI] : 0;
  if (hid) { n_hidden++; if (!C.null_rvalue && C.hidden != C.rvalue) viol("result-pointer", "hidden result pointer %p, result buffer is %p", C.hidden, C.rvalue); }
  if (o_api == A_GOCALL && m.r[R10] != (u64)(uintptr_t)C.chain) viol("static-chain", "r10=%llx want %p", (long long)m.r[R10], C.chain);
  if (ms) check_args_ms(m, sp); else check_args_sysv(m, sp);
  n_args += C.args.size();
  // the argument area belongs to the callee
  size_t area = ms ? 8 * std::max<size_t>(4, C.args.size() + hid) : C.L.stack;
  if (R.chance(70)) { phase("callee overwriting its argument area"); memset(sp, 0xcd, area); }
  trash_scratch(pc_out, m, ms);
  set_return(pc_out);
  phase("returning from callee");
}

// ---- case generation ------------------------------------------------------------
static K enum_basis[] = { K_S8, K_S16, K_S32, K_S64, K_F32, K_F64, K_LD, K_CF32, K_U8, K_CF64 };
// systematic part: struct shapes x register pressure
static u64 enum_count() { return o_focus == "sys4" ? 11110ull * 63 : (o_abi == FFI_UNIX64 ? 1110ull * 63 : 1110ull * 6); }
static void gen_enum(u64 idx) {
  u64 press = idx % (ms ? 6 : 63), sh = idx / (ms ? 6 : 63);
  std::vector<Ty *> el; u64 n = 1, cnt = 10; while (sh >= cnt) { sh -= cnt; cnt *= 10; n++; }
  for (u64 i = 0; i < n; i++) { K k = enum_basis[sh % 10]; if (ms && o_abi != FFI_GNUW64 && k == K_LD) k = K_U16; el.push_back(&pool.scal[k]); sh /= 10; }
  Ty *s = pool.mk(el); C.ret = R.chance(85) ? s : &pool.scal[K_VOID];
  if (ms) { for (u64 i = 0; i < press; i++) C.args.push_back(&pool.scal[R.chance(50) ? K_S64 : K_F64]); }
  else { for (u64 i = 0; i < press % 7; i++) C.args.push_back(&pool.scal[K_S64]); for (u64 i = 0; i < press / 7; i++) C.args.push_back(&pool.scal[K_F64]); }
  C.args.push_back(s); C.args.push_back(&pool.scal[K_S8]); C.args.push_back(&pool.scal[K_F32]); C.args.push_back(s);
}
static bool raw_api() { return o_api >= A_RAWCALL && o_api <= A_JRAWCLOSURE; }
static bool java_api() { return o_api == A_JRAWCALL || o_api == A_JRAWCLOSURE; }
// packed layout: bytes one argument takes in the raw image
static bool raw_ref(const Ty *t) { return t->k == K_STRUCT || t->iscomplex(); }
static size_t raw_step(const Ty *t) {
  if (java_api()) return t->k == K_U64 || t->k == K_S64 || t->k == K_F64 ? 16 : 8;
  return raw_ref(t) ? 8 : (t->size + 7) & ~7ul;
}
static bool java_ok(const Ty *t) { return t->isint() || t->k == K_F32 || t->k == K_F64; }
static bool var_ok(const Ty *t) { return !(t->k == K_F32 || (t->isint() && t->size < 4)); }
static void gen_random() {
  GenCfg g; g.ld = !(ms && o_abi != FFI_GNUW64); g.big = R.chance(3); g.over = R.chance(50);
  if (g.big) g.maxsize = 200000;
  int n; unsigned z = (unsigned)R.below(100);
  if (z < 70) n = (int)R.below(9); else if (z < 92) n = (int)R.below(20); else if (z < 99) n = (int)R.below(60); else n = (int)R.below(o_big ? 2000 : 300);
  if (g.big && n > 20) n = 20;
  int ps = R.chance(30) ? 5 : R.chance(50) ? 35 : 70;
  C.ret = R.chance(10) ? &pool.scal[K_VOID] : gen_type(R, pool, g, 45);
  if (java_api()) while (!(java_ok(C.ret) || C.ret->k == K_VOID)) C.ret = gen_type(R, pool, g, 0);
  for (int i = 0; i < n; i++) {
    if (i && R.chance(25)) C.args.push_back(C.args[R.below(i)]); else C.args.push_back(gen_type(R, pool, g, ps));
  }
  if (java_api()) for (Ty *&t : C.args) while (!java_ok(t)) t = gen_type(R, pool, g, 0);
  if (o_api == A_VARCALL) { if (!n) C.args.push_back(&pool.scal[K_PTR]); C.var = true; C.nfixed = 1 + (unsigned)R.below(C.args.size()); for (size_t i = C.nfixed; i < C.args.size(); i++) while (!var_ok(C.args[i])) C.args[i] = gen_type(R, pool, g, ps); }
}

static void handler(ffi_cif *cif, void *ret, void **args, void *user);
static void raw_handler(ffi_cif *cif, void *ret, ffi_raw *raw, void *user);
static void jraw_handler(ffi_cif *cif, void *ret, ffi_java_raw *raw, void *user);
static void *usermem, *userdual[2];     // one mapping for all; writable and executable views of one file

static void ffi_ret_expected(u8 *exp, size_t &n) {
  // bytes ffi_call must leave in the result buffer
  const Ty *t = C.ret; const u8 *v = C.retbytes.data();
  if (t->isint()) { n = 8; u64 x = 0; memcpy(&x, v, t->size); if (t->issigned()) { int sh = 64 - 8 * (int)t->size; x = (u64)((s64)(x << sh) >> sh); } memcpy(exp, &x, 8); return; }
  n = t->size; memcpy(exp, v, n);
}
static void setup_rvalue() {
  size_t need = C.ret->k == K_VOID ? 16 : C.ret->size; if (!(C.ret->k == K_STRUCT || C.ret->iscomplex()) && need < 8) need = 8;
  C.rsize = need; C.null_rvalue = R.chance(12);
  static u8 *rbig; static const size_t rcap = 1 << 20;
  if (!rbig) { rbig = (u8 *)mmap(0, rcap + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); mprotect(rbig + rcap, 4096, PROT_NONE); }
  C.rvalue = rbig + rcap - need; memset(rbig + rcap - need - 64, 0xA7, need + 64);
  if (C.null_rvalue) n_null++;
}
static void check_rvalue() {
  for (int i = 1; i <= 64; i++) if (C.rvalue[-i] != 0xA7) viol("result-extent", "byte %d before the result buffer written", -i);
  if (C.ret->k == K_VOID || C.null_rvalue) { for (size_t i = 0; i < C.rsize; i++) if (C.rvalue[i] != 0xA7) viol("result-extent", "result buffer written although %s", C.null_rvalue ? "not given" : "void"); return; }
  std::vector<u8> e(C.rsize + 16); size_t n; ffi_ret_expected(e.data(), n);
  if (C.ret->isint()) { if (memcmp(C.rvalue, e.data(), 8)) viol("result", "got %s want %s (widened %s)", hex(C.rvalue, 8).c_str(), hex(e.data(), 8).c_str(), C.ret->str().c_str()); }
  else if (!leaves_eq(C.ret, C.rvalue, e.data())) viol("result", "got %s want %s", hex(C.rvalue, n > 64 ? 64 : n).c_str(), hex(e.data(), n > 64 ? 64 : n).c_str());
  n_retcheck++;
}

// The result may replace the very argument it is computed from.
static bool alias_result() {
  if (C.null_rvalue || C.ret->k == K_VOID || C.val.empty() || (o_api != A_CALL && o_api != A_GOCALL && o_api != A_VARCALL) || !R.chance(6) || RUNNING_ON_VALGRIND) return false;
  for (int t = 0; t < 6; t++) { size_t i = R.below(C.val.size()), n = C.args[i]->size; u8 *p = C.val[i].rw; if (n < C.rsize || n > 2048 || (uintptr_t)p % (C.ret->align < 8 && C.ret->k != K_STRUCT && !C.ret->iscomplex() ? 8 : C.ret->align) || ((uintptr_t)(p + n) & 4095)) continue;
    memset(p - 64, 0xA7, 64); C.rvalue = p; C.aliased = true; C.avalue_rw[i] = p; n_aliased++; return true; }
  return false;
}
static void *pick_chain(void *fn, void *rv) {
  switch (R.below(9)) { case 0: return 0; case 1: return fn; case 2: return rv; case 3: return C.avalue; case 4: return C.cif; case 5: return (void *)(uintptr_t)R.below(16); case 6: return (void *)~0ull; case 7: return &C; default: return (void *)(uintptr_t)R.next(); }
}
static void do_calls() {
  int reps = 1 + (int)R.below(3);
  for (int k = 0; k < reps; k++) {
    setup_rvalue(); C.aliased = false; if (k == reps - 1 && !o_trap) alias_result(); R.fill(C.retbytes.data(), C.retbytes.size()); fillval(C.ret, C.retbytes.data());
    rand_state(C.in); C.entered = 0; C.hidden = 0; C.chain = 0;
    void *rv = C.null_rvalue ? 0 : C.rvalue; void *target;
    C.in.r[RDI] = (u64)C.cif; C.in.r[RSI] = (u64)mach_callee; C.in.r[RDX] = (u64)rv; C.in.r[RCX] = (u64)C.avalue;
    switch (o_api) {
    case A_GOCALL: target = (void *)ffi_call_go; C.chain = pick_chain((void *)mach_callee, rv); C.in.r[R8] = (u64)C.chain; break;
    case A_RAWCALL: target = (void *)ffi_raw_call; C.in.r[RCX] = (u64)C.raw; break;
    case A_JRAWCALL: target = (void *)ffi_java_raw_call; C.in.r[RCX] = (u64)C.raw; break;
    default: target = (void *)ffi_call;
    }
    errno = 0x5a5a; phase("ffi_call");
    bool done; { LIB lib; done = run_machine(target, 0, 0); } if (!done) { errno = 0; k--; continue; }
    int e = errno; phase("after ffi_call");
    if (e != 0x5a5a) viol("errno", "changed to %d", e);
    if (C.entered != 1) viol("callee-count", "callee entered %d times", C.entered);
    check_after(C.in, C.out, false, 0, "ffi_call");
    check_rvalue();
    if (C.null_rvalue && !ms && false) {}
    n_calls++;
  }
}

// ---- closures -----------------------------------------------------------------------
static void check_handler_env() {
  u16 fcw; u32 mx; u64 fl; struct { u16 cw, r0, sw, r1, tw, r2; u32 rest[4]; } env;
  asm volatile("fnstenv %0; fldenv %0" : "+m"(env)); asm volatile("fnstcw %0" : "=m"(fcw)); asm volatile("stmxcsr %0" : "=m"(mx)); asm volatile("pushfq; popq %0" : "=r"(fl));
  if (env.tw != 0xffff) viol("x87-stack", "x87 tags %04x in closure handler", env.tw);
  if ((mx ^ MXC(C.in)) & 0xffc0) viol("mxcsr", "control bits %x in closure handler, caller had %x", mx, MXC(C.in));
  if (fcw != FCW(C.in)) viol("x87-control", "FCW %x in closure handler, caller had %x", fcw, FCW(C.in));
  if (fl & 0x400) viol("direction-flag", "DF set in closure handler");
}
static u64 *handler_order;
static void handler_common(ffi_cif *cif, void *ret, void **args, void *user, void *frame) {
  tf_off(); C.entered++;
  if ((uintptr_t)frame % 16) viol("stack-alignment", "frame %p in closure handler", frame);
  check_handler_env();
  unsigned short cw = 0x37f; unsigned mx = 0x1f80; asm volatile("fldcw %0; ldmxcsr %1" :: "m"(cw), "m"(mx));
  if (cif != C.cif) viol("closure-cif", "handler got cif %p, prepared with %p", cif, C.cif);
  if (user != C.userdata) viol("closure-userdata", "handler got user data %p, prepared with %p", user, C.userdata);
  for (size_t i = 0; i < C.args.size(); i++) {
    const Ty *t = C.args[i]; phase("reading closure argument");
    if ((uintptr_t)args[i] % t->align) viol("closure-argument", "argument %zu (%s) at misaligned address %p", i, t->str().c_str(), args[i]);
    if (!leaves_eq(t, (u8 *)args[i], C.val[i].ro)) { size_t n = t->size > 48 ? 48 : t->size; viol("closure-argument", "argument %zu (%s): got %s want %s", i, t->str().c_str(), hex(args[i], n).c_str(), hex(C.val[i].ro, n).c_str()); }
  }
  n_args += C.args.size();
  phase("handler overwriting its arguments");
  if (R.chance(70)) for (size_t i = 0; i < C.args.size(); i++) memset(args[i], 0xdb, C.args[i]->size);
  phase("handler writing result");
  if (C.ret->k != K_VOID) {
    if (C.ret->isint()) { u8 e[16]; size_t n; ffi_ret_expected(e, n); memcpy(ret, e, 8); }
    else { if ((uintptr_t)ret % C.ret->align) viol("closure-result", "result pointer %p misaligned for %s", ret, C.ret->str().c_str()); memcpy(ret, C.retbytes.data(), C.ret->size); }
  }
  phase("returning from handler");
  // a handler may use every register that belongs to it
  asm volatile("pcmpeqd %%xmm0,%%xmm0; movdqa %%xmm0,%%xmm1; movdqa %%xmm0,%%xmm2; movdqa %%xmm0,%%xmm3; movdqa %%xmm0,%%xmm4; movdqa %%xmm0,%%xmm5; movdqa %%xmm0,%%xmm6; movdqa %%xmm0,%%xmm7;"
    "movdqa %%xmm0,%%xmm8; movdqa %%xmm0,%%xmm9; movdqa %%xmm0,%%xmm10; movdqa %%xmm0,%%xmm11; movdqa %%xmm0,%%xmm12; movdqa %%xmm0,%%xmm13; movdqa %%xmm0,%%xmm14; movdqa %%xmm0,%%xmm15;"
    "movabsq $0xdbdbdbdbdbdbdbdb,%%rax; movq %%rax,%%rcx; movq %%rax,%%rdx; movq %%rax,%%rsi; movq %%rax,%%rdi; movq %%rax,%%r8; movq %%rax,%%r9; movq %%rax,%%r10; movq %%rax,%%r11"
    ::: "rax", "rcx", "rdx", "rsi", "rdi", "r8", "r9", "r10", "r11", "xmm0", "xmm1", "xmm2", "xmm3", "xmm4", "xmm5", "xmm6", "xmm7", "xmm8", "xmm9", "xmm10", "xmm11", "xmm12", "xmm13", "xmm14", "xmm15", "memory");
  asm volatile("fldcw %0; ldmxcsr %1" :: "m"(FCW(C.in)), "m"(MXC(C.in))); tf_on();
}
static void __attribute__((noinline)) handler(ffi_cif *cif, void *ret, void **args, void *user) { handler_common(cif, ret, args, user, __builtin_frame_address(0)); }
// raw closures: rebuild the pointer array from the raw image, then use the same checks
static void *rawptrs[4096];
static void __attribute__((noinline)) raw_handler(ffi_cif *cif, void *ret, ffi_raw *raw, void *user) {
  size_t o = 0; for (size_t i = 0; i < C.args.size(); i++) { Ty *t = C.args[i]; u8 *p = (u8 *)raw + o; rawptrs[i] = raw_ref(t) ? *(void **)p : p; o += raw_step(t); }
  for (size_t i = 0; i < C.args.size(); i++) { Ty *t = C.args[i]; if (t->isint() && t->size < 8) { u64 x = 0; memcpy(&x, C.val[i].ro, t->size); if (t->issigned()) { int sh = 64 - 8 * (int)t->size; x = (u64)((s64)(x << sh) >> sh); } if (memcmp(rawptrs[i], &x, 8)) viol("raw-argument", "raw argument %zu (%s) not widened to a full slot: %s", i, t->str().c_str(), hex(rawptrs[i], 8).c_str()); } }
  // long double alignment within the raw image is 8, as packed; copy it out
  static u8 ldbuf[4096][16] __attribute__((aligned(16)));
  for (size_t i = 0; i < C.args.size(); i++) if (C.args[i]->k == K_LD) { memcpy(ldbuf[i], rawptrs[i], 16); rawptrs[i] = ldbuf[i]; }
  handler_common(cif, ret, rawptrs, user, __builtin_frame_address(0));
}
static void __attribute__((noinline)) jraw_handler(ffi_cif *cif, void *ret, ffi_java_raw *raw, void *user) { raw_handler(cif, ret, (ffi_raw *)raw, user); }

static void build_closure_call() {
  // native caller image
  rand_state(C.in); C.stk.assign(32, 0); C.hidden = 0; static u8 *hbuf; static const size_t hcap = 1 << 20;
  if (!hbuf) { hbuf = (u8 *)mmap(0, hcap + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); mprotect(hbuf + hcap, 4096, PROT_NONE); }
  if (ms) {
    bool hid = ms_ret_hidden(C.ret); size_t nslots = C.args.size() + hid; if (nslots < 4) nslots = 4;
    C.stk.assign((nslots * 8 + 15) & ~15ul, 0); R.fill(C.stk.data(), C.stk.size());
    size_t pos = 0; if (hid) { C.hidden = hbuf + hcap - C.ret->size; C.in.r[RCX] = (u64)C.hidden; pos = 1; }
    for (size_t i = 0; i < C.args.size(); i++, pos++) {
      const Ty *t = C.args[i]; u64 slot = R.next();
      if (ms_by_value(t)) memcpy(&slot, C.val[i].ro, t->size); else { u8 *cp = rwpool + (pool_used = (pool_used + 15) & ~15ul); pool_used += t->size; if (pool_used > pool_cap) { fprintf(stderr, "pool\n"); exit(2);} memcpy(cp, C.val[i].ro, t->size); slot = (u64)cp; }
      if (pos < 4) { if (t->k == K_F32 || t->k == K_F64) { R.fill(XMM(C.in, pos), 16); memcpy(XMM(C.in, pos), C.val[i].ro, t->size); } else C.in.r[ms_gpr[pos]] = slot; }
      else memcpy(&C.stk[8 * pos], &slot, 8);
    }
  } else {
    C.stk.assign((C.L.stack + 15) & ~15ul, 0); R.fill(C.stk.data(), C.stk.size());
    if (C.L.hidden) { C.hidden = hbuf + hcap - C.ret->size; C.in.r[RDI] = (u64)C.hidden; }
    for (size_t i = 0; i < C.args.size(); i++) for (const Part &p : C.L.args[i].parts) {
      const u8 *v = C.val[i].ro + p.src;
      if (p.kind == 's') memcpy(&C.stk[p.idx], v, p.n); else if (p.kind == 'x') memcpy(XMM(C.in, p.idx), v, p.n);
      else { u64 x = R.next(); memcpy(&x, v, p.n); const Ty *t = C.args[i]; if (t->isint() && t->size < 4) { s64 y = 0; switch (t->k) { case K_U8: y = *v; break; case K_S8: y = (s8)*v; break; case K_U16: y = *(u16 *)v; break; default: y = *(s16 *)v; } x = (x & ~0xffffffffull) | (u32)y; } C.in.r[sysv_gpr[p.idx]] = x; }
    }
    C.in.r[RAX] = (C.in.r[RAX] & ~0xffull) | (u64)C.L.nsse;
  }
  if (C.hidden) memset(hbuf + hcap - C.ret->size - 64, 0xA7, C.ret->size + 64);
}
static void check_closure_result() {
  const Ty *t = C.ret; const u8 *v = C.retbytes.data(); mstate &o = C.out; int x87 = 0;
  if (!ms && !C.hidden) { Cls c[2]; if (t->k == K_CLD) x87 = 2; else if (t->k != K_VOID && sysv_classify(t, c) && c[0] == C_X87) x87 = 1; }
  check_after(C.in, C.out, ms, x87, "closure");
  if (t->k == K_VOID) return;
  n_retcheck++;
  std::vector<u8> got(t->size + 16, 0);
  if (C.hidden) {
    if (o.r[RAX] != (u64)C.hidden) viol("closure-result", "rax=%llx, hidden pointer was %p", (long long)o.r[RAX], C.hidden);
    memcpy(got.data(), C.hidden, t->size);
    for (int i = 1; i <= 64; i++) if (C.hidden[-i] != 0xA7) viol("result-extent", "byte %d before the native caller's result buffer written", -i);
    n_hidden++;
  } else if (ms) { if (t->k == K_F32 || t->k == K_F64) memcpy(got.data(), XMM(o, 0), t->size); else memcpy(got.data(), &o.r[RAX], t->size); }
  else if (t->k == K_CLD) { memcpy(got.data(), st_reg(o, 0), 10); memcpy(got.data() + 16, st_reg(o, 1), 10); }
  else {
    Cls c[2]; int n = sysv_classify(t, c), g = 0, s = 0;
    if (c[0] == C_X87) memcpy(got.data(), st_reg(o, 0), 10);
    else for (int i = 0; i < n; i++) if (c[i] == C_INT) memcpy(&got[8 * i], &o.r[g++ ? RDX : RAX], 8); else if (c[i] == C_SSE) memcpy(&got[8 * i], XMM(o, s++), 8);
    if (t->isint() && t->size < 4) { u32 want; switch (t->k) { case K_U8: want = *v; break; case K_S8: want = (u32)(s32)(s8)*v; break; case K_U16: want = *(u16 *)v; break; default: want = (u32)(s32) * (s16 *)v; } if ((u32)o.r[RAX] != want) viol("extension", "closure result (%s): eax=%x want %x", t->str().c_str(), (u32)o.r[RAX], want); }
  }
  if (!leaves_eq(t, got.data(), v)) viol("closure-result", "native caller got %s want %s", hex(got.data(), t->size > 64 ? 64 : t->size).c_str(), hex(v, t->size > 64 ? 64 : t->size).c_str());
}
static void do_closure() {
  void *mem = 0, *code = 0; size_t sz = sizeof(ffi_closure);
  union { ffi_go_closure g; u8 b[64]; } *go = 0;
  if (o_api == A_RAWCLOSURE) sz = sizeof(ffi_raw_closure); if (o_api == A_JRAWCLOSURE) sz = sizeof(ffi_java_raw_closure);
  C.user_mem = o_api != A_GOCLOSURE && R.chance(25); bool same = true;
  C.userdata = (void *)(uintptr_t)R.next(); ffi_status st = FFI_OK;
  if (o_api == A_GOCLOSURE) {
    go = (decltype(go))place(64, 8).rw; memset(go, 0xee, 64); VALGRIND_MAKE_MEM_UNDEFINED(go, 64);
    st = ffi_prep_go_closure(&go->g, C.cif, handler); C.userdata = go; code = (void *)go->g.tramp;
    if (st == FFI_OK && (go->g.cif != C.cif)) viol("go-closure", "cif field not set");
  } else {
    if (C.user_mem) { n_usermem++; size_t uo = 16 * R.below(100); same = R.chance(50); mem = (u8 *)(same ? usermem : userdual[0]) + uo; code = (u8 *)(same ? usermem : userdual[1]) + uo; n_userdual += !same; }
    else { mem = ffi_closure_alloc(sz + R.below(2) * R.below(200), &code); if (!mem) viol("closure-alloc", "ffi_closure_alloc failed"); }
    LIB lib; phase("prep_closure");
    switch (o_api) {
    case A_CLOSURE: st = C.user_mem && same && R.chance(50) ? ffi_prep_closure((ffi_closure *)mem, C.cif, handler, C.userdata) : ffi_prep_closure_loc((ffi_closure *)mem, C.cif, handler, C.userdata, code); break;
    case A_RAWCLOSURE: st = C.user_mem && same && R.chance(50) ? ffi_prep_raw_closure((ffi_raw_closure *)mem, C.cif, raw_handler, C.userdata) : ffi_prep_raw_closure_loc((ffi_raw_closure *)mem, C.cif, raw_handler, C.userdata, code); break;
    default: st = C.user_mem && same && R.chance(50) ? ffi_prep_java_raw_closure((ffi_java_raw_closure *)mem, C.cif, jraw_handler, C.userdata) : ffi_prep_java_raw_closure_loc((ffi_java_raw_closure *)mem, C.cif, jraw_handler, C.userdata, code);
    }
  }
  if (st != FFI_OK) viol("status", "closure preparation returned %d", st);
  int reps = 1 + (int)R.below(2);
  for (int k = 0; k < reps; k++) {
    C.retbytes.assign(C.ret->size + 16, 0); fillval(C.ret, C.retbytes.data());
    build_closure_call(); C.entered = 0; if (go) C.in.r[R10] = (u64)go;
    errno = 0x5a5a; phase("closure entry");
    bool done; { LIB lib; done = run_machine(code, C.stk.data(), C.stk.size()); } if (!done) { k--; continue; }
    phase("after closure"); if (errno != 0x5a5a) viol("errno", "changed to %d by a closure", errno);
    if (C.entered != 1) viol("closure-count", "handler entered %d times", C.entered);
    check_closure_result(); n_calls++;
  }
  if (mem && !C.user_mem) ffi_closure_free(mem);
}

static void build_raw() {
  // packed image written by the harness; conversions of the library are checked against it
  size_t n = 0; for (Ty *t : C.args) n += raw_step(t);
  size_t lib = o_api == A_RAWCALL || o_api == A_RAWCLOSURE ? ffi_raw_size(C.cif) : ffi_java_raw_size(C.cif);
  bool cplx = false; for (Ty *t : C.args) if (t->iscomplex()) cplx = true;
  if (lib != n && !cplx) viol("raw-size", "reported %zu, packed form needs %zu", lib, n);
  if (cplx && lib < n) viol("raw-size", "reported %zu, packed form needs %zu", lib, n);
  Val v = place(n ? n : 8, 8); size_t o = 0; std::vector<u8> img(n + 8);
  for (size_t i = 0; i < C.args.size(); i++) {
    Ty *t = C.args[i]; u8 *p = &img[o];
    if (raw_ref(t)) *(void **)p = C.val[i].ro;
    else if (t->isint()) { u64 x = 0; memcpy(&x, C.val[i].ro, t->size); if (t->issigned()) { int sh = 64 - 8 * (int)t->size; x = (u64)((s64)(x << sh) >> sh); } memcpy(p, &x, 8); }
    else memcpy(p, C.val[i].ro, t->size);
    o += raw_step(t);
  }
  memcpy(v.rw, img.data(), n); C.raw = v.ro;
  // array -> raw
  Val w = place(n ? n : 8, 8); memset(w.rw, 0x99, n ? n : 8); phase("ptrarray_to_raw");
  if (o_api == A_RAWCALL || o_api == A_RAWCLOSURE) ffi_ptrarray_to_raw(C.cif, C.avalue, (ffi_raw *)w.rw); else ffi_java_ptrarray_to_raw(C.cif, C.avalue, (ffi_java_raw *)w.rw);
  o = 0;
  for (size_t i = 0; i < C.args.size(); i++) { Ty *t = C.args[i]; size_t m = raw_ref(t) || t->isint() ? 8 : t->k == K_LD ? 10 : t->size; if (memcmp(w.ro + o, &img[o], m)) viol("raw-pack", "argument %zu (%s): packed %s want %s", i, t->str().c_str(), hex(w.ro + o, m).c_str(), hex(&img[o], m).c_str()); o += raw_step(t); }
  // raw -> array
  std::vector<void *> back(C.args.size() + 1, (void *)0x77); phase("raw_to_ptrarray");
  if (o_api == A_RAWCALL || o_api == A_RAWCLOSURE) ffi_raw_to_ptrarray(C.cif, (ffi_raw *)C.raw, back.data()); else ffi_java_raw_to_ptrarray(C.cif, (ffi_java_raw *)C.raw, back.data());
  if (back[C.args.size()] != (void *)0x77) viol("raw-unpack", "pointer array overrun");
  for (size_t i = 0; i < C.args.size(); i++) if (!leaves_eq(C.args[i], (u8 *)back[i], C.val[i].ro)) viol("raw-unpack", "argument %zu (%s) differs", i, C.args[i]->str().c_str());
}

static void run_case(u64 idx, u64 nenum) {
  g_case = (long)idx; phase("generate");
  R.seed(o_seed, (u64)o_api * 16 + (u64)o_abi, idx < nenum ? idx : idx + 0x100000000ull);
  meta.reset(); pool.reset(); reset_slots(); C.ret = 0; C.args.clear(); C.val.clear(); C.var = false; C.nfixed = 0; C.user_mem = false; C.null_rvalue = false; C.chain = 0;
  bool raw = raw_api();
  if (idx < nenum && !raw && o_api != A_VARCALL) gen_enum(idx); else gen_random();
  size_t n = C.args.size();
  ffi_type *rt = pool.emit(C.ret, meta); ffi_type **at = 0; Val cv = place(sizeof(ffi_cif), 8);
  Val av = place(n * sizeof(void *) + (n == 0), 8), tv = place(n * sizeof(void *) + (n == 0), 8);
  for (size_t i = 0; i < n; i++) { ((ffi_type **)tv.rw)[i] = pool.emit(C.args[i], meta); }
  at = n || R.chance(50) ? (ffi_type **)tv.ro : 0;
  C.cif_rw = (ffi_cif *)cv.rw; C.cif = (ffi_cif *)cv.ro; memset(C.cif_rw, 0xee, sizeof(ffi_cif)); if (RUNNING_ON_VALGRIND) { C.cif = C.cif_rw; VALGRIND_MAKE_MEM_UNDEFINED(C.cif_rw, sizeof(ffi_cif)); } phase("prep_cif");
  LIB *lib = new LIB; ffi_status st = C.var ? ffi_prep_cif_var(C.cif_rw, (ffi_abi)o_abi, C.nfixed, (unsigned)n, rt, at) : ffi_prep_cif(C.cif_rw, (ffi_abi)o_abi, (unsigned)n, rt, at);
  if (st != FFI_OK) viol("status", "cif preparation returned %d", st);
  delete lib; meta.seal();
  if (C.ret->k == K_STRUCT && (rt->size != C.ret->size || rt->alignment != C.ret->align)) viol("layout", "%s: size %zu align %u, want %zu %zu", C.ret->str().c_str(), rt->size, rt->alignment, C.ret->size, C.ret->align);
  for (size_t i = 0; i < n; i++) if (at[i]->size != C.args[i]->size || at[i]->alignment != C.args[i]->align) viol("layout", "%s: size %zu align %u, want %zu %zu", C.args[i]->str().c_str(), at[i]->size, at[i]->alignment, C.args[i]->size, C.args[i]->align);
  for (size_t i = 0; i < n; i++) { if (i && C.args[i] == C.args[i - 1] && R.chance(20)) { n_sharedval++; C.val.push_back(C.val[i - 1]); ((void **)av.rw)[i] = C.val[i].ro; continue; } Val v = place(C.args[i]->size, C.args[i]->align); fillval(C.args[i], v.rw); C.val.push_back(v); if (RUNNING_ON_VALGRIND) { VALGRIND_MAKE_MEM_UNDEFINED(v.ro, C.args[i]->size); for (const Leaf &l : C.args[i]->leaves) VALGRIND_MAKE_MEM_DEFINED((u8 *)v.ro + l.off, l.n); } ((void **)av.rw)[i] = v.ro; }
  C.avalue_rw = (void **)av.rw; C.avalue = n || R.chance(50) ? (void **)av.ro : 0; C.retbytes.assign(C.ret->size + 16, 0);
  if (!ms) C.L = sysv_layout(C.ret, C.args);
  if (raw) build_raw();
  u64 h = fnv(C.ret->str()); for (Ty *t : C.args) h = fnv(t->str()) ^ (h * 1099511628211ull + 7); if (C.var) h ^= C.nfixed * 77777;
  if (n || C.ret->k != K_VOID) sigs.insert(h);
  if (o_api == A_CLOSURE || o_api == A_GOCLOSURE || o_api == A_RAWCLOSURE || o_api == A_JRAWCLOSURE) do_closure(); else do_calls();
#ifdef SIG_WRAP
  if (W.heap_bytes || W.map_bytes || W.fds.size()) viol("call-allocates", "%zu heap bytes, %zu mapped bytes and %zu descriptors acquired by preparation, calls or invocations were kept", W.heap_bytes, W.map_bytes, W.fds.size());
#endif
  n_cases++;
}

int main(int argc, char **argv) {
  Opts o(argc, argv); setvbuf(stdout, 0, _IOLBF, 0);
  set_kinds(o.str("kinds", "")); install_crash_handlers(); viol_context = ctx;
  std::string abi = o.str("abi", "unix64"); o_abi = abi == "unix64" ? FFI_UNIX64 : abi == "win64" ? FFI_WIN64 : FFI_GNUW64; ms = o_abi != FFI_UNIX64;
  static const char *const apis[] = { "call", "closure", "gocall", "goclosure", "rawcall", "jrawcall", "rawclosure", "jrawclosure", "varcall" };
  std::string api = o.str("api", "call"); o_api = -1; for (int i = 0; i < 9; i++) if (api == apis[i]) o_api = i; if (o_api < 0) { fprintf(stderr, "bad api\n"); return 2; }
  o_seed = (u64)o.num("seed", 1); o_big = o.num("big", 0); o_focus = o.str("focus", "");
  u64 from = (u64)o.num("from", 0), n = (u64)o.num("cases", 1000), step = (u64)o.num("step", 1), nenum = o.num("enum", 1) ? enum_count() : 0;
  if (o.num("print-enum", 0)) { printf("%llu\n", (unsigned long long)nenum); return 0; }
  o_trap = (int)o.num("trap", 0); if (o_trap) { nest::init(); arm_trap(); }
  o_cet = (int)o.num("cet", 0); if (o_cet) { o_trap = 1; cet_init(); arm_trap(); }
  init_slots(); usermem = mmap(0, 4096, PROT_READ | PROT_WRITE | PROT_EXEC, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  if (usermem == MAP_FAILED) { perror("mmap rwx"); return 2; }
  { int fd = memfd_create("user", 0); if (fd < 0 || ftruncate(fd, 4096)) { perror("memfd"); return 2; } userdual[0] = mmap(0, 4096, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0); userdual[1] = mmap(0, 4096, PROT_READ | PROT_EXEC, MAP_SHARED, fd, 0); close(fd); if (userdual[0] == MAP_FAILED || userdual[1] == MAP_FAILED) { perror("mmap"); return 2; } }
  u64 samples = 0;
  for (u64 i = 0; i < n; i++) { u64 idx = from + i * step; run_case(idx, nenum); if (n < 8 || i % (n / 4) == 2) { if (samples++ < 5) printf("SAMPLE %s case=%llu %s\n", api.c_str(), (unsigned long long)idx, ctx().c_str()); } }
  stat_line("cases", n_cases); stat_line("invocations", n_calls); stat_line("arguments_checked", n_args); stat_line("results_checked", n_retcheck); stat_line("state_checks", n_regcheck);
  stat_line("stack_arguments", n_stackargs); stat_line("hidden_results", n_hidden); stat_line("null_rvalue", n_null); stat_line("user_memory_closures", n_usermem); stat_line("user_memory_two_views", n_userdual); stat_line("results_replacing_an_argument", n_aliased); stat_line("arguments_sharing_a_value", n_sharedval); stat_line("distinct_signatures", sigs.size());
  if (o_cet) { stat_line("instructions_observed", n_traps); stat_line("indirect_branches_checked", cet_tracked); stat_line("notrack_branches", cet_untracked); stat_line("returns_matched", cet_rets); stat_line("distinct_indirect_branch_sites", cet_nsites); }
  else if (o_trap) { stat_line("instructions_interrupted", n_traps); stat_line("stacks_destroyed_below_the_red_zone", n_scribbled); stat_line("left_by_longjmp", n_jumps); stat_line("nested_operations", nest::runs); }
  stat_line("unreported_other_kinds", n_otherkinds); write_ids(o.str("ids", ""), sigs);
  printf("DONE\n");
  return 0;
}
