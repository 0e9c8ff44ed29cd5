// i386 back end: ffi_call, variadic calls, Go calls, raw calls, closures, Go closures and raw closures between natively compiled
// 32-bit functions (gcc and clang) of the System V, stdcall, fastcall, thiscall and cdecl-aggregate conventions.
//   --tables=prefix --seed --from --step --cases --trials --ids --kinds
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <stdarg.h>
#include <unistd.h>
#include <signal.h>
#include <sys/wait.h>
#include <ucontext.h>
#include <sys/mman.h>
#include <unwind.h>
#include <ffi.h>
#include "nat.h"
struct nat_tab { const char *name; const struct nat_sig *t; const int *n; int var; };
#include "nat_tables.h"
typedef unsigned char u8; typedef uint32_t u32; typedef uint64_t u64;
enum { MAXA = 64, CAP = 65536 };
unsigned char *nat_in[MAXA], *nat_out; long nat_count; int32_t nat_wide[MAXA];
void nat_trash(void *p, size_t n) { memset(p, 0xa7, n); }
// machine-state probes (mach32.S)
extern volatile u32 s_eax, s_ecx, s_edx, s_esp, s_flags, s_pop, s_target, s_maskeax, s_maskedx, s_garb, s_count, s_env[8];
extern volatile u32 c_target, c_chain, c_chainreg, c_exp, c_pop, c_eax, c_edx, c_bx, c_si, c_di, c_bp, c_flags, c_env[8], c_count;
extern volatile u32 o_target, o_pop, o_bx, o_si, o_di, o_bp, o_flags, o_env[8], o_eax, o_edx, h_esp, h_flags, h_target, h_env[8];
extern void x32_callee(void), x32_clo(void), x32_handler(void); extern u32 x32_outer();
static u64 rs[2];
static u64 mix(u64 z) { z += 0x9e3779b97f4a7c15ull; z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; return z ^ (z >> 31); }
static void rseed(u64 a, u64 b) { rs[0] = mix(a ^ mix(b)) | 1; rs[1] = mix(rs[0]); }
static u64 rnd(void) { u64 a = rs[0], b = rs[1]; rs[0] = b; a ^= a << 23; rs[1] = a ^ b ^ (a >> 18) ^ (b >> 5); return rs[1] + b; }
static u32 below(u32 n) { return (u32)(rnd() >> 20) % n; }
static int chance(u32 p) { return below(100) < p; }
static u64 fnv(const void *p, size_t n, u64 h) { const u8 *q = p; while (n--) { h ^= *q++; h *= 1099511628211ull; } return h; }
// reporting
static const char *op = "start", *curtab = "", *kinds = ""; static const struct nat_sig *cur; static volatile long g_case;
static void context(char *b, size_t n) { snprintf(b, n, "case=%ld %s table=%s sig=%.600s nfixed=%d", g_case, op, curtab, cur ? cur->enc : "", cur ? cur->nfixed : 0); }
static int cet;   // watch control flow only
static void viol(const char *kind, const char *f, ...) { if (cet && strcmp(kind, "landing-pad") && strcmp(kind, "return-address")) return; char b[1500], c[900]; va_list ap; va_start(ap, f); vsnprintf(b, sizeof b, f, ap); va_end(ap); context(c, sizeof c); printf("VIOL i386-%s | %s | %s\n", kind, b, c); fflush(stdout); _exit(3); }
static void crossed_out(void);
static void crash(int s, siginfo_t *i, void *u) { crossed_out(); static int in; char b[1200], c[900]; if (in++) _exit(4); ucontext_t *x = u; context(c, sizeof c);
  int n = snprintf(b, sizeof b, "\nVIOL crash-i386-signal%d | addr=%p eip=%x esp=%x | %s\n", s, i->si_addr, x->uc_mcontext.gregs[REG_EIP], x->uc_mcontext.gregs[REG_ESP], c); fflush(stdout); if (write(1, b, n)) {} _exit(3); }
// stack walks from native callees and closure handlers, up to x32_walk, whose registers are known, and main
extern u32 x32_walk(), w_bp; extern char x32_walk_end[]; static int walking, w_found, w_main, w_frames; static u64 n_walk, n_walkframes; int main(int, char **);
static _Unwind_Reason_Code step(struct _Unwind_Context *x, void *p) {
  u32 ip = _Unwind_GetIP(x); if (++w_frames > 200) viol("unwind", "the stack walk does not end"); u32 fn = (u32)_Unwind_FindEnclosingFunction((void *)(ip - 1)); if (fn == (u32)main) w_main++;
  if (ip > (u32)x32_walk && ip < (u32)x32_walk_end && !w_found++) { static const u32 R[] = { 3, 6, 7, 5 }, V[] = { 0x1badb001, 0x2badb002, 0x3badb003 }; for (int i = 0; i < 4; i++) { u32 g = _Unwind_GetGR(x, R[i]), v = i < 3 ? V[i] : w_bp; if (g != v) viol("unwind", "register %u restored as %x, is %x", R[i], g, v); } }
  return _URC_NO_REASON;
}
static void walk(const char *from) { w_found = w_main = w_frames = 0; _Unwind_Backtrace(step, 0); n_walk++; n_walkframes += w_frames; if (w_found != 1 || !w_main) viol("unwind", "the stack walk from %s ends after %d frames without reaching the caller", from, w_frames); }
long *nat_enter(void) { if (walking) walk("the native callee"); return &nat_count; }
// types
typedef struct Ty { char k; size_t size, align; ffi_type *f; int nel, nleaf; struct Ty **el; size_t *off; u32 (*leaf)[3]; const size_t *lay; } Ty;
static u8 *ar, *arp; static void *get(size_t n) { void *p = arp; arp += (n + 15) & ~15u; if (arp > ar + (24 << 20)) { fprintf(stderr, "arena\n"); exit(2); } memset(p, 0, n); return p; }
static ffi_type ci8, ci16, ci32, ci64, *cel[4][2];
static void mkcomplex(ffi_type *t, ffi_type **el, ffi_type *b) { t->size = 2 * b->size; t->alignment = b->alignment; t->type = FFI_TYPE_COMPLEX; el[0] = b; el[1] = 0; t->elements = el; }
static ffi_type *builtin(char k) { switch (k) { case 'v': return &ffi_type_void; case 'a': return &ffi_type_uint8; case 'b': return &ffi_type_sint8; case 'c': return &ffi_type_uint16; case 'd': return &ffi_type_sint16; case 'e': return &ffi_type_uint32; case 'f': return &ffi_type_sint32;
  case 'g': return &ffi_type_uint64; case 'h': return &ffi_type_sint64; case 'p': return &ffi_type_pointer; case 'F': return &ffi_type_float; case 'D': return &ffi_type_double; case 'L': return &ffi_type_longdouble; case 'X': return &ffi_type_complex_float;
  case 'Y': return &ffi_type_complex_double; case 'Z': return &ffi_type_complex_longdouble; case 'q': return &ci8; case 'r': return &ci16; case 's': return &ci32; case 't': return &ci64; } fprintf(stderr, "bad encoding %c\n", k); exit(2); }
static int isint(const Ty *t) { return strchr("abcdefp", t->k) != 0; }            // returned as an ffi_arg
static Ty *lays[4096]; static int nlays;
static Ty *parse(const char **pp, const size_t **l) {
  Ty *t = get(sizeof *t); const char *p = *pp; t->k = *p;
  if (*p != '{') {
    *pp = p + 1; t->f = builtin(*p); if (*p == 'v') return t;
    static const struct { char k; u8 size, align; char base; u8 n, m; } B[] = { {'a',1,1,'i',1,1},{'b',1,1,'i',1,1},{'c',2,2,'i',2,1},{'d',2,2,'i',2,1},{'e',4,4,'i',4,1},{'f',4,4,'i',4,1},{'p',4,4,'i',4,1},{'g',8,4,'i',8,1},{'h',8,4,'i',8,1},{'F',4,4,'F',4,1},{'D',8,4,'D',8,1},{'L',12,4,'L',10,1},
      {'X',8,4,'F',4,2},{'Y',16,4,'D',8,2},{'Z',24,4,'L',10,2},{'q',2,1,'i',1,2},{'r',4,2,'i',2,2},{'s',8,4,'i',4,2},{'t',8,4,'i',4,2} };
    for (size_t i = 0; i < sizeof B / sizeof *B; i++) if (B[i].k == *p) { t->size = B[i].size; t->align = B[i].align; t->nleaf = B[i].m; t->leaf = get(24); for (int j = 0; j < B[i].m; j++) { t->leaf[j][0] = j * (B[i].size / B[i].m); t->leaf[j][1] = B[i].n; t->leaf[j][2] = B[i].base; } }
    return t;
  }
  p++; Ty *el[700]; int n = 0, nl = 0; while (*p != '}') { Ty *m = parse(&p, l); long k = 1; if (*p == '*') { char *e; k = strtol(p + 1, &e, 10); p = e + 1; } while (k--) el[n++] = m, nl += m->nleaf; }
  *pp = p + 1; t->lay = *l; t->size = (*l)[0]; t->align = (*l)[1]; *l += 2 + n; t->nel = n; t->el = get(n * sizeof *el); memcpy(t->el, el, n * sizeof *el); t->leaf = get(12 * nl);
  t->f = get(sizeof(ffi_type)); t->f->type = FFI_TYPE_STRUCT; t->f->elements = get((n + 1) * sizeof(void *));
  for (int i = 0; i < n; i++) { t->f->elements[i] = el[i]->f; for (int j = 0; j < el[i]->nleaf; j++) { t->leaf[t->nleaf][0] = t->lay[2 + i] + el[i]->leaf[j][0]; t->leaf[t->nleaf][2] = el[i]->leaf[j][2]; t->leaf[t->nleaf++][1] = el[i]->leaf[j][1]; } }
  lays[nlays++] = t; return t;
}
static int eq(const Ty *t, const u8 *a, const u8 *b) { for (int i = 0; i < t->nleaf; i++) if (memcmp(a + t->leaf[i][0], b + t->leaf[i][0], t->leaf[i][1])) return 0; return 1; }
static const char *hex(const void *p, size_t n) { static char b[4][200]; static int k; char *o = b[k++ & 3], *s = o; if (n > 64) n = 64; for (size_t i = 0; i < n; i++) s += sprintf(s, "%02x", ((const u8 *)p)[i]); *s = 0; return o; }
static void fill(const Ty *t, u8 *p) { for (size_t i = 0; i < t->size; i++) p[i] = rnd() >> 30; static const u64 E[] = { 0, 1, 0x7f, 0x80, 0xff, 0x7fff, 0x8000, 0xffff, 0x7fffffff, 0x80000000u, ~0ull, 0x8000000000000000ull }; if (t->size <= 8 && t->k != '{' && !t->f->elements && chance(30)) memcpy(p, &E[below(12)], t->size);
  // loading a signalling NaN onto the x87 stack quietens it: keep floating values ordinary
  for (int i = 0; i < t->nleaf; i++) { u8 *q = p + t->leaf[i][0]; switch (t->leaf[i][2]) {
    case 'F': { u32 v; memcpy(&v, q, 4); if ((v & 0x7f800000) == 0x7f800000) v ^= 0x10000000; memcpy(q, &v, 4); break; }
    case 'D': { u64 v; memcpy(&v, q, 8); if ((v >> 52 & 0x7ff) == 0x7ff) v ^= 1ull << 60; memcpy(q, &v, 8); break; }
    case 'L': { u64 m; unsigned short e; memcpy(&m, q, 8); memcpy(&e, q + 8, 2); m |= 1ull << 63; if ((e & 0x7fff) == 0x7fff || !(e & 0x7fff)) e ^= 0x1000; memcpy(q, &m, 8); memcpy(q + 8, &e, 2); } } } }
static u32 widened(const Ty *t, const u8 *p) { u32 v = 0; memcpy(&v, p, t->size); if (t->k == 'b') return (u32)(signed char)v; if (t->k == 'd') return (u32)(short)v; return v; }
// values and results end at an inaccessible page
static u8 *ends[MAXA + 2]; static u8 *guard(int i, size_t n) { return ends[i] - n; }
static u64 n_call, n_clo, n_raw, n_go, n_lay, n_rawclo, n_goclo, n_null, n_chain, n_wide, n_args, n_skip, n_agree, n_disagree; static u64 *ids; static size_t nids;
struct Cx { Ty *ret, *arg[MAXA]; int n; ffi_cif *cif; u8 *v[MAXA], *out; int handled, trash; const void *user; } C;
enum { POOL = 420 }; static struct slot { void *w, *code; } pool[POOL]; static u64 n_alloc;
static void pool_get(struct slot *p) { p->w = ffi_closure_alloc(chance(50) ? sizeof(ffi_closure) : sizeof(ffi_closure) + below(64), &p->code); n_alloc++; if (!p->w) viol("closure-alloc", "no closure"); for (int i = 0; i < POOL; i++) if (&pool[i] != p && (pool[i].code == p->code || pool[i].w == p->w)) viol("closure-alloc", "closure handed out twice"); }
static void widecheck(const char *what, const Ty *t, const u8 *p, int32_t got) { if (!strchr("abcd", t->k)) return; n_wide++; if ((u32)got != widened(t, p)) viol("extension", "%s: compiled code sees %x, value is %x", what, got, widened(t, p)); }
static void handle(ffi_cif *cif, void *ret, void *user) {
  C.handled++; if (walking) { walk("the handler"); if (C.ret->k != 'v') { if (isint(C.ret)) { u32 w = widened(C.ret, C.out); memcpy(ret, &w, 4); } else memcpy(ret, C.out, C.ret->size); } return; } if (cif != C.cif) viol("closure-cif", "handler got cif %p", (void *)cif); if (user != C.user) viol("closure-userdata", "handler got user data %p, want %p", user, C.user);
  if ((h_esp + 4) & 15) viol("stack-alignment", "handler entered with esp %x", h_esp); if (h_flags & 0x400) viol("direction-flag", "set at the handler");
  if ((h_env[2] & 0xffff) != 0xffff) viol("x87-stack", "not empty at the handler: tag %x", h_env[2] & 0xffff);
  if (C.ret->k == 'v') return; if (isint(C.ret)) { u32 w = widened(C.ret, C.out); memcpy(ret, &w, 4); } else memcpy(ret, C.out, C.ret->size);
}
static void args_seen(void **av) { for (int i = 0; i < C.n; i++) if (!eq(C.arg[i], av[i], C.v[i])) viol("closure-argument", "argument %d (%c): handler sees %s, caller passed %s", i, C.arg[i]->k, hex(av[i], C.arg[i]->size), hex(C.v[i], C.arg[i]->size));
  if (C.trash) for (int i = 0; i < C.n; i++) memset(av[i], 0xc3, C.arg[i]->size); }
static void handler(ffi_cif *cif, void *ret, void **av, void *user) { for (int i = 0; i < C.n; i++) if ((u32)av[i] & (C.arg[i]->align - 1)) viol("closure-argument", "argument %d misaligned", i); args_seen(av); handle(cif, ret, user); }
static void rawhandler(ffi_cif *cif, void *ret, ffi_raw *raw, void *user) { void *av[MAXA]; ffi_raw_to_ptrarray(cif, raw, av); args_seen(av); handle(cif, ret, user); }
static int isfp(const Ty *t) { return t->k == 'F' || t->k == 'D' || t->k == 'L'; }
static void outer_state(const char *what) {
  if (o_bx != 0x1badb001 || o_si != 0x2badb002 || o_di != 0x3badb003 || o_bp != 0x4badb004) viol("callee-saved", "%s: ebx %x esi %x edi %x ebp %x", what, o_bx, o_si, o_di, o_bp);
  if (o_pop) viol("stack-pointer", "%s: %d bytes off", what, (int)o_pop); if (o_flags & 0x400) viol("direction-flag", "%s", what); if ((o_env[2] & 0xffff) != 0xffff) viol("x87-stack", "%s leaves values on it: tag %x", what, o_env[2] & 0xffff); if ((o_env[0] & 0xffff) != (h_env[7] & 0xffff)) viol("x87-control", "%s: %x", what, o_env[0] & 0xffff);
}
static void clo_state(const char *what) {
  if (c_bx != 0x1badb001 || c_si != 0x2badb002 || c_di != 0x3badb003 || c_bp != 0x4badb004) viol("callee-saved", "%s: ebx %x esi %x edi %x ebp %x", what, c_bx, c_si, c_di, c_bp);
  if (c_pop != c_exp) viol("stack-pop", "%s pops %d bytes, the natively compiled function %d", what, (int)c_pop, (int)c_exp); if (c_flags & 0x400) viol("direction-flag", "%s", what);
  u32 tag = c_env[2] & 0xffff; int full = 0; for (int i = 0; i < 8; i++) full += (tag >> 2 * i & 3) != 3; if (full != isfp(C.ret)) viol("x87-stack", "%s: %d values, tag %x", what, full, tag);
}
static void call_checks(const char *what, int var, u8 *res, size_t rsz, int nul, void **av) {
  outer_state(what); if (nat_count != 1 || s_count != 1) viol("callee-count", "callee entered %ld times", nat_count);
  if ((s_esp + 4) & 15) viol("stack-alignment", "%s: callee entered with esp %x", what, s_esp); if (s_flags & 0x400) viol("direction-flag", "%s: set at the callee", what); if ((s_env[2] & 0xffff) != 0xffff) viol("x87-stack", "%s: not empty at the callee", what);
  for (int i = 0; i < C.n; i++) { if (!eq(C.arg[i], nat_in[i], C.v[i])) viol(var ? "variadic-argument" : "argument", "%s: argument %d (%c): callee got %s, passed %s", what, i, C.arg[i]->k, hex(nat_in[i], C.arg[i]->size), hex(C.v[i], C.arg[i]->size)); widecheck(what, C.arg[i], C.v[i], nat_wide[i]); if (av[i] != C.v[i]) viol("argument", "argument array modified"); }
  if (C.ret->k == 'v' || nul) return;
  if (isint(C.ret)) { u32 w = widened(C.ret, C.out), g; memcpy(&g, res, 4); if (g != w) viol("result", "%s: got %x want %x", what, g, w); } else if (!eq(C.ret, res, C.out)) viol("result", "%s: got %s want %s", what, hex(res, rsz), hex(C.out, rsz));
}
// gcc decides what the register conventions are; clang only takes part where functions compiled by both work together
static int crossing;
static int agrees(const struct nat_sig *a, const struct nat_sig *b, void **av) {
  static u8 tmp[CAP]; pid_t pid = fork(); if (pid < 0) { perror("fork"); exit(2); }
  if (pid) { int st; waitpid(pid, &st, 0); return st == 0; }
  crossing = 1; alarm(20);
  for (int w = 0; w < 6; w++) {
    const struct nat_sig *from = w & 1 ? b : a, *to = w & 1 ? a : b;
    for (int i = 0; i < C.n; i++) { fill(C.arg[i], C.v[i]); memset(nat_in[i], 0xee, C.arg[i]->size); } fill(C.ret, C.out);
    c_chainreg = 0; c_exp = -1; c_target = (u32)from->callee; from->caller(x32_clo, av, tmp); u32 pop = c_pop; c_exp = pop; c_target = (u32)to->callee; from->caller(x32_clo, av, tmp);
    if (c_pop != pop) _exit(1); for (int i = 0; i < C.n; i++) if (!eq(C.arg[i], nat_in[i], C.v[i])) _exit(1); if (C.ret->k != 'v' && !eq(C.ret, tmp, C.out)) _exit(1);
  }
  _exit(0);
}
// interrupted after every instruction by a handler on the same stack, which overwrites what is free below it
static volatile u64 n_steps; static u64 n_stepped; static int stepping;
#include "branches.h"
static void trapped(int sig, siginfo_t *i, void *u) { if (cet) { cet_step(u, 0, 0); return; } volatile u8 junk[1500]; for (int k = 0; k < 1500; k += 4) *(volatile u32 *)(junk + k) = 0xdeadd00d; n_steps++; }
#define STEP_ON() do { if (stepping) { cet_start(); __asm__ volatile("pushfl; orl $0x100,(%%esp); popfl; nop" ::: "memory", "cc"); } } while (0)
#define STEP_OFF() do { if (stepping) __asm__ volatile("pushfl; andl $~0x100,(%%esp); popfl" ::: "memory", "cc"); } while (0)
static int rawthis;   // raw closures of the thiscall convention (a known finding)
static void one(const struct nat_tab *tab, int k, int trials) {
  arp = ar; nlays = 0; cur = &tab->t[k]; curtab = tab->name; op = "preparing"; ids[nids++] = fnv(cur->enc, strlen(cur->enc), fnv(tab->name, strlen(tab->name), 1469598103934665603ull));
  const char *p = cur->enc; const size_t *l = cur->lay; int conv = *p++ - '0'; static const ffi_abi A[] = { FFI_SYSV, FFI_STDCALL, FFI_FASTCALL, FFI_THISCALL, FFI_MS_CDECL }; ffi_abi abi = A[conv];
  C.ret = parse(&p, &l); C.n = 0; while (*p) C.arg[C.n++] = parse(&p, &l); int n = C.n;
  // clang knows no callee_pop_aggregate_return, and passes the result address of thiscall functions as Microsoft does
  if (strstr(tab->name, "clang") && (conv == 4 || conv == 3 && (C.ret->f->type == FFI_TYPE_STRUCT || C.ret->k == 'Y' || C.ret->k == 'Z'))) { n_skip++; return; }
  C.cif = get(sizeof(ffi_cif)); ffi_type **at = get(4 * (n + 1)); int simple = 1, rawclo = conv == 0; for (int i = 0; i < n; i++) { at[i] = C.arg[i]->f; if (C.arg[i]->f->elements) simple = 0; if (C.arg[i]->k == 'L') rawclo = 0; }
  if (rawthis) { if (conv != 3 || n < 2 || !strchr("abcdefp", C.arg[0]->k) || C.arg[1]->size > 8 || C.ret->f->type == FFI_TYPE_STRUCT || C.ret->f->type == FFI_TYPE_COMPLEX) return; rawclo = 1; } if (!simple) rawclo = 0;
  ffi_status s = cur->nfixed >= 0 ? ffi_prep_cif_var(C.cif, abi, cur->nfixed, n, C.ret->f, at) : ffi_prep_cif(C.cif, abi, n, C.ret->f, at); if (s != FFI_OK) viol("status", "valid signature rejected with %d", s);
  for (int i = 0; i < nlays; i++) { Ty *t = lays[i]; n_lay++; if (t->f->size != t->size || t->f->alignment != t->align) viol("layout", "libffi size %zu alignment %u, C size %zu alignment %zu", t->f->size, t->f->alignment, t->size, t->align);
    size_t *o = get(sizeof(size_t) * (t->nel + 1)); o[t->nel] = 0x5a5a; if (ffi_get_struct_offsets(abi, t->f, o) != FFI_OK) viol("status", "offset query fails"); for (int j = 0; j < t->nel; j++) if (o[j] != t->lay[2 + j]) viol("layout", "member %d at %zu, C says %zu", j, o[j], t->lay[2 + j]); if (o[t->nel] != 0x5a5a) viol("layout", "offset query wrote behind the array"); }
  for (int i = 0; i < n; i++) C.v[i] = guard(i, C.arg[i]->size);
  size_t rsz = C.ret->k == 'v' ? 0 : isint(C.ret) ? 4 : C.ret->size; u8 *res = guard(MAXA, rsz); C.out = nat_out = guard(MAXA + 1, C.ret->size ? C.ret->size : 1);
  // several closures of the pool at once, so that all trampolines get used and do not disturb one another
  int slot[4], ns = 0; while (ns < 4) { int k = below(POOL), dup = 0; for (int i = 0; i < ns; i++) dup |= slot[i] == k; if (!dup) slot[ns++] = k; } for (int i = 0; i < 4; i++) if (chance(20)) { struct slot *p = &pool[slot[i]]; ffi_closure_free(p->w); pool_get(p); }
  for (int i = 0; i < 3; i++) if (ffi_prep_closure_loc(pool[slot[i]].w, C.cif, (void *)x32_handler, &pool[slot[i]], pool[slot[i]].code) != FFI_OK) viol("status", "valid closure rejected"); void *rcode = pool[slot[3]].code; ffi_raw_closure *rclo = pool[slot[3]].w;
  if (rawclo && ffi_prep_raw_closure_loc(rclo, C.cif, (void *)x32_handler, &pool[slot[3]], rcode) != FFI_OK) viol("status", "valid raw closure rejected");
  ffi_go_closure *go = get(sizeof *go); static u32 chainobj[4]; void *av[MAXA]; static u32 pops; pops = -1;
  if (conv == 2 || conv == 3) { op = "compilers calling each other"; for (int i = 0; i < n; i++) av[i] = C.v[i]; int a = agrees(cur, &(tab == nat_tabs || (tab - nat_tabs) % 2 == 0 ? tab + 1 : tab - 1)->t[k], av); n_agree += a; n_disagree += !a; if (!a && strstr(tab->name, "clang")) { n_skip++; goto out; } }
  for (int q = 0; q < trials; q++) {
    for (int i = 0; i < n; i++) { fill(C.arg[i], C.v[i]); memset(nat_in[i], 0xee, C.arg[i]->size); av[i] = C.v[i]; } fill(C.ret, C.out); u64 sum = 0; for (int i = 0; i < n; i++) sum = fnv(C.v[i], C.arg[i]->size, sum); n_args += n;
    s_garb = rnd(); s_maskeax = isint(C.ret) && C.ret->size < 4 ? (1u << 8 * C.ret->size) - 1 : C.ret->k == 'q' ? 0xffff : C.ret->k == 'v' || isfp(C.ret) ? 0 : ~0u; s_maskedx = strchr("ghXst", C.ret->k) ? ~0u : 0; s_target = (u32)cur->callee;
    if (cur->nfixed < 0) { // what the compiler itself does
      op = "native caller to native callee"; c_target = (u32)cur->callee; c_exp = -1; c_chainreg = 0; nat_count = 0; u8 tmp[CAP]; cur->caller(x32_clo, av, tmp); c_exp = pops = c_pop; for (int i = 0; i < n; i++) if (!eq(C.arg[i], nat_in[i], C.v[i])) { fprintf(stderr, "generated code disagrees with itself: %s\n", cur->enc); exit(2); } }
    stepping = cet || q == 1 && chance(6); n_stepped += stepping;
    for (int api = 0; api < 3; api++) { // ffi_call, ffi_call_go, ffi_raw_call
      if (api == 2 && !simple) continue; int nul = chance(10); static const char *const N[] = { "ffi_call to native callee", "ffi_call_go to native callee", "ffi_raw_call to native callee" }; op = N[api]; n_null += nul;
      nat_count = 0; s_count = 0; memset(res, 0x5c, rsz); memset(res - 64, 0x5c, 64); for (int i = 0; i < n; i++) memset(nat_in[i], 0xee, C.arg[i]->size);
      if (api == 0) { n_call++; o_target = (u32)ffi_call; STEP_ON(); x32_outer(C.cif, x32_callee, nul ? 0 : res, av); }
      else if (api == 1) { n_go++; void *ch = chance(10) ? 0 : &chainobj; o_target = (u32)ffi_call_go; STEP_ON(); x32_outer(C.cif, x32_callee, nul ? 0 : res, av, ch); u32 got = conv == 2 || conv == 3 ? s_eax : s_ecx; n_chain++; if (got != (u32)ch) viol("static-chain", "callee finds %x, passed %p", got, ch); }
      else { n_raw++; size_t rw = ffi_raw_size(C.cif), want = 0; for (int i = 0; i < n; i++) want += (C.arg[i]->size + 3) & ~3; if (rw != want) viol("raw-size", "%zu, want %zu", rw, want); ffi_raw *raw = (ffi_raw *)guard(MAXA - 1, rw); ffi_ptrarray_to_raw(C.cif, av, raw); o_target = (u32)ffi_raw_call; STEP_ON(); x32_outer(C.cif, x32_callee, nul ? 0 : res, raw); }
      STEP_OFF(); call_checks(N[api], cur->nfixed >= 0, res, rsz, nul, av); for (int i = 0; i < 64; i++) if (res[i - 64] != 0x5c) viol("result-extent", "byte %d before the result written", 64 - i);
      u64 sum2 = 0; for (int i = 0; i < n; i++) sum2 = fnv(C.v[i], C.arg[i]->size, sum2); if (sum != sum2) viol("argument", "argument values modified"); if (nul) for (size_t i = 0; i < rsz; i++) if (res[i] != 0x5c) viol("result-extent", "result written without a result address");
    }
    if (q == 0 && !cet) { // the same once more without probes in between, so that the whole stack can be walked
      walking = 1; void *fn = cur->callee; op = "stack walk from ffi_call"; if (x32_walk(ffi_call, C.cif, fn, res, av)) viol("callee-saved", "after ffi_call"); op = "stack walk from ffi_call_go"; if (x32_walk(ffi_call_go, C.cif, fn, res, av, 0)) viol("callee-saved", "after ffi_call_go");
      if (simple) { op = "stack walk from ffi_raw_call"; ffi_raw *raw = (ffi_raw *)guard(MAXA - 1, ffi_raw_size(C.cif)); ffi_ptrarray_to_raw(C.cif, av, raw); if (x32_walk(ffi_raw_call, C.cif, fn, res, raw)) viol("callee-saved", "after ffi_raw_call"); }
      if (cur->nfixed < 0) { op = "stack walk from a closure"; u8 *got = guard(MAXA, C.ret->size ? C.ret->size : 1); C.trash = 0; struct slot *w = &pool[slot[below(3)]]; if (ffi_prep_closure_loc(w->w, C.cif, handler, 0, w->code) != FFI_OK) viol("status", "valid closure rejected"); x32_walk(cur->caller, w->code, av, got); if (ffi_prep_closure_loc(w->w, C.cif, (void *)x32_handler, w, w->code) != FFI_OK) viol("status", "valid closure rejected");
        if (rawclo && !rawthis) { op = "stack walk from a raw closure"; if (ffi_prep_raw_closure_loc(rclo, C.cif, rawhandler, 0, rcode) != FFI_OK) viol("status", "valid raw closure rejected"); x32_walk(cur->caller, rcode, av, got); if (ffi_prep_raw_closure_loc(rclo, C.cif, (void *)x32_handler, &pool[slot[3]], rcode) != FFI_OK) viol("status", "valid raw closure rejected"); } }
      walking = 0;
    }
    if (cur->nfixed >= 0) continue;
    u8 *got = guard(MAXA, C.ret->size ? C.ret->size : 1); c_exp = pops;
    for (int api = 0; api < 3; api++) { // closure, Go closure, raw closure
      static const char *const N[] = { "native caller to closure", "native caller to Go closure", "native caller to raw closure" }; if (api == 2 && !rawclo) continue; op = N[api]; C.handled = 0; c_count = 0; C.trash = chance(50); if (C.ret->size) memset(got, 0x5c, C.ret->size); h_target = (u32)(api == 2 ? (void *)rawhandler : (void *)handler); c_chainreg = 0;
      if (api == 0) { n_clo++; struct slot *p = &pool[slot[below(3)]]; C.user = p; c_target = (u32)p->code; }
      else if (api == 1) { n_goclo++; C.user = go; if (ffi_prep_go_closure(go, C.cif, (void *)x32_handler) != FFI_OK) viol("status", "valid Go closure rejected"); c_target = (u32)go->tramp; c_chain = (u32)go; c_chainreg = conv == 2 || conv == 3 ? 2 : 1; }
      else { n_rawclo++; C.user = &pool[slot[3]]; c_target = (u32)rcode; }
      STEP_ON(); cur->caller(x32_clo, av, got); STEP_OFF(); clo_state(N[api]); if (C.handled != 1) viol("closure-count", "handler entered %d times", C.handled);
      if (C.ret->k != 'v') { if (!eq(C.ret, got, C.out)) viol("closure-result", "caller got %s, handler stored %s", hex(got, C.ret->size), hex(C.out, C.ret->size)); widecheck(op, C.ret, C.out, nat_wide[0]); }
    }
  }
out:
  if (g_case < 300 && g_case % 40 == 7) printf("SAMPLE %s %.200s: %d bytes of arguments popped by the callee\n", tab->name, cur->enc, (int)pops);
}
static const char *opt(int c, char **v, const char *n, const char *d) { size_t l = strlen(n); for (int i = 1; i < c; i++) if (!strncmp(v[i], "--", 2) && !strncmp(v[i] + 2, n, l) && v[i][2 + l] == '=') return v[i] + 3 + l; return d; }
static void crossed_out(void) { if (crossing) _exit(1); }
int main(int c, char **v) {
  setvbuf(stdout, 0, _IOLBF, 0); stack_t ss = { .ss_size = 1 << 17, .ss_sp = malloc(1 << 17) }; sigaltstack(&ss, 0); struct sigaction sa = { .sa_sigaction = crash, .sa_flags = SA_SIGINFO | SA_ONSTACK | SA_NODEFER }; static const int S[] = { SIGSEGV, SIGBUS, SIGILL, SIGFPE, SIGABRT, SIGTRAP }; for (int i = 0; i < 6; i++) sigaction(S[i], &sa, 0);
  mkcomplex(&ci8, cel[0], &ffi_type_uint8); mkcomplex(&ci16, cel[1], &ffi_type_sint16); mkcomplex(&ci32, cel[2], &ffi_type_sint32); mkcomplex(&ci64, cel[3], &ffi_type_slong);
  ar = malloc(25 << 20); for (int i = 0; i < MAXA + 2; i++) { u8 *m = mmap(0, CAP + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); mprotect(m + CAP, 4096, PROT_NONE); ends[i] = m + CAP; } for (int i = 0; i < MAXA; i++) nat_in[i] = malloc(CAP);
  unsigned short cw; __asm__ volatile("fnstcw %0" : "=m"(cw)); h_env[7] = cw; const char *want = opt(c, v, "tables", ""); u64 seed = strtoull(opt(c, v, "seed", "1"), 0, 0); long from = atol(opt(c, v, "from", "0")), step = atol(opt(c, v, "step", "1")), cases = atol(opt(c, v, "cases", "100")); int trials = atoi(opt(c, v, "trials", "4"));
  static struct { int t, k; } all[200000]; int total = 0; for (size_t t = 0; t < sizeof nat_tabs / sizeof *nat_tabs; t++) if (!strncmp(nat_tabs[t].name, want, strlen(want))) for (int k = 0; k < *nat_tabs[t].n; k++) { all[total].t = t; all[total++].k = k; }
  cet = atoi(opt(c, v, "cet", "0")); cet_init(); rawthis = atoi(opt(c, v, "rawthis", "0")); if (atoi(opt(c, v, "print-count", "0"))) { printf("%d\n", total); return 0; }
  for (int i = 0; i < POOL; i++) pool_get(&pool[i]);
  { struct sigaction t = { .sa_sigaction = trapped, .sa_flags = SA_SIGINFO | SA_NODEFER }; sigaction(SIGTRAP, &t, 0); }
  ids = malloc(8 * (cases + 1)); for (long i = 0; i < cases; i++) { g_case = from + i * step; if (g_case >= total) break; rseed(seed, g_case); one(&nat_tabs[all[g_case].t], all[g_case].k, trials); }
#define ST(n, x) printf("STAT %s %llu\n", n, (unsigned long long)(x))
  ST("invocations", n_call + n_go + n_raw + n_clo + n_goclo + n_rawclo); ST("i386_calls", n_call); ST("i386_go_calls", n_go); ST("i386_raw_calls", n_raw); ST("i386_closure_calls", n_clo); ST("i386_go_closure_calls", n_goclo); ST("i386_raw_closure_calls", n_rawclo); ST("i386_layouts", n_lay); ST("i386_null_results", n_null); ST("i386_static_chains", n_chain); ST("i386_narrow_values", n_wide); ST("arguments", n_args); ST("i386_stack_walks", n_walk); ST("i386_frames_walked", n_walkframes); ST("i386_closures_allocated", n_alloc); ST("i386_interrupted_cases", n_stepped); ST("i386_interruptions", n_steps); ST("i386_compilers_agree", n_agree); ST("i386_compilers_disagree", n_disagree); ST("skipped_compiler_deviation", n_skip);
  if (cet) { ST("indirect_branches_checked", cet_tracked); ST("notrack_branches", cet_untracked); ST("returns_matched", cet_rets); ST("distinct_indirect_branch_sites", cet_nsites); }
  const char *f = opt(c, v, "ids", ""); if (*f) { FILE *o = fopen(f, "wb"); if (!o) exit(2); fwrite(ids, 8, nids, o); fclose(o); } printf("DONE\n"); return 0;
}
