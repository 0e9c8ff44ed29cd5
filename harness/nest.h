// A few prepared operations a signal handler can run: calls and closure
// invocations under all conventions, each checking its own outcome.
// Async-signal-safe: no allocation, no stdio unless something is wrong.
#pragma once
#include "common.h"
#include <ffi.h>
namespace nest {
struct B40 { long v[5]; }; struct M { double d; long l; }; struct S3 { unsigned char c[3]; }; struct LD1 { long double l; };
static u64 key; static volatile u64 runs;
static __attribute__((noinline)) B40 n_big(B40 b, int i, double d, float f, long l, short s, signed char c, B40 e, double g) { B40 r; for (int k = 0; k < 5; k++) r.v[k] = b.v[k] + e.v[k] * 3 + i + (long)d + (long)f + l + s + c + (long)g; memset(&b, 1, sizeof b); memset(&e, 2, sizeof e); return r; }
static __attribute__((noinline)) long double n_ld(long double a, int i, long double b) { return a + i * 2 + b; }
static __attribute__((noinline)) M n_mix(M m, S3 s, double d) { M r = { m.d + d, m.l + s.c[0] + s.c[1] + s.c[2] }; return r; }
static __attribute__((noinline, ms_abi)) B40 n_ms(B40 b, double d, int i, S3 s, float f, long l) { B40 r; for (int k = 0; k < 5; k++) r.v[k] = b.v[k] + (long)d + i + s.c[2] + (long)f + l; memset(&b, 3, sizeof b); return r; }
static __attribute__((noinline, ms_abi)) double n_msd(double a, long b, double c, long d, double e, long f) { return a + b + c + d + e + f; }
static ffi_type t_big, t_mix, t_s3; static ffi_type *e_big[6], *e_mix[3], *e_s3[4], *at[5][9]; static ffi_cif cif[5]; static ffi_closure *clo[5]; static void *code[5]; static ffi_go_closure go; static ffi_raw_closure *rclo[3]; static void *rcode[3]; static void (*fn[5])();
// destroys what lies below the red zone of an interrupted function; the caller runs on another stack
static __attribute__((noinline)) void scribble(const void *uc, u64 mix) { u8 *p = (u8 *)((const ucontext_t *)uc)->uc_mcontext.gregs[REG_RSP] - 128; u64 n = mix % 8 == 0 ? 6000 : 64 + mix % 700; u8 *q = p - n; asm volatile("cld; rep stosb" : "+D"(q), "+c"(n) : "a"(0x80 | (mix >> 9 & 0x7f)) : "memory"); }
static void bad(const char *w) { viol("nested-operation", "%s inside a signal handler", w); }
// every closure computes what the native callee computes
static void h0(ffi_cif *, void *r, void **a, void *u) { if (u != (void *)0x1110) bad("user data"); *(B40 *)r = n_big(*(B40 *)a[0], *(int *)a[1], *(double *)a[2], *(float *)a[3], *(long *)a[4], *(short *)a[5], *(signed char *)a[6], *(B40 *)a[7], *(double *)a[8]); }
static void h1(ffi_cif *, void *r, void **a, void *u) { *(long double *)r = n_ld(*(long double *)a[0], *(int *)a[1], *(long double *)a[2]); }
static void h2(ffi_cif *, void *r, void **a, void *u) { *(M *)r = n_mix(*(M *)a[0], *(S3 *)a[1], *(double *)a[2]); }
static void h3(ffi_cif *, void *r, void **a, void *u) { *(B40 *)r = n_ms(*(B40 *)a[0], *(double *)a[1], *(int *)a[2], *(S3 *)a[3], *(float *)a[4], *(long *)a[5]); }
static void h4(ffi_cif *, void *r, void **a, void *u) { if (u != (void *)0x1114) bad("user data"); *(double *)r = n_msd(*(double *)a[0], *(long *)a[1], *(double *)a[2], *(long *)a[3], *(double *)a[4], *(long *)a[5]); }
// raw closures: the packed arguments are looked at again after a deeper raw call from the same handler
static void one(unsigned z, u64 k); static int depth;
static void again(unsigned z, u64 k) { if (depth < 2) { depth++; one(z, k); depth--; } }
static void r0(ffi_cif *, void *r, ffi_raw *a, void *u) { if (u != (void *)0x1120) bad("user data"); M m = *(M *)a[0].ptr; S3 s = *(S3 *)a[1].ptr; double d; memcpy(&d, a[2].data, 8); again(16 + (m.l & 1), m.l + 3); if (memcmp(a[0].ptr, &m, 16) || memcmp(a[1].ptr, &s, 3) || memcmp(a[2].data, &d, 8)) bad("packed arguments changed"); *(M *)r = n_mix(m, s, d); }
static void r1(ffi_cif *, void *r, ffi_raw *a, void *u) { if (u != (void *)0x1121) bad("user data"); long v[3] = { a[1].sint, a[3].sint, a[5].sint }; double d[3]; for (int i = 0; i < 3; i++) memcpy(&d[i], a[2 * i].data, 8); again(17, v[0] + 5); for (int i = 0; i < 3; i++) if (a[2 * i + 1].sint != v[i] || memcmp(a[2 * i].data, &d[i], 8)) bad("packed arguments changed"); *(double *)r = n_msd(d[0], v[0], d[1], v[1], d[2], v[2]); }
static void r2(ffi_cif *, void *r, ffi_java_raw *a, void *u) { if (u != (void *)0x1122) bad("user data"); long v[3]; double d[3]; for (int i = 0; i < 3; i++) { memcpy(&d[i], a[4 * i].data, 8); memcpy(&v[i], a[4 * i + 2].data, 8); } again(18, v[0] + 7); for (int i = 0; i < 3; i++) if (memcmp(a[4 * i].data, &d[i], 8) || memcmp(a[4 * i + 2].data, &v[i], 8)) bad("packed arguments changed"); *(double *)r = n_msd(d[0], v[0], d[1], v[1], d[2], v[2]); }
static void init() {
  ffi_type *L = &ffi_type_slong, *I = &ffi_type_sint, *D = &ffi_type_double, *F = &ffi_type_float, *LDt = &ffi_type_longdouble, *B = &t_big, *S = &t_s3, *MM = &t_mix;
  for (int i = 0; i < 5; i++) e_big[i] = L; t_big = { 0, 0, FFI_TYPE_STRUCT, e_big }; e_mix[0] = D; e_mix[1] = L; t_mix = { 0, 0, FFI_TYPE_STRUCT, e_mix }; for (int i = 0; i < 3; i++) e_s3[i] = &ffi_type_uchar; t_s3 = { 0, 0, FFI_TYPE_STRUCT, e_s3 };
  auto set = [&](int k, ffi_abi abi, ffi_type *r, std::vector<ffi_type *> a, void (*f)(), void (*h)(ffi_cif *, void *, void **, void *)) { for (size_t i = 0; i < a.size(); i++) at[k][i] = a[i]; if (ffi_prep_cif(&cif[k], abi, (unsigned)a.size(), r, at[k])) viol("status", "nested signature %d", k); fn[k] = f; clo[k] = (ffi_closure *)ffi_closure_alloc(sizeof(ffi_closure), &code[k]); if (!clo[k] || ffi_prep_closure_loc(clo[k], &cif[k], h, (void *)(uintptr_t)(0x1110 + k), code[k])) viol("status", "nested closure %d", k); };
  set(0, FFI_UNIX64, B, { B, I, D, F, L, &ffi_type_sshort, &ffi_type_schar, B, D }, FFI_FN(n_big), h0); set(1, FFI_UNIX64, LDt, { LDt, I, LDt }, FFI_FN(n_ld), h1); set(2, FFI_UNIX64, MM, { MM, S, D }, FFI_FN(n_mix), h2);
  set(3, FFI_GNUW64, B, { B, D, I, S, F, L }, FFI_FN(n_ms), h3); set(4, FFI_WIN64, D, { D, L, D, L, D, L }, FFI_FN(n_msd), h4); if (ffi_prep_go_closure(&go, &cif[2], h2)) viol("status", "nested Go closure");
  for (int i = 0; i < 3; i++) rclo[i] = (ffi_raw_closure *)ffi_closure_alloc(sizeof(ffi_raw_closure), &rcode[i]);
  if (!rclo[0] || !rclo[1] || !rclo[2] || ffi_prep_raw_closure_loc(rclo[0], &cif[2], r0, (void *)0x1120, rcode[0]) || ffi_prep_raw_closure_loc(rclo[1], &cif[4], r1, (void *)0x1121, rcode[1]) || ffi_prep_java_raw_closure_loc((ffi_java_raw_closure *)rclo[2], &cif[4], r2, (void *)0x1122, rcode[2])) viol("status", "nested raw closure");
}
static __attribute__((noinline)) void trash_stack() { volatile u8 buf[2048]; for (size_t i = 0; i < sizeof buf; i++) buf[i] = 0xe7; __asm__ volatile("" :: "r"(buf) : "memory"); }
// operation z: 0-4 calls, 5-9 the same through the closure, 10-14 natively into the closure, 15 Go,
// 16-18 raw closures by way of ffi_call, 19-21 natively, 22-24 by way of a raw call
static const int NOPS = 25;
static void one(unsigned z, u64 k) {
  runs++; int j = (int)(k % 1000); B40 b, e, r; for (int i = 0; i < 5; i++) { b.v[i] = j * 7 + i; e.v[i] = j - i; } int I = j - 500; double d = j + 0.5, g = 3; float f = 2; long l = j * 11; short s = -5; signed char c = -7; S3 s3 = { { 200, (u8)j, 9 } }; M m = { 1.5, l }; long double ld = j + 0.25L, ld2 = 4, rl; M rm; double rd, a6[3] = { 1, 2, 3 }; long l3[3] = { j, 5, 6 };
  void *av[9]; int w = z % 5; void (*f0)() = z < 5 ? fn[w] : FFI_FN(code[w]);
  if (z >= 16) {
    int q = (z - 16) % 3; w = q ? 4 : 2; void *v2[] = { &m, &s3, &d }, *v4[] = { &a6[0], &l3[0], &a6[1], &l3[1], &a6[2], &l3[2] }; void **v = q ? v4 : v2, *res = q ? (void *)&rd : (void *)&rm; union { ffi_raw r[8]; ffi_java_raw j[16]; } raw;
    if (z < 19) ffi_call(&cif[w], FFI_FN(rcode[q]), res, v);
    else if (z < 22) { if (!q) rm = ((M (*)(M, S3, double))rcode[0])(m, s3, d); else rd = ((double (__attribute__((ms_abi)) *)(double, long, double, long, double, long))rcode[q])(a6[0], l3[0], a6[1], l3[1], a6[2], l3[2]); }
    else if (q < 2) { ffi_ptrarray_to_raw(&cif[w], v, raw.r); ffi_raw_call(&cif[w], FFI_FN(rcode[q]), res, raw.r); }
    else { ffi_java_ptrarray_to_raw(&cif[4], v, raw.j); ffi_java_raw_call(&cif[4], FFI_FN(rcode[2]), res, raw.j); }
  }
  else if (z == 15) { void *v[] = { &m, &s3, &d }; ffi_call_go(&cif[2], FFI_FN(go.tramp), &rm, v, &go); w = 2; }
  else if (z < 10) switch (w) {
  case 0: { void *v[] = { &b, &I, &d, &f, &l, &s, &c, &e, &g }; ffi_call(&cif[0], f0, &r, v); break; }
  case 1: { void *v[] = { &ld, &I, &ld2 }; ffi_call(&cif[1], f0, &rl, v); break; }
  case 2: { void *v[] = { &m, &s3, &d }; ffi_call(&cif[2], f0, &rm, v); break; }
  case 3: { void *v[] = { &b, &d, &I, &s3, &f, &l }; ffi_call(&cif[3], f0, &r, v); break; }
  default: { void *v[] = { &a6[0], &l3[0], &a6[1], &l3[1], &a6[2], &l3[2] }; ffi_call(&cif[4], f0, &rd, v); } }
  else switch (w) {
  case 0: r = ((B40 (*)(B40, int, double, float, long, short, signed char, B40, double))code[0])(b, I, d, f, l, s, c, e, g); break;
  case 1: rl = ((long double (*)(long double, int, long double))code[1])(ld, I, ld2); break;
  case 2: rm = ((M (*)(M, S3, double))code[2])(m, s3, d); break;
  case 3: r = ((B40 (__attribute__((ms_abi)) *)(B40, double, int, S3, float, long))code[3])(b, d, I, s3, f, l); break;
  default: rd = ((double (__attribute__((ms_abi)) *)(double, long, double, long, double, long))code[4])(a6[0], l3[0], a6[1], l3[1], a6[2], l3[2]); }
  bool ok = true;
  switch (w) {
  case 0: for (int i = 0; i < 5; i++) ok &= r.v[i] == b.v[i] + e.v[i] * 3 + I + (long)d + 2 + l + s + c + 3; ok &= b.v[1] == j * 7 + 1; break;
  case 1: ok = rl == ld + I * 2 + 4; break; case 2: ok = rm.d == 1.5 + d && rm.l == l + 200 + (u8)j + 9; break;
  case 3: for (int i = 0; i < 5; i++) ok &= r.v[i] == b.v[i] + (long)d + I + 9 + 2 + l; break; default: ok = rd == 6 + j + 11; }
  if (!ok) bad("wrong result of an operation");
}
}
