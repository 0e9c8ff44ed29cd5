// A palette of closure signatures with handlers and native callers.  Every
// invocation carries a fresh nonce; the handler publishes what it saw, the
// caller checks handler identity, cif, user data, arguments and result.
#pragma once
#include "common.h"
#include <ffi.h>

struct Big { u64 a[7]; double d; u8 t[5]; };            // memory class, both ABIs
struct Mix { double d; u64 l; };                        // xmm0 + rax
struct Mix2 { u64 l; float f, g; };                     // rax + xmm0
struct Odd { u8 b[11]; };                               // rax + rdx, 11 bytes; by reference on Windows
struct Sm3 { u8 b[3]; };
enum { CSIG = 12, NHAND = 4 };

struct SeenRec { u64 count; int handler, sig; void *user; ffi_cif *cif; u64 nonce; };
extern __thread SeenRec seen;
extern ffi_cif clo_cif[CSIG][2];       // two interchangeable cifs per signature
extern const char *const clo_signame[CSIG];
typedef void (*clo_handler)(ffi_cif *, void *, void **, void *);
extern clo_handler clo_handlers[CSIG][NHAND];
void clo_init();
// returns empty string if everything matched
std::string clo_invoke(void *code, int sig, int hand, void *user, ffi_cif *cif, u64 nonce);
extern void (*clo_in_handler)(u64 nonce);   // hook run inside every handler

#ifdef CLO_IMPL
__thread SeenRec seen; ffi_cif clo_cif[CSIG][2]; clo_handler clo_handlers[CSIG][NHAND]; void (*clo_in_handler)(u64);
const char *const clo_signame[CSIG] = { "u64(u64)", "double(double,int)", "Mix(float,u64)", "Big(u64,Big)", "ldouble(ldouble)", "void(ptr,u16)",
  "ms u64(u64,double)", "ms Big(Odd,u64)", "s8(s8 x10)", "Odd(Odd,Mix2)", "ms double(f,f,f,f,double,u64)", "sum9d" };
static u64 res_key(int hand, u64 user, u64 nonce) { return Rng::mix(nonce ^ Rng::mix(user + hand * 1315423911ull)); }
static Big mk_big(u64 k) { Big b; memset(&b, 0, sizeof b); for (int i = 0; i < 7; i++) b.a[i] = Rng::mix(k + i); b.d = (double)(k >> 12); for (int i = 0; i < 5; i++) b.t[i] = (u8)(k >> (8 * i)); return b; }
static Odd mk_odd(u64 k) { Odd o; for (int i = 0; i < 11; i++) o.b[i] = (u8)(Rng::mix(k) >> (5 * i)); return o; }
static bool odd_eq(const Odd &a, const Odd &b) { return !memcmp(a.b, b.b, 11); }
static bool big_eq(const Big &a, const Big &b) { return !memcmp(a.a, b.a, sizeof a.a) && a.d == b.d && !memcmp(a.t, b.t, 5); }
static double dkey(u64 k) { return (double)(s64)(k >> 11) * 0.5; }
static float fkey(u64 k) { return (float)(k >> 44); }

static ffi_type t_big, t_mix, t_mix2, t_odd, t_sm3; static ffi_type *e_big[16], *e_mix[3], *e_mix2[4], *e_odd[12], *e_sm3[4];
static void mkt(ffi_type &t, ffi_type **e) { t.size = 0; t.alignment = 0; t.type = FFI_TYPE_STRUCT; t.elements = e; }
static ffi_type *a_sig[CSIG][12];
void clo_types() {
  for (int i = 0; i < 7; i++) e_big[i] = &ffi_type_uint64; e_big[7] = &ffi_type_double; for (int i = 0; i < 5; i++) e_big[8 + i] = &ffi_type_uint8; e_big[13] = 0;
  e_mix[0] = &ffi_type_double; e_mix[1] = &ffi_type_uint64; e_mix[2] = 0;
  e_mix2[0] = &ffi_type_uint64; e_mix2[1] = e_mix2[2] = &ffi_type_float; e_mix2[3] = 0;
  for (int i = 0; i < 11; i++) e_odd[i] = &ffi_type_uint8; e_odd[11] = 0; for (int i = 0; i < 3; i++) e_sm3[i] = &ffi_type_uint8; e_sm3[3] = 0;
  mkt(t_big, e_big); mkt(t_mix, e_mix); mkt(t_mix2, e_mix2); mkt(t_odd, e_odd); mkt(t_sm3, e_sm3);
}
static void prep(int s, ffi_abi abi, ffi_type *r, std::vector<ffi_type *> a) {
  for (size_t i = 0; i < a.size(); i++) a_sig[s][i] = a[i];
  for (int k = 0; k < 2; k++) { ffi_status st = ffi_prep_cif(&clo_cif[s][k], abi, (unsigned)a.size(), r, a_sig[s]); if (st != FFI_OK) viol("status", "ffi_prep_cif of palette signature %d returned %d", s, st); }
}
// nonce is recovered by the handler from its arguments; argument mismatch is flagged by publishing nonce ^ -1
template <int S, int H> static void hnd(ffi_cif *cif, void *ret, void **a, void *user) {
  u64 n = 0, u = (u64)(uintptr_t)user; bool ok = true;
  if (S == 0) n = *(u64 *)a[0];
  else if (S == 1) { double d = *(double *)a[0]; int lo = *(int *)a[1]; n = ((u64)d << 8) | (u8)lo; }
  else if (S == 2) { n = *(u64 *)a[1]; ok = *(float *)a[0] == fkey(n); }
  else if (S == 3) { n = *(u64 *)a[0]; ok = big_eq(*(Big *)a[1], mk_big(n)); }
  else if (S == 4) { n = (u64) * (long double *)a[0]; }
  else if (S == 5) { n = *(u64 *)a[0]; ok = *(u16 *)a[1] == (u16)(n >> 7); }
  else if (S == 6) { n = *(u64 *)a[0]; ok = *(double *)a[1] == dkey(n); }
  else if (S == 7) { n = *(u64 *)a[1]; ok = odd_eq(*(Odd *)a[0], mk_odd(n)); }
  else if (S == 8) { for (int i = 0; i < 10; i++) n |= (u64)(u8)(*(s8 *)a[i]) << (6 * i); u64 m = 0; for (int i = 0; i < 10; i++) m |= (u64)((n >> (6 * i)) & 63) << (6 * i); ok = m == n; }
  else if (S == 9) { Mix2 m = *(Mix2 *)a[1]; n = m.l; ok = odd_eq(*(Odd *)a[0], mk_odd(n)) && m.f == fkey(n) && m.g == fkey(~n); }
  else if (S == 10) { n = *(u64 *)a[5]; for (int i = 0; i < 4; i++) ok = ok && *(float *)a[i] == fkey(n + i); ok = ok && *(double *)a[4] == dkey(n); }
  else { n = *(u64 *)a[9]; for (int i = 0; i < 9; i++) ok = ok && *(double *)a[i] == dkey(n + i); }
  if (clo_in_handler) clo_in_handler(n);
  seen.count++; seen.handler = H; seen.sig = S; seen.user = user; seen.cif = cif; seen.nonce = ok ? n : ~n;
  u64 k = res_key(H, u, n);
  if (S == 0 || S == 6) *(u64 *)ret = k;
  else if (S == 1 || S == 10 || S == 11) *(double *)ret = dkey(k);
  else if (S == 2) { Mix m = { dkey(k), k }; *(Mix *)ret = m; }
  else if (S == 3 || S == 7) *(Big *)ret = mk_big(k);
  else if (S == 4) *(long double *)ret = (long double)k;
  else if (S == 8) *(ffi_sarg *)ret = (s8)k;
  else if (S == 9) *(Odd *)ret = mk_odd(k);
}
template <int S> static void fill_h() { clo_handlers[S][0] = hnd<S, 0>; clo_handlers[S][1] = hnd<S, 1>; clo_handlers[S][2] = hnd<S, 2>; clo_handlers[S][3] = hnd<S, 3>; }
void clo_init() {
  clo_types(); ffi_type *u64t = &ffi_type_uint64, *d = &ffi_type_double, *f = &ffi_type_float, *s8t = &ffi_type_sint8;
  prep(0, FFI_UNIX64, u64t, { u64t }); prep(1, FFI_UNIX64, d, { d, &ffi_type_sint32 }); prep(2, FFI_UNIX64, &t_mix, { f, u64t });
  prep(3, FFI_UNIX64, &t_big, { u64t, &t_big }); prep(4, FFI_UNIX64, &ffi_type_longdouble, { &ffi_type_longdouble });
  prep(5, FFI_UNIX64, &ffi_type_void, { &ffi_type_pointer, &ffi_type_uint16 }); prep(6, FFI_GNUW64, u64t, { u64t, d });
  prep(7, FFI_WIN64, &t_big, { &t_odd, u64t }); prep(8, FFI_UNIX64, s8t, { s8t, s8t, s8t, s8t, s8t, s8t, s8t, s8t, s8t, s8t });
  prep(9, FFI_UNIX64, &t_odd, { &t_odd, &t_mix2 }); prep(10, FFI_GNUW64, d, { f, f, f, f, d, u64t }); prep(11, FFI_UNIX64, d, { d, d, d, d, d, d, d, d, d, u64t });
  fill_h<0>(); fill_h<1>(); fill_h<2>(); fill_h<3>(); fill_h<4>(); fill_h<5>(); fill_h<6>(); fill_h<7>(); fill_h<8>(); fill_h<9>(); fill_h<10>(); fill_h<11>();
}
#define MSABI __attribute__((ms_abi))
std::string clo_invoke(void *code, int sig, int hand, void *user, ffi_cif *cif, u64 nonce) {
  u64 n = nonce, u = (u64)(uintptr_t)user, before = seen.count; bool ok = true;
  if (sig == 1) n &= 0xffffffffffffull; if (sig == 8) { n = nonce & ((1ull << 60) - 1); }
  u64 k = res_key(hand, u, n);
  switch (sig) {
  case 0: ok = ((u64(*)(u64))code)(n) == k; break;
  case 1: ok = ((double (*)(double, int))code)((double)(n >> 8), (int)(u8)n) == dkey(k); break;
  case 2: { Mix m = ((Mix(*)(float, u64))code)(fkey(n), n); ok = m.d == dkey(k) && m.l == k; break; }
  case 3: { Big b = ((Big(*)(u64, Big))code)(n, mk_big(n)); ok = big_eq(b, mk_big(k)); break; }
  case 4: { long double r = ((long double (*)(long double))code)((long double)n); ok = r == (long double)k; break; }
  case 5: ((void (*)(void *, u16))code)((void *)n, (u16)(n >> 7)); break;
  case 6: ok = ((u64(MSABI *)(u64, double))code)(n, dkey(n)) == k; break;
  case 7: { Big b = ((Big(MSABI *)(Odd, u64))code)(mk_odd(n), n); ok = big_eq(b, mk_big(k)); break; }
  case 8: { s8 c[10]; for (int i = 0; i < 10; i++) c[i] = (s8)((n >> (6 * i)) & 63);
    ok = ((int (*)(s8, s8, s8, s8, s8, s8, s8, s8, s8, s8))code)(c[0], c[1], c[2], c[3], c[4], c[5], c[6], c[7], c[8], c[9]) == (int)(s8)k; break; }
  case 9: { Mix2 m = { n, fkey(n), fkey(~n) }; ok = odd_eq(((Odd(*)(Odd, Mix2))code)(mk_odd(n), m), mk_odd(k)); break; }
  case 10: ok = ((double(MSABI *)(float, float, float, float, double, u64))code)(fkey(n), fkey(n + 1), fkey(n + 2), fkey(n + 3), dkey(n), n) == dkey(k); break;
  default: ok = ((double (*)(double, double, double, double, double, double, double, double, double, u64))code)(dkey(n), dkey(n + 1), dkey(n + 2), dkey(n + 3), dkey(n + 4), dkey(n + 5), dkey(n + 6), dkey(n + 7), dkey(n + 8), n) == dkey(k);
  }
  if (seen.count != before + 1) return strf("handler ran %llu times", (unsigned long long)(seen.count - before));
  if (seen.sig != sig || seen.handler != hand) return strf("handler %d/%d ran instead of %d/%d", seen.sig, seen.handler, sig, hand);
  if (seen.user != user) return strf("user data %p instead of %p", seen.user, user);
  if (seen.cif != cif) return strf("cif %p instead of %p", seen.cif, cif);
  if (seen.nonce != n) return strf("arguments differ (nonce %llx, handler saw %llx)", (unsigned long long)n, (unsigned long long)seen.nonce);
  if (!ok) return "result differs";
  return "";
}
#endif
