// Random type trees and an independent model of the x86-64 System V and
// Microsoft calling conventions (written from the ABI documents, byte based).
#pragma once
#include "common.h"
#include <ffi.h>

enum K { K_VOID, K_U8, K_S8, K_U16, K_S16, K_U32, K_S32, K_U64, K_S64, K_PTR, K_F32, K_F64, K_LD,
         K_CF32, K_CF64, K_CLD, K_CI8, K_CI16, K_CI32, K_CI64, K_STRUCT, K_NUM };
static const char *const kname[] = { "void","u8","s8","u16","s16","u32","s32","u64","s64","ptr","f32","f64","ld",
         "cf32","cf64","cld","cu8","cs16","cs32","cs64","struct" };
static const unsigned ksize[] = { 1,1,1,2,2,4,4,8,8,8,4,8,16, 8,16,32, 2,4,8,16 };
static const unsigned kalign[] = { 1,1,1,2,2,4,4,8,8,8,4,8,16, 4,8,16, 1,2,4,8 };

enum LC { L_INT, L_SSE, L_X87 };
struct Leaf { u32 off; u8 n; u8 cls; };      // n = significant bytes (10 for long double)

struct Ty {
  K k = K_VOID;
  size_t size = 1, align = 1;
  bool preset = false;                        // size/alignment given to libffi instead of 0
  bool over = false;                          // alignment beyond its members' (emulated union, aligned attribute): always preset
  std::vector<Ty *> el;
  std::vector<size_t> off;                    // model offsets of members
  std::vector<Leaf> leaves;
  ffi_type *f = 0;
  std::string str() const { if (k != K_STRUCT) return kname[k]; std::string s = "{"; size_t i = 0; while (i < el.size()) { size_t j = i; while (j < el.size() && el[j] == el[i]) j++; if (i) s += ","; s += el[i]->str(); if (j - i > 1) s += "*" + std::to_string(j - i); i = j; } return s + (over ? "}@" + std::to_string(align) : "}"); }
  bool isint() const { return k >= K_U8 && k <= K_PTR; }
  bool issigned() const { return k == K_S8 || k == K_S16 || k == K_S32 || k == K_S64; }
  bool iscomplex() const { return k >= K_CF32 && k <= K_CI64; }
};

inline void scalar_leaves(K k, u32 o, std::vector<Leaf> &v) {
  switch (k) {
  case K_VOID: break;
  case K_F32: v.push_back({ o, 4, L_SSE }); break;
  case K_F64: v.push_back({ o, 8, L_SSE }); break;
  case K_LD: v.push_back({ o, 10, L_X87 }); break;
  case K_CF32: v.push_back({ o, 4, L_SSE }); v.push_back({ o + 4, 4, L_SSE }); break;
  case K_CF64: v.push_back({ o, 8, L_SSE }); v.push_back({ o + 8, 8, L_SSE }); break;
  case K_CLD: v.push_back({ o, 10, L_X87 }); v.push_back({ o + 16, 10, L_X87 }); break;
  case K_CI8: case K_CI16: case K_CI32: case K_CI64: { u8 h = ksize[k] / 2; v.push_back({ o, h, L_INT }); v.push_back({ o + h, h, L_INT }); break; }
  default: v.push_back({ o, (u8)ksize[k], L_INT });
  }
}

inline ffi_type *complex_int_type(K k);
inline ffi_type *builtin_ffi(K k) {
  switch (k) {
  case K_VOID: return &ffi_type_void; case K_U8: return &ffi_type_uint8; case K_S8: return &ffi_type_sint8;
  case K_U16: return &ffi_type_uint16; case K_S16: return &ffi_type_sint16; case K_U32: return &ffi_type_uint32;
  case K_S32: return &ffi_type_sint32; case K_U64: return &ffi_type_uint64; case K_S64: return &ffi_type_sint64;
  case K_PTR: return &ffi_type_pointer; case K_F32: return &ffi_type_float; case K_F64: return &ffi_type_double;
  case K_LD: return &ffi_type_longdouble; case K_CF32: return &ffi_type_complex_float;
  case K_CF64: return &ffi_type_complex_double; case K_CLD: return &ffi_type_complex_longdouble;
  default: return complex_int_type(k);
  }
}
inline ffi_type *complex_int_type(K k) {
  // documented way to describe other complex types
  static ffi_type *e8[2] = { &ffi_type_uint8, 0 }, *e16[2] = { &ffi_type_sint16, 0 }, *e32[2] = { &ffi_type_sint32, 0 }, *e64[2] = { &ffi_type_sint64, 0 };
  static ffi_type c8 = { 2, 1, FFI_TYPE_COMPLEX, e8 }, c16 = { 4, 2, FFI_TYPE_COMPLEX, e16 }, c32 = { 8, 4, FFI_TYPE_COMPLEX, e32 }, c64 = { 16, 8, FFI_TYPE_COMPLEX, e64 };
  switch (k) { case K_CI8: return &c8; case K_CI16: return &c16; case K_CI32: return &c32; default: return &c64; }
}

// Memory for the descriptors of one case; can be sealed read-only.
struct Arena {
  u8 *base; size_t cap, used, sealed;
  explicit Arena(size_t c) : cap(c), used(0), sealed(0) { base = (u8 *)mmap(0, c, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); if (base == MAP_FAILED) { perror("mmap"); exit(2); } }
  void *get(size_t n, size_t a = 16) { used = (used + a - 1) / a * a; void *p = base + used; used += n; if (used > cap) { fprintf(stderr, "arena exhausted\n"); exit(2); } return p; }
  void seal() { sealed = (used + 4095) & ~4095ul; if (sealed) mprotect(base, sealed, PROT_READ); }
  void reset() { if (sealed) { mprotect(base, sealed, PROT_READ | PROT_WRITE); sealed = 0; } used = 0; }
};

struct TypePool {                              // owns the Ty objects of one case
  std::vector<Ty *> all; Ty scal[K_NUM];
  TypePool() { for (int k = 0; k < K_STRUCT; k++) { scal[k].k = (K)k; scal[k].size = ksize[k]; scal[k].align = kalign[k]; scalar_leaves((K)k, 0, scal[k].leaves); scal[k].f = builtin_ffi((K)k); } }
  void reset() { for (Ty *t : all) delete t; all.clear(); }
  Ty *mk(std::vector<Ty *> el) {
    Ty *t = new Ty; all.push_back(t); t->k = K_STRUCT; t->el = el; size_t o = 0, al = 1;
    for (Ty *e : el) { o = (o + e->align - 1) / e->align * e->align; t->off.push_back(o); for (const Leaf &l : e->leaves) t->leaves.push_back({ (u32)(o + l.off), l.n, l.cls }); o += e->size; if (e->align > al) al = e->align; }
    t->align = al; t->size = (o + al - 1) / al * al; return t;
  }
  void widen(Ty *t, size_t al) { if (t->align >= al) return; t->over = true; t->align = al; t->size = (t->size + al - 1) / al * al; }
  // emit libffi descriptors (fresh objects per struct Ty) into the arena
  ffi_type *emit(Ty *t, Arena &a) {
    if (t->k != K_STRUCT) return t->f;
    if (t->f) return t->f;
    t->preset |= t->over; if (t->preset) for (Ty *e : t->el) e->preset = true;   // a preset type is not looked into, so its members must be complete
    ffi_type *f = (ffi_type *)a.get(sizeof(ffi_type));
    ffi_type **e = (ffi_type **)a.get(sizeof(ffi_type *) * (t->el.size() + 1));
    for (size_t i = 0; i < t->el.size(); i++) e[i] = emit(t->el[i], a);
    e[t->el.size()] = 0;
    f->size = t->preset ? t->size : 0; f->alignment = t->preset ? t->align : 0; f->type = FFI_TYPE_STRUCT; f->elements = e;
    return t->f = f;
  }
};

struct GenCfg { bool ld = true, cplx = true, cint = true; int depth = 3; size_t maxsize = 4096; bool big = false; bool over = false; };

inline K gen_scalar(Rng &r, const GenCfg &c) {
  for (;;) {
    static const K w[] = { K_U8,K_S8,K_U16,K_S16,K_U32,K_S32,K_U64,K_S64,K_PTR,K_F32,K_F32,K_F64,K_F64,K_LD,K_CF32,K_CF64,K_CLD,K_CI8,K_CI16,K_CI32,K_CI64,
                           K_S8,K_S16,K_S32,K_S64,K_F32,K_F64,K_U32 };
    K k = w[r.below(sizeof w / sizeof *w)];
    if ((k == K_LD || k == K_CLD) && (!c.ld || r.chance(40))) continue;
    if (k >= K_CF32 && k <= K_CLD && !c.cplx) continue;
    if (k >= K_CI8 && k <= K_CI64 && (!c.cint || !c.cplx || r.chance(50))) continue;
    return k;
  }
}
inline Ty *gen_struct(Rng &r, TypePool &p, const GenCfg &c, int depth) {
  for (int tries = 0; tries < 40; tries++) {
    std::vector<Ty *> el; int shape = (int)r.below(10), n;
    if (shape < 5) n = 1 + (int)r.below(3); else if (shape < 8) n = 1 + (int)r.below(6); else n = 1 + (int)r.below(14);
    if (shape == 9) {                         // homogeneous / array like
      Ty *e = (depth > 0 && r.chance(30)) ? gen_struct(r, p, c, depth - 1) : &p.scal[gen_scalar(r, c)];
      n = c.big && r.chance(30) ? 1 + (int)r.below(300) : 1 + (int)r.below(12);
      for (int i = 0; i < n; i++) el.push_back(e);
    } else {
      bool allfp = r.chance(20), small = r.chance(30);
      for (int i = 0; i < n; i++) {
        if (depth > 0 && r.chance(18)) el.push_back(gen_struct(r, p, c, depth - 1));
        else { K k = gen_scalar(r, c); if (allfp) k = r.chance(60) ? K_F32 : K_F64; else if (small) { static const K s[] = { K_U8,K_S8,K_U16,K_S16,K_F32,K_S32 }; k = s[r.below(6)]; } el.push_back(&p.scal[k]); }
      }
    }
    Ty *t = p.mk(el);
    if (t->size <= c.maxsize && !(t->size > 64 && r.chance(60))) { t->preset = r.chance(8); if (c.over && r.chance(6)) p.widen(t, r.chance(40) ? 16 : r.chance(70) ? 8 : 4); return t; }
  }
  return p.mk({ &p.scal[K_S32] });
}
inline Ty *gen_type(Rng &r, TypePool &p, const GenCfg &c, int pct_struct = 35) {
  if (r.chance(pct_struct)) return gen_struct(r, p, c, c.depth - 1);
  return &p.scal[gen_scalar(r, c)];
}

// ---- System V model -------------------------------------------------------
enum Cls { C_NONE, C_INT, C_SSE, C_X87, C_X87UP, C_MEM };
inline Cls merge(Cls a, Cls b) {
  if (a == b) return a; if (a == C_NONE) return b; if (b == C_NONE) return a;
  if (a == C_MEM || b == C_MEM) return C_MEM; if (a == C_INT || b == C_INT) return C_INT;
  if (a == C_X87 || a == C_X87UP || b == C_X87 || b == C_X87UP) return C_MEM; return C_SSE;
}
// number of eightbytes, 0 = MEMORY
inline int sysv_classify(const Ty *t, Cls c[2]) {
  c[0] = c[1] = C_NONE;
  if (t->size > 16) return 0;
  for (const Leaf &l : t->leaves) {
    int e = l.off / 8;
    if (l.cls == L_X87) { c[e] = merge(c[e], C_X87); if (e < 1) c[e + 1] = merge(c[e + 1], C_X87UP); }
    else c[e] = merge(c[e], l.cls == L_INT ? C_INT : C_SSE);
  }
  int n = (int)((t->size + 7) / 8);
  for (int i = 0; i < n; i++) if (c[i] == C_MEM) return 0;
  if (n == 2 && c[1] == C_X87UP && c[0] != C_X87) return 0;
  return n;
}
struct Part { char kind; int idx; u32 src, n; };      // 'g' gpr ordinal, 'x' xmm ordinal, 's' stack offset
struct ArgLoc { std::vector<Part> parts; bool mem; };
struct Layout { std::vector<ArgLoc> args; size_t stack; int ngpr, nsse; bool hidden; };
inline bool sysv_ret_hidden(const Ty *t) { if (t->k == K_VOID) return false; if (t->k == K_CLD) return false; Cls c[2]; return sysv_classify(t, c) == 0; }
inline Layout sysv_layout(const Ty *ret, const std::vector<Ty *> &args) {
  Layout L; L.stack = 0; L.ngpr = L.nsse = 0; L.hidden = sysv_ret_hidden(ret);
  if (L.hidden) L.ngpr++;
  for (Ty *t : args) {
    ArgLoc a; a.mem = false; Cls c[2]; int n = sysv_classify(t, c), g = 0, s = 0; bool x87 = false;
    for (int i = 0; i < n; i++) { if (c[i] == C_INT) g++; else if (c[i] == C_SSE) s++; else if (c[i] != C_NONE) x87 = true; }
    if (n == 0 || x87 || L.ngpr + g > 6 || L.nsse + s > 8) {
      size_t al = t->align < 8 ? 8 : t->align; L.stack = (L.stack + al - 1) / al * al;
      a.mem = true; a.parts.push_back({ 's', (int)L.stack, 0, (u32)t->size }); L.stack += (t->size + 7) & ~7ul;
    } else for (int i = 0; i < n; i++) {
      u32 m = (u32)(t->size - 8 * i > 8 ? 8 : t->size - 8 * i);
      if (c[i] == C_INT) a.parts.push_back({ 'g', L.ngpr++, (u32)(8 * i), m });
      else if (c[i] == C_SSE) a.parts.push_back({ 'x', L.nsse++, (u32)(8 * i), m });
    }
    L.args.push_back(a);
  }
  return L;
}
// ---- Microsoft model ------------------------------------------------------
inline bool ms_by_value(const Ty *t) { return t->size == 1 || t->size == 2 || t->size == 4 || t->size == 8; }
inline bool ms_ret_hidden(const Ty *t) { return t->k != K_VOID && !ms_by_value(t); }
