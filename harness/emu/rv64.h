// RISC-V, RV64 or RV32 IMFD, of whatever calling convention the program declares
struct Cpu : Machine<Cpu> {
  u64 x[32] = {}, f[32] = {}, fmask = 0; u32 fcsr = 0; bool b32 = false;   // fmask: of f registers, what is preserved
  static constexpr const char *name = "riscv"; static constexpr int spalign = 16;
  u64 sp() { return x[2]; } void setsp(u64 v) { x[2] = v; }
  u64 xl(u64 v) { return b32 ? (u64)(i64)(i32)v : v; }
  u64 arg(int i) { if (i >= 8) return peekp(x[2] + (i - 8) * bits / 8); return b32 ? (u32)x[10 + i] : x[10 + i]; } void setarg(int i, u64 v) { x[10 + i] = xl(v); } u64 result() { return arg(0); } void setresult(u64 v) { x[10] = xl(v); }
  u64 chain() { return x[7]; } u64 sret() { return x[10]; } void setchain(u64 v) { x[7] = v; }
  void setra(u64 v) { x[1] = v; } u64 ra() { return x[1]; } void enter(u64) {} void init() { b32 = bits == 32; int k = eflags >> 1 & 3; fmask = k == 2 ? ~0ull : k == 1 ? 0xffffffff : 0; if (k == 3) lacking("quad float ABI"); } void stats() {} void hostreturn() { pc = x[1]; returned(); }
  void save(Frame &s) { int k = 0; for (int i = 0; i < 32; i++) if (i == 3 || i == 4 || i == 8 || i == 9 || i >= 18 && i < 28) s.saved[k++] = x[i]; for (int i = 0; i < 32; i++) if (i == 8 || i == 9 || i >= 18 && i < 28) s.saved[k++] = f[i] & fmask; s.saved[k++] = fcsr & ~31; }
  void check(Frame &s) { Frame n; save(n); int k = 0; for (int i = 0; i < 32; i++) if (i == 3 || i == 4 || i == 8 || i == 9 || i >= 18 && i < 28) { if (n.saved[k] != s.saved[k]) viol("callee-saved", "%s returns with x%d %lx, called with %lx", where(s.target).c_str(), i, (long)n.saved[k], (long)s.saved[k]); k++; }
    for (int i = 0; i < 32; i++) if (i == 8 || i == 9 || i >= 18 && i < 28) { if (n.saved[k] != s.saved[k]) viol("callee-saved", "%s returns with f%d %lx, called with %lx", where(s.target).c_str(), i, (long)n.saved[k], (long)s.saved[k]); k++; } if (n.saved[k] != s.saved[k]) viol("float-control", "%s changes the rounding mode", where(s.target).c_str()); }
  void clobber_in() { for (int i : { 5, 6, 28, 29, 30, 31 }) x[i] = xl(junk()); for (int i = 0; i < 8; i++) f[i] = junk(), f[i < 4 ? 28 + i : i] = junk(); if (!fmask) for (u64 &q : f) q = junk(); }
  void clobber_out(u64) { for (int i : { 5, 6, 7, 12, 13, 14, 15, 16, 17, 28, 29, 30, 31 }) x[i] = xl(junk()); for (int i = 0; i < 32; i++) { if (i == 10 || i == 11) continue; u64 m = i == 8 || i == 9 || i >= 18 && i < 28 ? fmask : 0; f[i] = m == 0xffffffff ? f[i] | ~m : f[i] & m | junk() & ~m; } }
  void scramble() { for (int i = 5; i < 32; i++) x[i] = xl(junk()); for (int i = 0; i < 32; i++) f[i] = junk(); }
  void garbage(int) {}     // results and arguments are extended to full registers
  static float unbox(u64 v) { return v >> 32 == 0xffffffffu ? asf<float>((u32)v) : NAN; } static u64 box(float v) { return 0xffffffff00000000ull | (u32)asu(v); }
  template <class T> static T rm(T v, int m) { return m == 1 ? trunc(v) : m == 2 ? floor(v) : m == 3 ? ceil(v) : m == 4 ? round(v) : nearbyint(v); }
  void step(u32 w) {
    u64 npc = pc + 4; int op = w & 127, rd = w >> 7 & 31, r1 = w >> 15 & 31, r2 = w >> 20 & 31, f3 = w >> 12 & 7, f7 = w >> 25; i64 iI = (i32)w >> 20, iS = ((i32)w >> 25 << 5) | rd; u64 a = x[r1], b = x[r2], v;
    auto bad = [&] { if (!w || w == 0xffffffff) viol("crash-illegal-instruction", "at %s", where(pc).c_str()); unknown(w, pc); };
    auto set = [&](u64 z) { if (rd) x[rd] = xl(z); };
    auto ad = [&](u64 z) { return b32 ? (u64)(u32)z : z; };
    switch (op) {
    case 0x37: set((i64)(i32)(w & 0xfffff000)); break;
    case 0x17: set(pc + (i64)(i32)(w & 0xfffff000)); break;
    case 0x6f: { i64 o = sx((w >> 31) << 20 | (w >> 12 & 255) << 12 | (w >> 20 & 1) << 11 | (w >> 21 & 1023) << 1, 21); pc += o; if (rd) { x[rd] = xl(npc); if (rd != 1) unknown(w, pc); called(npc); } return; }
    case 0x67: { u64 t = ad(a + iI) & ~1ull; pc = t; if (rd) { x[rd] = xl(npc); if (rd != 1) unknown(w, pc); called(npc); } else if (r1 == 1) returned(); else jumped(); return; }
    case 0x63: { i64 o = sx((w >> 31) << 12 | (w >> 7 & 1) << 11 | (w >> 25 & 63) << 5 | (w >> 8 & 15) << 1, 13); bool t; switch (f3) { case 0: t = a == b; break; case 1: t = a != b; break; case 4: t = (i64)a < (i64)b; break; case 5: t = (i64)a >= (i64)b; break; case 6: t = a < b; break; case 7: t = a >= b; break; default: bad(); } if (t) npc = pc + o; break; }
    case 0x03: { u64 p = ad(a + iI); switch (f3) { case 0: set((i64)ld<i8>(p)); break; case 1: set((i64)ld<i16>(p)); break; case 2: set((i64)ld<i32>(p)); break; case 3: set(ld<u64>(p)); break; case 4: set(ld<u8>(p)); break; case 5: set(ld<u16>(p)); break; case 6: set(ld<u32>(p)); break; default: bad(); } break; }
    case 0x23: { u64 p = ad(a + iS); switch (f3) { case 0: st<u8>(p, b); break; case 1: st<u16>(p, b); break; case 2: st<u32>(p, b); break; case 3: st<u64>(p, b); break; default: bad(); } break; }
    case 0x07: { u64 p = ad(a + iI); if (f3 == 2) f[rd] = 0xffffffff00000000ull | ld<u32>(p); else if (f3 == 3) f[rd] = ld<u64>(p); else bad(); break; }
    case 0x27: { u64 p = ad(a + iS); if (f3 == 2) st<u32>(p, f[r2]); else if (f3 == 3) st<u64>(p, f[r2]); else bad(); break; }
    case 0x13: { int sh = w >> 20 & (b32 ? 31 : 63); switch (f3) { case 0: v = a + iI; break; case 1: v = a << sh; break; case 2: v = (i64)a < iI; break; case 3: v = a < (u64)iI; break; case 4: v = a ^ iI; break; case 5: v = w >> 30 & 1 ? (u64)((i64)a >> sh) : b32 ? (u64)((u32)a >> sh) : a >> sh; break; case 6: v = a | iI; break; default: v = a & iI; } set(v); break; }
    case 0x1b: { int sh = r2; switch (f3) { case 0: set((i64)(i32)(a + iI)); break; case 1: set((i64)(i32)((u32)a << sh)); break; case 5: set(w >> 30 & 1 ? (i64)((i32)a >> sh) : (i64)(i32)((u32)a >> sh)); break; default: bad(); } break; }
    case 0x33: if (f7 == 1) { if (b32) { i64 p = (i64)(i32)a, q = (i64)(i32)b; u32 ua = a, ub = b; switch (f3) { case 0: v = p * q; break; case 1: v = p * q >> 32; break; case 2: v = (i64)(p * (i64)ub) >> 32; break; case 3: v = (u64)ua * ub >> 32; break; case 4: v = q ? (q == -1 ? -p : p / q) : -1; break; case 5: v = ub ? ua / ub : ~0ull; break; case 6: v = q ? (q == -1 ? 0 : p % q) : p; break; default: v = ub ? ua % ub : ua; } }
        else switch (f3) { case 0: v = a * b; break; case 1: v = (u64)((__int128)(i64)a * (i64)b >> 64); break; case 3: v = (u64)((u128)a * b >> 64); break; case 2: v = (u64)((__int128)(i64)a * (__int128)b >> 64); break; case 4: v = b ? ((i64)b == -1 ? -a : (u64)((i64)a / (i64)b)) : ~0ull; break; case 5: v = b ? a / b : ~0ull; break; case 6: v = b ? ((i64)b == -1 ? 0 : (u64)((i64)a % (i64)b)) : a; break; default: v = b ? a % b : a; } }
      else { int sh = b & (b32 ? 31 : 63); switch (f3) { case 0: v = f7 == 32 ? a - b : a + b; break; case 1: v = a << sh; break; case 2: v = (i64)a < (i64)b; break; case 3: v = a < b; break; case 4: v = a ^ b; break; case 5: v = f7 == 32 ? (u64)((i64)a >> sh) : b32 ? (u64)((u32)a >> sh) : a >> sh; break; case 6: v = a | b; break; default: v = a & b; } if (f7 && f7 != 32) bad(); } set(v); break;
    case 0x3b: { i32 p = a, q = b; u32 up = a, uq = b; if (f7 == 1) switch (f3) { case 0: v = (i64)(i32)(up * uq); break; case 4: v = q ? q == -1 ? (i64)(i32)-up : (i64)(p / q) : ~0ull; break; case 5: v = uq ? (i64)(i32)(up / uq) : ~0ull; break; case 6: v = q ? q == -1 ? 0 : (i64)(p % q) : (i64)p; break; case 7: v = (i64)(i32)(uq ? up % uq : up); break; default: bad(); }
      else switch (f3) { case 0: v = (i64)(i32)(f7 == 32 ? up - uq : up + uq); break; case 1: v = (i64)(i32)(up << (q & 31)); break; case 5: v = f7 == 32 ? (i64)(p >> (q & 31)) : (i64)(i32)(up >> (q & 31)); break; default: bad(); } set(v); break; }
    case 0x0f: break;
    case 0x73: if (f3 == 1 || f3 == 2 || f3 == 3 || f3 >= 5) { int n = w >> 20; if (n < 1 || n > 3) bad(); u32 old = n == 1 ? fcsr & 31 : n == 2 ? fcsr >> 5 & 7 : fcsr, src = f3 >= 5 ? r1 : (u32)a, nw = (f3 & 3) == 1 ? src : (f3 & 3) == 2 ? old | src : old & ~src; if ((f3 & 3) == 1 || r1) { if (n == 1) fcsr = fcsr & ~31 | nw & 31; else if (n == 2) fcsr = fcsr & ~0xe0 | (nw & 7) << 5; else fcsr = nw & 255; } set(old); } else if (w == 0x00100073) viol("crash-trap", "ebreak at %s", where(pc).c_str()); else bad(); break;
    case 0x53: { double d1 = asf<double>(f[r1]), d2 = asf<double>(f[r2]); float s1 = unbox(f[r1]), s2 = unbox(f[r2]); bool d = f7 & 1; auto fd = [&](double z) { f[rd] = asu(z); }; auto fs = [&](float z) { f[rd] = box(z); };
      switch (f7 >> 2) {
      case 0: d ? fd(d1 + d2) : fs(s1 + s2); break; case 1: d ? fd(d1 - d2) : fs(s1 - s2); break; case 2: d ? fd(d1 * d2) : fs(s1 * s2); break; case 3: d ? fd(d1 / d2) : fs(s1 / s2); break;
      case 4: { u64 m = d ? 1ull << 63 : 1u << 31, p = d ? f[r1] : f[r1] >> 32 == 0xffffffff ? (u32)f[r1] : 0x7fc00000, q = d ? f[r2] : f[r2] >> 32 == 0xffffffff ? (u32)f[r2] : 0x7fc00000; u64 sg = f3 == 0 ? q & m : f3 == 1 ? ~q & m : (p ^ q) & m; f[rd] = (p & (m - 1)) | sg | (d ? 0 : 0xffffffff00000000ull); break; }
      case 8: if (d) fd(s1); else fs(d1); break;
      case 0x14: { bool t = f3 == 2 ? d ? d1 == d2 : s1 == s2 : f3 == 1 ? d ? d1 < d2 : s1 < s2 : d ? d1 <= d2 : s1 <= s2; set(t); break; }
      case 0x18: { double q = d ? d1 : s1; int m = f3 == 7 ? fcsr >> 5 & 7 : f3; q = rm(q, m); switch (r2) { case 0: v = (i64)sat<i32>(q); break; case 1: v = (i64)(i32)sat<u32>(q); break; case 2: v = sat<i64>(q); break; default: v = sat<u64>(q); } set(v); break; }
      case 0x1a: { switch (r2) { case 0: d ? fd((i32)a) : fs((i32)a); break; case 1: d ? fd((u32)a) : fs((u32)a); break; case 2: d ? fd((i64)a) : fs((i64)a); break; default: d ? fd(a) : fs(a); } break; }
      case 0x1c: if (f3 == 0) set(d ? f[r1] : (u64)(i64)(i32)f[r1]); else bad(); break;
      case 0x1e: f[rd] = d ? a : 0xffffffff00000000ull | (u32)a; break;
      default: bad(); } break; }
    case 0x43: case 0x47: case 0x4b: case 0x4f: { int r3 = w >> 27; if (f7 & 1) { double p = asf<double>(f[r1]), q = asf<double>(f[r2]), s = asf<double>(f[r3]); f[rd] = asu(op == 0x43 ? fma(p, q, s) : op == 0x47 ? fma(p, q, -s) : op == 0x4b ? fma(-p, q, s) : fma(-p, q, -s)); } else { float p = unbox(f[r1]), q = unbox(f[r2]), s = unbox(f[r3]); f[rd] = box(op == 0x43 ? fmaf(p, q, s) : op == 0x47 ? fmaf(p, q, -s) : op == 0x4b ? fmaf(-p, q, s) : fmaf(-p, q, -s)); } break; }
    default: bad();
    }
    pc = npc;
  }
};
