// LoongArch64 with single and double floating point, of whatever calling convention the program declares
struct Cpu : Machine<Cpu> {
  u64 x[32] = {}, f[32] = {}, fmask = 0; u32 fcsr = 0; u8 cc[8] = {};   // fmask: of f registers, what is preserved
  static constexpr const char *name = "loongarch"; static constexpr int spalign = 16;
  u64 sp() { return x[3]; } void setsp(u64 v) { x[3] = v; }
  u64 arg(int i) { return i >= 8 ? peek<u64>(x[3] + (i - 8) * 8) : x[4 + i]; } void setarg(int i, u64 v) { x[4 + i] = v; } u64 result() { return x[4]; } void setresult(u64 v) { x[4] = v; }
  u64 chain() { return x[14]; } u64 sret() { return x[4]; } void setchain(u64 v) { x[14] = v; }
  void setra(u64 v) { x[1] = v; } u64 ra() { return x[1]; } void enter(u64) {} void init() { int k = eflags & 7; fmask = k == 3 ? ~0ull : k == 2 ? 0xffffffff : 0; if (k < 1 || k > 3) lacking("ABI %x", eflags); } void stats() {} void hostreturn() { pc = x[1]; returned(); }
  static bool kept(int i) { return i == 2 || i == 21 || i >= 22; }
  void save(Frame &s) { int k = 0; for (int i = 0; i < 32; i++) if (kept(i)) s.saved[k++] = x[i]; for (int i = 24; i < 32; i++) s.saved[k++] = f[i] & fmask; s.saved[k++] = fcsr & 0x300; }
  void check(Frame &s) { Frame n; save(n); int k = 0; for (int i = 0; i < 32; i++) if (kept(i)) { if (n.saved[k] != s.saved[k]) viol("callee-saved", "%s returns with r%d %lx, called with %lx", where(s.target).c_str(), i, (long)n.saved[k], (long)s.saved[k]); k++; }
    for (int i = 24; i < 32; i++, k++) if (n.saved[k] != s.saved[k]) viol("callee-saved", "%s returns with f%d %lx, called with %lx", where(s.target).c_str(), i, (long)n.saved[k], (long)s.saved[k]); if (n.saved[k] != s.saved[k]) viol("float-control", "%s changes the rounding mode", where(s.target).c_str()); }
  void clobber_in() { for (int i = 12; i < 21; i++) if (i != 14) x[i] = junk(); for (int i = 8; i < 24; i++) f[i] = junk(); for (u8 &q : cc) q = junk() & 1; if (!fmask) for (u64 &q : f) q = junk(); }
  void clobber_out(u64) { for (int i = 6; i < 21; i++) x[i] = junk(); for (int i = 2; i < 32; i++) { u64 m = i >= 24 ? fmask : 0; f[i] = f[i] & m | junk() & ~m; } for (u8 &q : cc) q = junk() & 1; }
  void scramble() { for (int i = 4; i < 32; i++) x[i] = junk(); for (u64 &q : f) q = junk(); }
  void garbage(int) {}     // results and arguments are extended to full registers
  static float S(u64 v) { return asf<float>((u32)v); } u64 B(float v) { return junk() << 32 | (u32)asu(v); } u64 B32(u32 v) { return junk() << 32 | v; }
  template <class T> static T rnd(T v, int m) { return m == 1 ? trunc(v) : m == 2 ? ceil(v) : m == 3 ? floor(v) : nearbyint(v); }
  void step(u32 w) {
    u64 npc = pc + 4; int rd = w & 31, rj = w >> 5 & 31, rk = w >> 10 & 31, ra = w >> 15 & 31; i64 i12 = sx(w >> 10 & 4095, 12), i20 = sx(w >> 5 & 0xfffff, 20), o16 = sx(w >> 10 & 0xffff, 16), i14 = sx(w >> 10 & 0x3fff, 14); u64 u12 = w >> 10 & 4095, a = x[rj], b = x[rk], v;
    auto bad = [&] { if (!w || w == 0xffffffff) viol("crash-illegal-instruction", "at %s", where(pc).c_str()); unknown(w, pc); };
    auto set = [&](u64 z) { if (rd) x[rd] = z; }; auto setw = [&](u64 z) { if (rd) x[rd] = (i64)(i32)z; };
    // branches
    switch (w >> 26) {
    case 0x10: case 0x11: if (!a == (w >> 26 == 0x10)) npc = pc + sx((w & 31) << 16 | (w >> 10 & 0xffff), 21) * 4; pc = npc; return;
    case 0x12: if ((w >> 8 & 3) > 1) bad(); if (cc[w >> 5 & 7] == (w >> 8 & 1)) npc = pc + sx((w & 31) << 16 | (w >> 10 & 0xffff), 21) * 4; pc = npc; return;
    case 0x13: pc = a + o16 * 4; if (rd) { x[rd] = npc; if (rd != 1) unknown(w, pc); called(npc); } else if (rj == 1) returned(); else jumped(); return;
    case 0x14: case 0x15: { i64 o = sx((u64)(w & 1023) << 16 | (w >> 10 & 0xffff), 26) * 4; pc += o; if (w >> 26 & 1) { x[1] = npc; called(npc); } return; }
    case 0x16: case 0x17: case 0x18: case 0x19: case 0x1a: case 0x1b: { u64 d = x[rd]; bool t; switch (w >> 26) { case 0x16: t = a == d; break; case 0x17: t = a != d; break; case 0x18: t = (i64)a < (i64)d; break; case 0x19: t = (i64)a >= (i64)d; break; case 0x1a: t = a < d; break; default: t = a >= d; } if (t) npc = pc + o16 * 4; pc = npc; return; }
    case 0x04: set(a + (u64)(o16 << 16)); pc = npc; return;
    }
    pc = npc; auto back = [&] { pc = npc - 4; }; back();
    switch (w >> 25) { case 0x0a: set(i20 << 12); pc = npc; return; case 0x0b: set((u64)i20 << 32 | (u32)x[rd]); pc = npc; return; case 0x0c: set(pc + i20 * 4); pc = npc; return; case 0x0d: set((pc + (i20 << 12)) & ~4095ull); pc = npc; return; case 0x0e: set(pc + (i20 << 12)); pc = npc; return; case 0x0f: set(pc + (i20 << 18)); pc = npc; return; }
    switch (w >> 24) { case 0x24: set((i64)ld<i32>(a + i14 * 4)); pc = npc; return; case 0x25: st<u32>(a + i14 * 4, x[rd]); pc = npc; return; case 0x26: set(ld<u64>(a + i14 * 4)); pc = npc; return; case 0x27: st<u64>(a + i14 * 4, x[rd]); pc = npc; return;
      case 0x20: set((i64)ld<i32>(a + i14 * 4)); pc = npc; return; case 0x21: st<u32>(a + i14 * 4, x[rd]); set(1); pc = npc; return; case 0x22: set(ld<u64>(a + i14 * 4)); pc = npc; return; case 0x23: st<u64>(a + i14 * 4, x[rd]); set(1); pc = npc; return; }
    bool done = true;
    switch (w >> 22) {
    case 0x008: set((i64)a < i12); break; case 0x009: set(a < (u64)i12); break; case 0x00a: setw(a + i12); break; case 0x00b: set(a + i12); break; case 0x00c: set(a & 0xfffffffffffffull | (u64)i12 << 52); break; case 0x00d: set(a & u12); break; case 0x00e: set(a | u12); break; case 0x00f: set(a ^ u12); break;
    case 0x0a0: set((i64)ld<i8>(a + i12)); break; case 0x0a1: set((i64)ld<i16>(a + i12)); break; case 0x0a2: set((i64)ld<i32>(a + i12)); break; case 0x0a3: set(ld<u64>(a + i12)); break; case 0x0a4: st<u8>(a + i12, x[rd]); break; case 0x0a5: st<u16>(a + i12, x[rd]); break; case 0x0a6: st<u32>(a + i12, x[rd]); break; case 0x0a7: st<u64>(a + i12, x[rd]); break;
    case 0x0a8: set(ld<u8>(a + i12)); break; case 0x0a9: set(ld<u16>(a + i12)); break; case 0x0aa: set(ld<u32>(a + i12)); break; case 0x0ab: break; case 0x0ac: f[rd] = B32(ld<u32>(a + i12)); break; case 0x0ad: st<u32>(a + i12, f[rd]); break; case 0x0ae: f[rd] = ld<u64>(a + i12); break; case 0x0af: st<u64>(a + i12, f[rd]); break;
    case 0x002: case 0x003: { int ms = w >> 16 & 63, ls = w >> 10 & 63, n = ms - ls + 1; if (n < 1) bad(); u64 m = n == 64 ? ~0ull : (1ull << n) - 1; set(w >> 22 & 1 ? a >> ls & m : x[rd] & ~(m << ls) | (a & m) << ls); break; }
    default: done = false; }
    if (done) { pc = npc; return; } done = true;
    if (w >> 21 == 3) { int ms = w >> 16 & 31, ls = w >> 10 & 31, n = ms - ls + 1; if (n < 1) bad(); u64 m = (1ull << n) - 1; setw(w >> 15 & 1 ? (u32)a >> ls & m : x[rd] & ~(m << ls) | (a & m) << ls); pc = npc; return; }
    switch (w >> 20) {
    case 0x0c1: case 0x0c2: { bool d = w >> 21 & 1; double p = d ? asf<double>(f[rj]) : S(f[rj]), q = d ? asf<double>(f[rk]) : S(f[rk]); bool un = std::isnan(p) || std::isnan(q); int c = ra, r = 0; if (c & 2) r |= p < q; if (c & 4) r |= p == q; if (c & 8) r |= un; if (c & 16) { r = 0; if ((c & 30) == 0x10) r = p < q || p > q; else if ((c & 30) == 0x14) r = !un; else if ((c & 30) == 0x18) r = un || p != q; else bad(); } cc[rd & 7] = r; break; }
    case 0x081: case 0x082: case 0x085: case 0x086: case 0x089: case 0x08a: case 0x08d: case 0x08e: { int o = (w >> 22 & 3), ad = ra; if (w >> 21 & 1) { double p = asf<double>(f[rj]), q = asf<double>(f[rk]), s = asf<double>(f[ad]), r = o & 1 ? fma(p, q, -s) : fma(p, q, s); f[rd] = asu(o & 2 ? -r : r); } else { float p = S(f[rj]), q = S(f[rk]), s = S(f[ad]), r = o & 1 ? fmaf(p, q, -s) : fmaf(p, q, s); f[rd] = B(o & 2 ? -r : r); } break; }
    default: done = false; }
    if (done) { pc = npc; return; } done = true;
    if (w >> 18 == 0x340) { f[rd] = cc[w >> 15 & 7] ? f[rk] : f[rj]; pc = npc; return; }
    if (w >> 18 == 3) { int s = 8 * (w >> 15 & 7); set(s ? b << s | a >> (64 - s) : b); pc = npc; return; }
    switch (w >> 17) { case 2: setw((a << ((w >> 15 & 3) + 1)) + b); pc = npc; return; case 3: set((u32)((a << ((w >> 15 & 3) + 1)) + b)); pc = npc; return; case 4: { int s = 8 * (w >> 15 & 3); setw(s ? (u32)b << s | (u32)a >> (32 - s) : b); pc = npc; return; } case 0x16: set((a << ((w >> 15 & 3) + 1)) + b); pc = npc; return; }
    switch (w >> 16) { int s; case 0x41: s = w >> 10 & 63; set(a << s); pc = npc; return; case 0x45: s = w >> 10 & 63; set(a >> s); pc = npc; return; case 0x49: s = w >> 10 & 63; set((u64)((i64)a >> s)); pc = npc; return; case 0x4d: s = w >> 10 & 63; set(s ? a >> s | a << (64 - s) : a); pc = npc; return; }
    double d1 = asf<double>(f[rj]), d2 = asf<double>(f[rk]); float s1 = S(f[rj]), s2 = S(f[rk]); auto fd = [&](double z) { f[rd] = asu(z); }; auto fs = [&](float z) { f[rd] = B(z); };
    switch (w >> 15) {
    case 0x20: setw(a + b); break; case 0x21: set(a + b); break; case 0x22: setw(a - b); break; case 0x23: set(a - b); break; case 0x24: set((i64)a < (i64)b); break; case 0x25: set(a < b); break; case 0x26: set(b ? a : 0); break; case 0x27: set(b ? 0 : a); break;
    case 0x28: set(~(a | b)); break; case 0x29: set(a & b); break; case 0x2a: set(a | b); break; case 0x2b: set(a ^ b); break; case 0x2c: set(a | ~b); break; case 0x2d: set(a & ~b); break;
    case 0x2e: setw((u32)a << (b & 31)); break; case 0x2f: setw((u32)a >> (b & 31)); break; case 0x30: setw((i32)a >> (b & 31)); break; case 0x31: set(a << (b & 63)); break; case 0x32: set(a >> (b & 63)); break; case 0x33: set((u64)((i64)a >> (b & 63))); break; case 0x36: { int s = b & 31; setw(s ? (u32)a >> s | (u32)a << (32 - s) : a); break; } case 0x37: { int s = b & 63; set(s ? a >> s | a << (64 - s) : a); break; }
    case 0x38: setw((u32)a * (u32)b); break; case 0x39: setw((u64)((i64)(i32)a * (i64)(i32)b) >> 32); break; case 0x3a: setw((u64)(u32)a * (u32)b >> 32); break; case 0x3b: set(a * b); break; case 0x3c: set((u64)((__int128)(i64)a * (i64)b >> 64)); break; case 0x3d: set((u64)((u128)a * b >> 64)); break; case 0x3e: set((u64)((i64)(i32)a * (i64)(i32)b)); break; case 0x3f: set((u64)(u32)a * (u32)b); break;
    case 0x40: setw((i32)b ? (i32)b == -1 ? -(u32)a : (u32)((i32)a / (i32)b) : 0); break; case 0x41: setw((i32)b ? (i32)b == -1 ? 0 : (u32)((i32)a % (i32)b) : 0); break; case 0x42: setw((u32)b ? (u32)a / (u32)b : 0); break; case 0x43: setw((u32)b ? (u32)a % (u32)b : 0); break;
    case 0x44: set(b ? (i64)b == -1 ? -a : (u64)((i64)a / (i64)b) : 0); break; case 0x45: set(b ? (i64)b == -1 ? 0 : (u64)((i64)a % (i64)b) : 0); break; case 0x46: set(b ? a / b : 0); break; case 0x47: set(b ? a % b : 0); break;
    case 0x54: viol("crash-trap", "break at %s", where(pc).c_str()); break;
    case 0x81: setw((u32)a << rk); break; case 0x89: setw((u32)a >> rk); break; case 0x91: setw((i32)a >> rk); break; case 0x99: setw(rk ? (u32)a >> rk | (u32)a << (32 - rk) : a); break;
    case 0x7000: set((i64)ld<i8>(a + b)); break; case 0x7008: set((i64)ld<i16>(a + b)); break; case 0x7010: set((i64)ld<i32>(a + b)); break; case 0x7018: set(ld<u64>(a + b)); break; case 0x7020: st<u8>(a + b, x[rd]); break; case 0x7028: st<u16>(a + b, x[rd]); break; case 0x7030: st<u32>(a + b, x[rd]); break; case 0x7038: st<u64>(a + b, x[rd]); break;
    case 0x7040: set(ld<u8>(a + b)); break; case 0x7048: set(ld<u16>(a + b)); break; case 0x7050: set(ld<u32>(a + b)); break; case 0x7060: f[rd] = B32(ld<u32>(a + b)); break; case 0x7068: f[rd] = ld<u64>(a + b); break; case 0x7070: st<u32>(a + b, f[rd]); break; case 0x7078: st<u64>(a + b, f[rd]); break;
#define AMO(T, E) { T o = ld<T>(a); T m = x[rk]; (void)m; st<T>(a, E); set((i64)o); break; }
    case 0x70c0: case 0x70d2: AMO(i32, m) case 0x70c1: case 0x70d3: AMO(i64, m) case 0x70c2: case 0x70d4: AMO(i32, o + m) case 0x70c3: case 0x70d5: AMO(i64, o + m) case 0x70c4: case 0x70d6: AMO(i32, o & m) case 0x70c5: case 0x70d7: AMO(i64, o & m) case 0x70c6: case 0x70d8: AMO(i32, o | m) case 0x70c7: case 0x70d9: AMO(i64, o | m) case 0x70c8: case 0x70da: AMO(i32, o ^ m) case 0x70c9: case 0x70db: AMO(i64, o ^ m)
    case 0x70e4: break; case 0x70e5: break;
    case 0x201: fs(s1 + s2); break; case 0x202: fd(d1 + d2); break; case 0x205: fs(s1 - s2); break; case 0x206: fd(d1 - d2); break; case 0x209: fs(s1 * s2); break; case 0x20a: fd(d1 * d2); break; case 0x20d: fs(s1 / s2); break; case 0x20e: fd(d1 / d2); break; case 0x225: f[rd] = B32((u32)f[rj] & 0x7fffffff | (u32)f[rk] & 0x80000000); break; case 0x226: f[rd] = f[rj] & ~(1ull << 63) | f[rk] & 1ull << 63; break;
    default: done = false; }
    if (done) { pc = npc; return; }
    auto clz = [](u64 q, int n) { int k = 0; while (k < n && !(q >> (n - 1 - k) & 1)) k++; return k; }; auto ctz = [](u64 q, int n) { int k = 0; while (k < n && !(q >> k & 1)) k++; return k; };
    switch (w >> 10) {
    case 0x04: set(clz(~a, 32)); break; case 0x05: set(clz(a, 32)); break; case 0x06: set(ctz(~a, 32)); break; case 0x07: set(ctz(a, 32)); break; case 0x08: set(clz(~a, 64)); break; case 0x09: set(clz(a, 64)); break; case 0x0a: set(ctz(~a, 64)); break; case 0x0b: set(ctz(a, 64)); break;
    case 0x0c: setw(((u32)a >> 8 & 0xff00ff) | ((u32)a & 0xff00ff) << 8); break; case 0x0d: set((a >> 8 & 0xff00ff00ff00ffull) | (a & 0xff00ff00ff00ffull) << 8); break; case 0x0e: v = __builtin_bswap64(a); set(v >> 32 | v << 32); break; case 0x0f: set(__builtin_bswap64(a)); break;
    case 0x10: set((a >> 16 & 0xffff0000ffffull) | (a & 0xffff0000ffffull) << 16); break; case 0x11: v = (a >> 16 & 0xffff0000ffffull) | (a & 0xffff0000ffffull) << 16; set(v >> 32 | v << 32); break; case 0x16: set((i64)(i16)a); break; case 0x17: set((i64)(i8)a); break;
    case 0x4501: f[rd] = B32((u32)f[rj] & 0x7fffffff); break; case 0x4502: f[rd] = f[rj] & ~(1ull << 63); break; case 0x4505: f[rd] = B32((u32)f[rj] ^ 0x80000000); break; case 0x4506: f[rd] = f[rj] ^ 1ull << 63; break; case 0x4511: fs(sqrtf(s1)); break; case 0x4512: fd(sqrt(d1)); break; case 0x4525: f[rd] = B32(f[rj]); break; case 0x4526: f[rd] = f[rj]; break;
    case 0x4529: f[rd] = B32(a); break; case 0x452a: f[rd] = a; break; case 0x452b: f[rd] = (u32)f[rd] | a << 32; break; case 0x452d: setw(f[rj]); break; case 0x452e: set(f[rj]); break; case 0x452f: setw(f[rj] >> 32); break; case 0x4530: if (rd) bad(); fcsr = a; break; case 0x4532: if (rj) bad(); set(fcsr); break; case 0x4534: cc[rd & 7] = f[rj] & 1; break; case 0x4535: f[rd] = cc[rj & 7]; break; case 0x4536: cc[rd & 7] = a & 1; break; case 0x4537: set(cc[rj & 7]); break;
    case 0x4646: fs(d1); break; case 0x4649: fd(s1); break;
    case 0x4744: fs((i32)f[rj]); break; case 0x4746: fs((i64)f[rj]); break; case 0x4748: fd((i32)f[rj]); break; case 0x474a: fd((i64)f[rj]); break;
    default: { int g = w >> 10, o = (g >> 4) & 15; if ((g & ~0xff) != 0x4600 || (g & 15) != 1 && (g & 15) != 2 && (g & 15) != 9 && (g & 15) != 10 || o != 8 && o != 9 && o != 10 && o != 11 && o != 12) { bad(); } int m = o == 8 ? 3 : o == 9 ? 2 : o == 10 ? 1 : o == 11 ? 0 : fcsr >> 8 & 3; double q = rnd((g & 3) == 2 ? d1 : (double)s1, m); if (g & 8) f[rd] = sat<i64>(q); else f[rd] = B32(sat<i32>(q)); }
    }
    pc = npc;
  }
};
