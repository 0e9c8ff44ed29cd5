// AArch64, little endian, with pointer authentication and branch target identification
struct Cpu : Machine<Cpu> {
  struct V { u64 lo, hi; }; u64 x[32] = {}; V v[32] = {}; bool fn = false, fz = false, fc = false, fv = false; u64 fpcr = 0, fpsr = 0, tpidr = 0; int btype = 0; u64 n_sign = 0, n_auth = 0, n_bti = 0;   // x[31]: sp
  static constexpr const char *name = "aarch64"; static constexpr int spalign = 16;
  u64 sp() { return x[31]; } void setsp(u64 q) { x[31] = q; }
  u64 arg(int i) { return i >= 8 ? peek<u64>(x[31] + (i - 8) * 8) : x[i]; } void setarg(int i, u64 q) { x[i] = q; } u64 result() { return x[0]; } void setresult(u64 q) { x[0] = q; }
  u64 chain() { return x[18]; } u64 sret() { return x[8]; } void setchain(u64 q) { x[18] = q; }
  void setra(u64 q) { x[30] = q; } u64 ra() { return x[30]; } void enter(u64) { btype = 0; } void init() { tpidr = map(4096, R | W); }
  void stats() { printf("STAT aarch64_signed %lu\nSTAT aarch64_authenticated %lu\nSTAT aarch64_branch_targets_checked %lu\n", n_sign, n_auth, n_bti); } void hostreturn() { btype = 0; pc = x[30]; returned(); }
  void save(Frame &s) { int k = 0; for (int i = 19; i < 30; i++) s.saved[k++] = x[i]; for (int i = 8; i < 16; i++) s.saved[k++] = v[i].lo; s.saved[k++] = fpcr; }
  void check(Frame &s) { Frame n; save(n); int k = 0; for (int i = 19; i < 30; i++, k++) if (n.saved[k] != s.saved[k]) viol("callee-saved", "%s returns with x%d %lx, called with %lx", where(s.target).c_str(), i, (long)n.saved[k], (long)s.saved[k]);
    for (int i = 8; i < 16; i++, k++) if (n.saved[k] != s.saved[k]) viol("callee-saved", "%s returns with d%d %lx, called with %lx", where(s.target).c_str(), i, (long)n.saved[k], (long)s.saved[k]); if (n.saved[k] != s.saved[k]) viol("float-control", "%s changes fpcr", where(s.target).c_str()); }
  void flagsjunk() { u64 j = junk(); fn = j & 1; fz = j & 2; fc = j & 4; fv = j & 8; }
  void clobber_in() { for (int i = 9; i < 18; i++) x[i] = junk(); for (int i = 16; i < 32; i++) v[i] = { junk(), junk() }; flagsjunk(); }
  void clobber_out(u64) { for (int i = 2; i < 19; i++) x[i] = junk(); for (int i = 4; i < 32; i++) v[i] = { i >= 8 && i < 16 ? v[i].lo : junk(), junk() }; flagsjunk(); }
  void scramble() { for (int i = 0; i < 31; i++) x[i] = junk(); for (V &q : v) q = { junk(), junk() }; flagsjunk(); }
  void garbage(int b) { x[0] = x[0] & ((1ull << b) - 1) | junk() << b; }     // what is narrower than a register has anything in the rest of it
  // pointer authentication: a signature in the upper bits
  static u64 strip(u64 p) { return p & 0xffffffffffffull; } static u64 pac(u64 p, u64 m, int key) { return strip(p) | (Rng::mix(strip(p) * 3 + Rng::mix(m + key)) & 0xff7f) << 48; }
  void sign(int r, u64 m, int key) { x[r] = pac(x[r], m, key); n_sign++; } void auth(int r, u64 m, int key) { n_auth++; if (x[r] != pac(x[r], m, key)) viol("pointer-authentication", "%s authenticates %lx, which was not signed like that", where(pc).c_str(), (long)x[r]); x[r] = strip(x[r]); }
  static bool guarded(u64 a) { return cet && a >= BASE && a < text_end; }
  static u64 bitmask(int n, int imms, int immr, bool is64, bool &ok) { int len = 31 - __builtin_clz((n << 6) | (~imms & 63)); ok = len >= 1 && !(n && !is64); if (!ok) return 0; int lev = (1 << len) - 1, S = imms & lev, Rr = immr & lev, e = 1 << len; if (S == lev) { ok = false; return 0; } u64 w = S == 63 ? ~0ull : (1ull << (S + 1)) - 1, m = e == 64 ? ~0ull : (1ull << e) - 1; if (Rr) w = (w >> Rr | w << (e - Rr)) & m; u64 r = 0; for (int i = 0; i < 64; i += e) r |= w << i; return r; }
  static u64 rotr(u64 a, int k, int b) { if (b == 32) { u32 q = a; return k ? q >> k | q << (32 - k) : q; } return k ? a >> k | a << (64 - k) : a; }
  static u64 shift(u64 a, int t, int k, bool w) { if (!w) a = (u32)a; switch (t) { case 0: a <<= k; break; case 1: a >>= k; break; case 2: a = w ? (u64)((i64)a >> k) : (u64)(u32)((i32)a >> k); break; default: a = rotr(a, k, w ? 64 : 32); } return w ? a : (u32)a; }
  static u64 extend(u64 a, int opt, int k) { switch (opt) { case 0: a = (u8)a; break; case 1: a = (u16)a; break; case 2: a = (u32)a; break; case 4: a = (i64)(i8)a; break; case 5: a = (i64)(i16)a; break; case 6: a = (i64)(i32)a; break; } return a << k; }
  u64 addc(u64 a, u64 b, int c, bool w, bool set) { if (w) { u128 s = (u128)a + b + c; u64 r = s; if (set) { fn = r >> 63; fz = !r; fc = s >> 64; fv = (~(a ^ b) & (a ^ r)) >> 63; } return r; } u64 s = (u64)(u32)a + (u32)b + c; u32 r = s; if (set) { fn = r >> 31; fz = !r; fc = s >> 32; fv = (~((u32)a ^ (u32)b) & ((u32)a ^ r)) >> 31; } return r; }
  bool cond(int c) { bool t; switch (c >> 1) { case 0: t = fz; break; case 1: t = fc; break; case 2: t = fn; break; case 3: t = fv; break; case 4: t = fc && !fz; break; case 5: t = fn == fv; break; case 6: t = fn == fv && !fz; break; default: return true; } return t != (c & 1); }
  u64 X(int r) { return r == 31 ? 0 : x[r]; } void setX(int r, u64 q, bool w = true) { if (r != 31) x[r] = w ? q : (u32)q; }
  u64 base(int r) { if (r == 31 && x[31] & 15) viol("stack-alignment", "access through sp %lx at %s", (long)x[31], where(pc).c_str()); return x[r]; }
  V ldv(u64 a, int s) { V r = { 0, 0 }; switch (s) { case 1: r.lo = ld<u8>(a); break; case 2: r.lo = ld<u16>(a); break; case 4: r.lo = ld<u32>(a); break; case 8: r.lo = ld<u64>(a); break; default: { u128 q = ld<u128>(a); r = { (u64)q, (u64)(q >> 64) }; } } return r; }
  void stv(u64 a, int s, V q) { switch (s) { case 1: st<u8>(a, q.lo); break; case 2: st<u16>(a, q.lo); break; case 4: st<u32>(a, q.lo); break; case 8: st<u64>(a, q.lo); break; default: st<u128>(a, (u128)q.hi << 64 | q.lo); } }
  static u64 el(const V &q, int i, int s) { u64 r = 0; memcpy(&r, (const u8 *)&q + i * s, s); return r; } static void setel(V &q, int i, int s, u64 z) { memcpy((u8 *)&q + i * s, &z, s); }
  static double vimm(int i) { u64 s = i >> 7, b = i >> 6 & 1, e = i >> 4 & 3, m = i & 15; return asf<double>(s << 63 | (b ? 0x3fcull | e : 0x400ull | e) << 52 | m << 48); }
  void fcmp(double a, double b) { if (std::isnan(a) || std::isnan(b)) fn = fz = false, fc = fv = true; else fn = a < b, fz = a == b, fc = a >= b, fv = false; }
  void step(u32 w) {
    u64 npc = pc + 4; bool sf = w >> 31; int rd = w & 31, rn = w >> 5 & 31, rm = w >> 16 & 31, ra = w >> 10 & 31;
    auto bad = [&] { if (!(w >> 16)) viol("crash-illegal-instruction", "at %s", where(pc).c_str()); unknown(w, pc); };
    if (btype) { if (guarded(pc)) { n_bti++; int h = (w & 0xfffff01f) == 0xd503201f ? w >> 5 & 127 : -1; bool ok = h == 38 || (h == 34 || h == 25 || h == 27) && btype != 3 || h == 36 && btype != 2 || (w >> 21) == 0x6a1; if (!ok) viol("branch-target", "indirect branch of type %d to %s, which is no target", btype, where(pc).c_str()); } btype = 0; }
    int g = w >> 25 & 15;
    if (g == 8 || g == 9) { // immediates
      if ((w >> 24 & 31) == 16) { i64 i = sx((w >> 5 & 0x7ffff) << 2 | (w >> 29 & 3), 21); setX(rd, sf ? (pc & ~4095ull) + (i << 12) : pc + i); }
      else if ((w >> 23 & 63) == 34) { u64 i = w >> 10 & 4095; if (w >> 22 & 1) i <<= 12; bool s = w >> 29 & 1, sub = w >> 30 & 1; u64 r = addc(x[rn], sub ? ~i : i, sub, sf, s); if (s) setX(rd, r, sf); else x[rd] = sf ? r : (u32)r; }
      else if ((w >> 23 & 63) == 36) { bool ok; u64 m = bitmask(w >> 22 & 1, w >> 10 & 63, w >> 16 & 63, sf, ok), a = X(rn); if (!ok) bad(); int o = w >> 29 & 3; u64 r = o == 0 || o == 3 ? a & m : o == 1 ? a | m : a ^ m; if (!sf) r = (u32)r; if (o == 3) { fn = r >> (sf ? 63 : 31) & 1; fz = !r; fc = fv = false; setX(rd, r); } else x[rd] = r; }
      else if ((w >> 23 & 63) == 37) { int o = w >> 29 & 3, k = (w >> 21 & 3) * 16; u64 i = (u64)(w >> 5 & 0xffff) << k; if (o == 0) setX(rd, ~i, sf); else if (o == 2) setX(rd, i, sf); else if (o == 3) setX(rd, X(rd) & ~(0xffffull << k) | i, sf); else bad(); }
      else if ((w >> 23 & 63) == 38) { int o = w >> 29 & 3, r = w >> 16 & 63, s = w >> 10 & 63, B = sf ? 64 : 32; u64 a = sf ? X(rn) : (u32)X(rn), d = X(rd), q; int len = s >= r ? s - r + 1 : s + 1, to = s >= r ? 0 : B - r; u64 m = len == 64 ? ~0ull : (1ull << len) - 1, f = (s >= r ? a >> r : a) & m;
        if (o == 2) q = f << to; else if (o == 0) q = (u64)((i64)(f << (64 - len)) >> (64 - len)) << to; else if (o == 1) q = d & ~(m << to) | f << to; else bad(); setX(rd, q, sf); }
      else if ((w >> 23 & 63) == 39) { int k = w >> 10 & 63; if (sf) setX(rd, k ? X(rn) << (64 - k) | X(rm) >> k : X(rm)); else setX(rd, k ? (u32)X(rn) << (32 - k) | (u32)X(rm) >> k : X(rm), false); }
      else bad();
    } else if (g == 10 || g == 11) { // branches and system
      if ((w >> 26 & 31) == 5) { pc += sx(w & 0x3ffffff, 26) * 4; if (sf) { x[30] = npc; called(npc); } return; }
      else if ((w >> 24) == 0x54) { if (cond(w & 15)) npc = pc + sx(w >> 5 & 0x7ffff, 19) * 4; }
      else if ((w >> 25 & 63) == 26) { u64 a = sf ? X(rd) : (u32)X(rd); if (!a != (w >> 24 & 1)) npc = pc + sx(w >> 5 & 0x7ffff, 19) * 4; }
      else if ((w >> 25 & 63) == 27) { int b = (w >> 31) << 5 | (w >> 19 & 31); if ((X(rd) >> b & 1) == (w >> 24 & 1)) npc = pc + sx(w >> 5 & 0x3fff, 14) * 4; }
      else if ((w >> 25) == 0x6b) { int o = w >> 21 & 15; bool pa = w >> 11 & 1; int key = w >> 10 & 1; u64 t;
        if ((o & 7) == 2) { if (pa) { auth(30, x[31], key); } else if (w & 0x1f) bad(); pc = X(pa ? 30 : rn); if (!pa && rn != 30) unknown(w, pc); returned(); return; }
        if ((o & 7) > 1) bad(); if (pa) auth(rn, o & 8 ? X(rd) : 0, key); t = X(rn); if ((o & 7) == 1) { btype = 2; x[30] = npc; pc = t; called(npc); } else { btype = rn == 16 || rn == 17 || !guarded(pc) ? 1 : 3; pc = t; jumped(); } return; }
      else if ((w >> 21) == 0x6a1) viol("crash-trap", "brk at %s", where(pc).c_str());
      else if ((w & 0xfffff01f) == 0xd503201f) switch (w >> 5 & 127) { case 25: sign(30, x[31], 0); break; case 24: sign(30, 0, 0); break; case 27: sign(30, x[31], 1); break; case 29: auth(30, x[31], 0); break; case 28: auth(30, 0, 0); break; case 31: auth(30, x[31], 1); break; case 7: x[30] = strip(x[30]); break; case 8: x[17] = pac(x[17], x[16], 0); break; case 12: auth(17, x[16], 0); break; default: break; }
      else if ((w & 0xfffff000) == 0xd5033000) ;    // barriers
      else if ((w >> 20) == 0xd53) { int s = w >> 5 & 0x7fff; if (s == 0x5a20) setX(rd, fpcr); else if (s == 0x5a21) setX(rd, fpsr); else if (s == 0x5e82) setX(rd, tpidr); else if (s == 0x5801) setX(rd, 0x84448004); else if (s == 0x5a10) setX(rd, (u64)fn << 31 | (u64)fz << 30 | (u64)fc << 29 | (u64)fv << 28); else bad(); }
      else if ((w >> 20) == 0xd51) { int s = w >> 5 & 0x7fff; if (s == 0x5a20) fpcr = X(rd); else if (s == 0x5a21) fpsr = X(rd); else bad(); }
      else if ((w & 0xffffffe0) == 0xd50b7520) flush(X(rd) & ~63ull, (X(rd) & ~63ull) + 64); else if ((w & 0xffffffe0) == 0xd50b7b20 || (w & 0xffffffe0) == 0xd50b7a20) ;
      else bad();
    } else if ((g & 5) == 4) loadstore(w, bad);
    else if ((g & 7) == 5) { // registers
      if ((w >> 24 & 31) == 10) { u64 a = X(rn), b = shift(X(rm), w >> 22 & 3, w >> 10 & 63, sf), r; if (w >> 21 & 1) b = ~b; int o = w >> 29 & 3; r = o == 0 || o == 3 ? a & b : o == 1 ? a | b : a ^ b; if (!sf) r = (u32)r; if (o == 3) { fn = r >> (sf ? 63 : 31) & 1; fz = !r; fc = fv = false; } setX(rd, r); }
      else if ((w >> 24 & 31) == 11) { bool ext = w >> 21 & 1, sub = w >> 30 & 1, s = w >> 29 & 1; u64 b = ext ? extend(X(rm), w >> 13 & 7, w >> 10 & 7) : shift(X(rm), w >> 22 & 3, w >> 10 & 63, sf), r = addc(ext ? x[rn] : X(rn), sub ? ~b : b, sub, sf, s); if (ext && !s) x[rd] = sf ? r : (u32)r; else setX(rd, r, sf); }
      else if ((w >> 21 & 255) == 0xd0) { bool sub = w >> 30 & 1, s = w >> 29 & 1; setX(rd, addc(X(rn), sub ? ~X(rm) : X(rm), fc, sf, s), sf); }
      else if ((w >> 21 & 255) == 0xd2) { if (cond(w >> 12 & 15)) { u64 b = w >> 11 & 1 ? rm : X(rm); bool sub = w >> 30 & 1; addc(X(rn), sub ? ~b : b, sub, sf, true); } else { fn = w >> 3 & 1; fz = w >> 2 & 1; fc = w >> 1 & 1; fv = w & 1; } }
      else if ((w >> 21 & 255) == 0xd4) { u64 r; if (cond(w >> 12 & 15)) r = X(rn); else { r = X(rm); if (w >> 30 & 1) r = ~r; if (w >> 10 & 1) r++; } setX(rd, r, sf); }
      else if ((w >> 24 & 31) == 27) { int o = w >> 21 & 7; bool sub = w >> 15 & 1; u64 p; if (o == 0) p = X(rn) * X(rm); else if (o == 1) p = (i64)(i32)X(rn) * (i64)(i32)X(rm); else if (o == 5) p = (u64)(u32)X(rn) * (u32)X(rm); else if (o == 2) { setX(rd, (u64)((__int128)(i64)X(rn) * (i64)X(rm) >> 64)); pc = npc; return; } else if (o == 6) { setX(rd, (u64)((u128)X(rn) * X(rm) >> 64)); pc = npc; return; } else bad(); setX(rd, sub ? X(ra) - p : X(ra) + p, sf); }
      else if ((w >> 21 & 255) == 0xd6 && !(w >> 30 & 1)) { u64 a = X(rn), b = X(rm); if (!sf) a = (u32)a, b = (u32)b; int o = w >> 10 & 63, k = b & (sf ? 63 : 31); switch (o) { case 2: a = b ? a / b : 0; break; case 3: if (sf) a = !b ? 0 : (i64)b == -1 ? -a : (u64)((i64)a / (i64)b); else a = !b ? 0 : (i32)b == -1 ? -a : (u64)(u32)((i32)a / (i32)b); break; case 8: a = shift(a, 0, k, sf); break; case 9: a = shift(a, 1, k, sf); break; case 10: a = shift(a, 2, k, sf); break; case 11: a = shift(a, 3, k, sf); break; default: bad(); } setX(rd, a, sf); }
      else if ((w >> 21 & 255) == 0xd6) { u64 a = X(rn), r = 0; int B = sf ? 64 : 32, o = w >> 10 & 63; if (rm == 1) { u64 m = o & 8 ? 0 : x[rn]; switch (o & 7) { case 0: sign(rd, m, 0); break; case 1: sign(rd, m, 1); break; case 4: auth(rd, m, 0); break; case 5: auth(rd, m, 1); break; default: if (o == 16 || o == 17) x[rd] = strip(x[rd]); else bad(); } pc = npc; return; } if (!sf) a = (u32)a;
        switch (o) { case 0: for (int i = 0; i < B; i++) r |= (a >> i & 1) << (B - 1 - i); break; case 1: for (int i = 0; i < B; i += 16) r |= (u64)__builtin_bswap16(a >> i) << i; break; case 2: r = sf ? (u64)__builtin_bswap32(a) | (u64)__builtin_bswap32(a >> 32) << 32 : __builtin_bswap32(a); break; case 3: r = __builtin_bswap64(a); break; case 4: r = a ? (sf ? __builtin_clzll(a) : __builtin_clz(a)) : B; break; case 5: { u64 q = sf ? a ^ (u64)((i64)a >> 63) : (u32)((i32)a ^ (i32)a >> 31); r = (q ? (sf ? __builtin_clzll(q) : __builtin_clz(q)) : B) - 1; break; } default: bad(); } setX(rd, r, sf); }
      else bad();
    } else if ((g & 7) == 7) fp(w, bad);
    else bad();
    pc = npc;
  }
  template <class BAD> void loadstore(u32 w, BAD bad) {
    int rt = w & 31, rn = w >> 5 & 31, rt2 = w >> 10 & 31; bool vec = w >> 26 & 1; int o = w >> 27 & 7;
    if ((w >> 24 & 0x3f) == 8) { // exclusive, ordered
      int s = 1 << (w >> 30); u64 a = base(rn); bool l = w >> 22 & 1; if (w >> 21 & 1) { if ((w >> 23 & 1) == 0) bad(); int rs = w >> 16 & 31; u64 old = s == 8 ? ld<u64>(a) : s == 4 ? ld<u32>(a) : s == 2 ? ld<u16>(a) : ld<u8>(a); u64 m = s == 8 ? ~0ull : (1ull << 8 * s) - 1; if (old == (X(rs) & m)) { s == 8 ? st<u64>(a, X(rt)) : s == 4 ? st<u32>(a, X(rt)) : s == 2 ? st<u16>(a, X(rt)) : st<u8>(a, X(rt)); } setX(rs, old); return; }
      if (l) setX(rt, s == 8 ? ld<u64>(a) : s == 4 ? ld<u32>(a) : s == 2 ? ld<u16>(a) : ld<u8>(a)); else { s == 8 ? st<u64>(a, X(rt)) : s == 4 ? st<u32>(a, X(rt)) : s == 2 ? st<u16>(a, X(rt)) : st<u8>(a, X(rt)); if (!(w >> 23 & 1)) setX(w >> 16 & 31, 0); } return; }
    if (o == 3 && !(w >> 24 & 1)) { u64 a = pc + sx(w >> 5 & 0x7ffff, 19) * 4; int k = w >> 30; if (vec) v[rt] = ldv(a, 4 << k); else if (k == 0) setX(rt, ld<u32>(a)); else if (k == 1) setX(rt, ld<u64>(a)); else if (k == 2) setX(rt, (i64)ld<i32>(a)); return; }
    if (o == 5) { // pairs
      int k = w >> 30, m = w >> 23 & 3; bool l = w >> 22 & 1; int s = vec ? 4 << k : k == 2 ? 8 : 4; i64 i = sx(w >> 15 & 127, 7) * s; u64 b = base(rn), a = m == 1 ? b : b + i; if (k == 3 || k == 1 && !vec && (!l || m == 0)) bad();
      if (m == 3 && rn == 31 && i < 0) x[31] = a, m = 4;   // written below the old stack pointer, not below the new
      if (vec) { if (l) { V p = ldv(a, s), q = ldv(a + s, s); v[rt] = p, v[rt2] = q; } else stv(a, s, v[rt]), stv(a + s, s, v[rt2]); }
      else if (l) { u64 p, q; if (k == 1) p = (i64)ld<i32>(a), q = (i64)ld<i32>(a + 4); else if (s == 8) p = ld<u64>(a), q = ld<u64>(a + 8); else p = ld<u32>(a), q = ld<u32>(a + 4); setX(rt, p), setX(rt2, q); } else if (s == 8) st<u64>(a, X(rt)), st<u64>(a + 8, X(rt2)); else st<u32>(a, X(rt)), st<u32>(a + 4, X(rt2));
      if (m == 1 || m == 3) x[rn] = b + i; return; }
    if (o == 7) {
      int size = w >> 30, opc = w >> 22 & 3; u64 b = base(rn), a, wb = 0; bool back = false; int s = vec ? 1 << (size | (opc & 2) << 1) : 1 << size; if (vec && s > 16) bad();
      if (w >> 24 & 1) a = b + (u64)(w >> 10 & 4095) * s; else if (w >> 21 & 1) { if ((w >> 10 & 3) != 2) { if ((w >> 10 & 3) == 0) { atomic(w, bad); return; } bad(); } int e = w >> 13 & 7; a = b + extend(X(w >> 16 & 31), e, w >> 12 & 1 ? __builtin_ctz(s) : 0); }
      else { i64 i = sx(w >> 12 & 511, 9); int m = w >> 10 & 3; if (m == 2) bad(); a = m == 1 ? b : b + i; if (m & 1) back = true, wb = b + i; if (m == 3 && rn == 31 && i < 0) x[31] = a, back = false; }
      if (vec) { if (opc & 1) v[rt] = ldv(a, s); else stv(a, s, v[rt]); }
      else if (opc == 0) { switch (s) { case 1: st<u8>(a, X(rt)); break; case 2: st<u16>(a, X(rt)); break; case 4: st<u32>(a, X(rt)); break; default: st<u64>(a, X(rt)); } }
      else if (size == 3 && opc == 2) ;   // prefetch
      else { u64 q; switch (s) { case 1: q = opc == 1 ? ld<u8>(a) : (u64)(i64)ld<i8>(a); break; case 2: q = opc == 1 ? ld<u16>(a) : (u64)(i64)ld<i16>(a); break; case 4: q = opc == 1 ? ld<u32>(a) : (u64)(i64)ld<i32>(a); break; default: q = ld<u64>(a); } setX(rt, q, opc != 3); }
      if (back) x[rn] = wb; return; }
    if ((w >> 24 & 0xbf) == 0x0c) { // structures, whole registers
      bool q = w >> 30 & 1, l = w >> 22 & 1, post = w >> 23 & 1; int op = w >> 12 & 15, e = 1 << (w >> 10 & 3), n, sel; switch (op) { case 0: sel = n = 4; break; case 4: sel = n = 3; break; case 8: sel = n = 2; break; case 7: n = 1; sel = 1; break; case 10: n = 2; sel = 1; break; case 6: n = 3; sel = 1; break; case 2: n = 4; sel = 1; break; default: bad(); }
      u64 b = base(rn), a = b; int B = q ? 16 : 8; if (l) for (int i = 0; i < n; i++) v[(rt + i) & 31] = { 0, 0 }; auto one = [&](int r, int i) { V &z = v[(rt + r) & 31]; V t = { el(z, i, e), 0 }; if (l) setel(z, i, e, ldv(a, e).lo); else stv(a, e, t); a += e; };
      if (sel == 1) for (int r = 0; r < n; r++) for (int i = 0; i < B / e; i++) one(r, i); else for (int i = 0; i < B / e; i++) for (int r = 0; r < n; r++) one(r, i); if (post) x[rn] = (w >> 16 & 31) == 31 ? a : b + X(w >> 16 & 31); return; }
    if ((w >> 24 & 0xbf) == 0x0d) { // structures, one element
      bool q = w >> 30 & 1, l = w >> 22 & 1, post = w >> 23 & 1, S = w >> 12 & 1; int op = w >> 13 & 7, sz = w >> 10 & 3, n = ((op & 1) << 1 | (w >> 21 & 1)) + 1, e, i; u64 b = base(rn), a = b;
      if (op >> 1 == 3) { e = 1 << sz; for (int r = 0; r < n; r++) { V &z = v[(rt + r) & 31], t = ldv(a, e); z = { 0, 0 }; for (int k = 0; k < (q ? 16 : 8) / e; k++) setel(z, k, e, t.lo); a += e; } }
      else { if (op >> 1 == 0) e = 1, i = q << 3 | S << 2 | sz; else if (op >> 1 == 1) e = 2, i = q << 2 | S << 1 | sz >> 1; else if (sz == 0) e = 4, i = q << 1 | S; else e = 8, i = q; for (int r = 0; r < n; r++) { V &z = v[(rt + r) & 31]; if (l) setel(z, i, e, ldv(a, e).lo); else { V t = { el(z, i, e), 0 }; stv(a, e, t); } a += e; } }
      if (post) x[rn] = (w >> 16 & 31) == 31 ? a : b + X(w >> 16 & 31); return; }
    bad();
  }
  template <class BAD> void atomic(u32 w, BAD bad) { int s = 1 << (w >> 30), rs = w >> 16 & 31, rt = w & 31, o = w >> 12 & 7; u64 a = base(w >> 5 & 31), old = ldv(a, s).lo, m = s == 8 ? ~0ull : (1ull << 8 * s) - 1, q = X(rs) & m, r; if (w >> 26 & 1) bad(); if (w >> 15 & 1) { if (o == 0) r = q; else bad(); } else switch (o) { case 0: r = old + q; break; case 1: r = old & ~q; break; case 2: r = old ^ q; break; case 3: r = old | q; break; default: bad(); } V t = { r, 0 }; stv(a, s, t); setX(rt, old); }
  template <class BAD> void fp(u32 w, BAD bad) {
    int rd = w & 31, rn = w >> 5 & 31, rm = w >> 16 & 31, ra = w >> 10 & 31; bool sf = w >> 31;
    if ((w >> 24 & 0x5f) == 0x1e || (w >> 24) == 0x1f) { // scalar
      int t = w >> 22 & 3; bool d = t == 1; auto D = [&](int r) { return d ? asf<double>(v[r].lo) : (double)asf<float>((u32)v[r].lo); }; auto F = [&](int r) { return asf<float>((u32)v[r].lo); }; auto set = [&](double q) { v[rd] = { d ? asu(q) : asu((float)q), 0 }; };
      if ((w >> 24) == 0x1f) { if (t > 1) bad(); bool n = w >> 21 & 1, s = w >> 15 & 1; if (d) { double p = D(rn), q = D(rm), c = D(ra); set(fma(n != s ? -p : p, q, n ? -c : c)); } else { float p = F(rn), q = F(rm), c = F(ra); v[rd] = { asu(fmaf(n != s ? -p : p, q, n ? -c : c)), 0 }; } return; }
      if (!(w >> 21 & 1)) { bad(); }
      if (!(w >> 10 & 63)) { // to and from integers
        int mode = w >> 19 & 3, o = w >> 16 & 7; u64 a = X(rn);
        if (o == 6 || o == 7) { if (t == 2 && mode == 1) { if (o == 7) v[rd].hi = a; else setX(rd, v[rn].hi); return; } if (mode) bad(); if (o == 7) v[rd] = { t == 1 ? a : t == 0 ? (u32)a : (u16)a, 0 }; else setX(rd, t == 1 ? v[rn].lo : t == 0 ? (u32)v[rn].lo : (u16)v[rn].lo, true); return; }
        if (t > 1) bad();
        if (o == 2 || o == 3) { if (d) set(o == 2 ? sf ? (double)(i64)a : (double)(i32)a : sf ? (double)a : (double)(u32)a); else v[rd] = { asu(o == 2 ? sf ? (float)(i64)a : (float)(i32)a : sf ? (float)a : (float)(u32)a), 0 }; return; }
        if (o < 2 || o == 4 || o == 5) { double q = D(rn); q = o >= 4 ? round(q) : mode == 0 ? nearbyint(q) : mode == 1 ? ceil(q) : mode == 2 ? floor(q) : trunc(q); bool u = o & 1; setX(rd, u ? sf ? sat<u64>(q) : sat<u32>(q) : sf ? (u64)sat<i64>(q) : (u64)(u32)sat<i32>(q), sf); return; } bad(); }
      if ((w >> 10 & 31) == 16) { int o = w >> 15 & 63; switch (o) { case 0: v[rd] = { d ? v[rn].lo : (u32)v[rn].lo, 0 }; return; case 1: v[rd] = { d ? v[rn].lo & ~(1ull << 63) : v[rn].lo & 0x7fffffff, 0 }; return; case 2: v[rd] = { d ? v[rn].lo ^ 1ull << 63 : (u32)v[rn].lo ^ 0x80000000u, 0 }; return; case 3: if (d) set(sqrt(D(rn))); else v[rd] = { asu(sqrtf(F(rn))), 0 }; return; case 4: v[rd] = { asu((float)D(rn)), 0 }; return; case 5: v[rd] = { asu((double)F(rn)), 0 }; return; default: bad(); } }
      if ((w >> 10 & 15) == 8) { fcmp(D(rn), w >> 3 & 1 ? 0.0 : D(rm)); return; }
      if ((w >> 10 & 7) == 4) { double q = vimm(w >> 13 & 255); set(q); return; }
      switch (w >> 10 & 3) { case 1: if (cond(w >> 12 & 15)) fcmp(D(rn), D(rm)); else { fn = w >> 3 & 1; fz = w >> 2 & 1; fc = w >> 1 & 1; fv = w & 1; } return; case 3: { int r = cond(w >> 12 & 15) ? rn : rm; v[rd] = { d ? v[r].lo : (u32)v[r].lo, 0 }; return; }
        case 2: { int o = w >> 12 & 15; if (d) { double p = D(rn), q = D(rm); switch (o) { case 0: set(p * q); break; case 1: set(p / q); break; case 2: set(p + q); break; case 3: set(p - q); break; case 4: case 6: set(p > q ? p : q); break; case 5: case 7: set(p < q ? p : q); break; case 8: set(-(p * q)); break; default: bad(); } } else { float p = F(rn), q = F(rm), r; switch (o) { case 0: r = p * q; break; case 1: r = p / q; break; case 2: r = p + q; break; case 3: r = p - q; break; case 4: case 6: r = p > q ? p : q; break; case 5: case 7: r = p < q ? p : q; break; case 8: r = -(p * q); break; default: bad(); } v[rd] = { asu(r), 0 }; } return; } } bad(); }
    bool q = w >> 30 & 1, U = w >> 29 & 1; auto fin = [&](V z) { if (!q) z.hi = 0; v[rd] = z; }; V A = v[rn], Bv = v[rm];
    if ((w & 0x9ff80400) == 0x0f000400) { // immediates
      int c = w >> 12 & 15; u64 i = (w >> 16 & 7) << 5 | (w >> 5 & 31), r; if (c < 8) { u32 z = i << 8 * (c >> 1); if (U) z = c & 1 ? z : ~z; (void)0; r = (u64)z << 32 | z; if (c & 1) { V &t = v[rd]; u64 zz = (u64)(u32)(i << 8 * (c >> 1)) << 32 | (u32)(i << 8 * (c >> 1)); fin(U ? V{ t.lo & ~zz, t.hi & ~zz } : V{ t.lo | zz, t.hi | zz }); return; } }
      else if (c < 12) { u16 z = i << 8 * (c >> 1 & 1); if (c & 1) { u64 zz = z * 0x0001000100010001ull; V &t = v[rd]; fin(U ? V{ t.lo & ~zz, t.hi & ~zz } : V{ t.lo | zz, t.hi | zz }); return; } if (U) z = ~z; r = z * 0x0001000100010001ull; }
      else if (c < 14) { u32 z = c & 1 ? i << 16 | 0xffff : i << 8 | 0xff; if (U) z = ~z; r = (u64)z << 32 | z; } else if (c == 14) { if (!U) r = i * 0x0101010101010101ull; else { r = 0; for (int k = 0; k < 8; k++) if (i >> k & 1) r |= 0xffull << 8 * k; } } else { if (U) r = asu(vimm(i)); else { u32 z = asu((float)vimm(i)); r = (u64)z << 32 | z; } }
      fin({ r, r }); return; }
    if ((w & 0x9fe08400) == 0x0e000400) { // copies
      int i5 = rm, c = w >> 11 & 15; int e = i5 & 1 ? 1 : i5 & 2 ? 2 : i5 & 4 ? 4 : 8, i = i5 / (2 * e); if (!i5) bad();
      if (U) { V z = v[rd]; setel(z, i, e, el(A, c / e, e)); v[rd] = z; return; }
      V z = { 0, 0 }; switch (c) { case 0: for (int k = 0; k < 16 / e; k++) setel(z, k, e, el(A, i, e)); fin(z); return; case 1: for (int k = 0; k < 16 / e; k++) setel(z, k, e, X(rn)); fin(z); return; case 3: { V y = v[rd]; setel(y, i, e, X(rn)); v[rd] = y; return; } case 7: setX(rd, el(A, i, e)); return; case 5: { i64 r = sx(el(A, i, e), 8 * e); setX(rd, r, q); return; } default: bad(); } }
    if ((w & 0xffe0fc00) == 0x5e000400) { int e = rm & 1 ? 1 : rm & 2 ? 2 : rm & 4 ? 4 : 8; v[rd] = { el(A, rm / (2 * e), e), 0 }; return; }   // dup to scalar
    if ((w & 0xbfe08400) == 0x2e000000) { int k = w >> 11 & 15; V z; u8 t[32]; if (q) { memcpy(t, &A, 16); memcpy(t + 16, &Bv, 16); } else { memcpy(t, &A, 8); memcpy(t + 8, &Bv, 8); } memcpy(&z, t + k, 16); fin(z); return; }   // ext
    if ((w & 0xbf208c00) == 0x0e000800) { int e = 1 << (w >> 22 & 3), n = (q ? 16 : 8) / e, o = w >> 12 & 7; V z = { 0, 0 }; for (int i = 0; i < n; i++) { u64 r; switch (o) { case 1: case 5: { int k = 2 * i + (o == 5); r = k < n ? el(A, k, e) : el(Bv, k - n, e); break; } case 2: case 6: r = el(i & 1 ? Bv : A, (i & ~1) + (o == 6), e); break; case 3: case 7: r = el(i & 1 ? Bv : A, i / 2 + (o == 7 ? n / 2 : 0), e); break; default: bad(); } setel(z, i, e, r); } fin(z); return; }
    if ((w & 0xbf208c00) == 0x0e000000) { int len = (w >> 13 & 3) + 1; bool tbx = w >> 12 & 1; V z = tbx ? v[rd] : V{ 0, 0 }; for (int i = 0; i < 16; i++) { int k = el(Bv, i, 1); if (k < 16 * len) setel(z, i, 1, el(v[(rn + k / 16) & 31], k % 16, 1)); } fin(z); return; }
    bool scalar = (w >> 28 & 7) == 5 || (w >> 24 & 0xdf) == 0x5e || (w >> 24 & 0xdf) == 0x5f; if (scalar) q = false;
    if ((w & 0x9f200400) == 0x0e200400 || (w & 0xdf200400) == 0x5e200400) { // three the same
      int o = w >> 11 & 31, s = w >> 22 & 3, e = 1 << s; V z = { 0, 0 };
      if (o == 3) { V T = v[rd]; auto f = [&](u64 a, u64 b, u64 t) { switch (U << 2 | s) { case 0: return a & b; case 1: return a & ~b; case 2: return a | b; case 3: return a | ~b; case 4: return a ^ b; case 5: return b ^ ((b ^ a) & t); case 6: return t ^ ((t ^ a) & b); default: return t ^ ((t ^ a) & ~b); } }; if ((U << 2 | s) == 5) z = { Bv.lo ^ ((Bv.lo ^ A.lo) & T.lo), Bv.hi ^ ((Bv.hi ^ A.hi) & T.hi) }; else z = { f(A.lo, Bv.lo, T.lo), f(A.hi, Bv.hi, T.hi) }; fin(z); return; }
      if (o >= 24) { // floating point
        bool dd = s & 1; int n = (scalar ? dd ? 8 : 4 : 16) / (dd ? 8 : 4); for (int i = 0; i < n; i++) { double a = dd ? asf<double>(el(A, i, 8)) : asf<float>((u32)el(A, i, 4)), b = dd ? asf<double>(el(Bv, i, 8)) : asf<float>((u32)el(Bv, i, 4)), r; int oo = o << 2 | U << 1 | s >> 1; switch (oo) { case 26 << 2: r = a + b; break; case (26 << 2) + 1: r = a - b; break; case (27 << 2) + 2: r = a * b; break; case (31 << 2) + 2: r = a / b; break; default: bad(); } if (dd) setel(z, i, 8, asu(r)); else setel(z, i, 4, asu((float)r)); } fin(z); return; }
      u64 m = e == 8 ? ~0ull : (1ull << 8 * e) - 1; int n = (scalar ? 8 : 16) / e; if (o == 23) { V t; u8 cat[32]; memcpy(cat, &A, 16); memcpy(cat + (q ? 16 : 8), &Bv, 16); for (int i = 0; i < n; i++) { u64 p = 0, r = 0; if (2 * i * e + 2 * e <= 32) memcpy(&p, cat + 2 * i * e, e), memcpy(&r, cat + (2 * i + 1) * e, e); setel(z, i, e, p + r); } (void)t; fin(z); return; }
      for (int i = 0; i < n; i++) { u64 a = el(A, i, e), b = el(Bv, i, e), r; i64 sa = sx(a, 8 * e), sb = sx(b, 8 * e); switch (o) { case 16: r = U ? a - b : a + b; break; case 17: r = U ? (a == b ? m : 0) : (a & b ? m : 0); break; case 6: r = U ? (a > b ? m : 0) : (sa > sb ? m : 0); break; case 7: r = U ? (a >= b ? m : 0) : (sa >= sb ? m : 0); break; case 12: r = U ? std::max(a, b) : (u64)std::max(sa, sb); break; case 13: r = U ? std::min(a, b) : (u64)std::min(sa, sb); break; case 18: r = U ? el(v[rd], i, e) - a * b : el(v[rd], i, e) + a * b; break; case 19: if (U) bad(); r = a * b; break; case 8: { int k = (i8)b; r = k <= -8 * e || k >= 8 * e ? (k < 0 && !U && sa < 0 ? ~0ull : 0) : k >= 0 ? a << k : U ? a >> -k : (u64)(sa >> -k); break; } default: bad(); } setel(z, i, e, r); } if (scalar) z.hi = 0; fin(z); return; }
    if ((w & 0x9f800400) == 0x0f000400 || (w & 0xdf800400) == 0x5f000400) { // shifts
      int imm = w >> 16 & 127, o = w >> 11 & 31, e = imm >> 3 ? 1 << (31 - __builtin_clz(imm >> 3)) : 0; if (!e) bad(); int B = 8 * e; V z = { 0, 0 }; 
      if (o == 20) { int k = imm - B; for (int i = 0; i < 8 / e; i++) { u64 a = el(A, i + (q ? 8 / e : 0), e); setel(z, i, 2 * e, (U ? a : (u64)sx(a, B)) << k); } v[rd] = z; return; }
      if (o == 16 && !U) { int k = 2 * B - imm; k = 2 * B - imm; z = q ? V{ v[rd].lo, 0 } : z; for (int i = 0; i < 8 / e; i++) setel(z, i + (q ? 8 / e : 0), e, el(A, i, 2 * e) >> k); v[rd] = z; return; }
      for (int i = 0; i < (scalar ? 8 : 16) / e; i++) { u64 a = el(A, i, e), r; i64 sa = sx(a, B); int rk = 2 * B - imm, lk = imm - B; switch (o) { case 10: r = U ? (a << lk | el(v[rd], i, e) & ((1ull << lk) - 1)) : a << lk; break; case 0: r = U ? rk >= 64 ? 0 : a >> rk : (u64)(sa >> std::min(rk, 63)); break; case 2: r = el(v[rd], i, e) + (U ? rk >= 64 ? 0 : a >> rk : (u64)(sa >> std::min(rk, 63))); break; default: bad(); } setel(z, i, e, r); } if (scalar) z.hi = 0; fin(z); return; }
    if ((w & 0x9f3e0c00) == 0x0e200800 || (w & 0xdf3e0c00) == 0x5e200800) { // two registers
      int o = w >> 12 & 31, s = w >> 22 & 3, e = 1 << s, n = (scalar ? 8 : 16) / e; V z = { 0, 0 }; u64 m = e == 8 ? ~0ull : (1ull << 8 * e) - 1;
      if (o == 18 && !U) { z = q ? V{ v[rd].lo, 0 } : z; for (int i = 0; i < 8 / e; i++) setel(z, i + (q ? 8 / e : 0), e, el(A, i, 2 * e)); v[rd] = z; return; }
      if (o == 23 && !U && s == 1) { for (int i = 0; i < 2; i++) setel(z, i, 8, asu((double)asf<float>((u32)el(A, i + 2 * q, 4)))); v[rd] = z; return; } if (o == 22 && !U && s == 1) { z = q ? V{ v[rd].lo, 0 } : z; for (int i = 0; i < 2; i++) setel(z, i + 2 * q, 4, asu((float)asf<double>(el(A, i, 8)))); v[rd] = z; return; }
      if (o == 29) { bool dd = s & 1; int k = dd ? 8 : 4; for (int i = 0; i < (scalar ? k : 16) / k; i++) { u64 a = el(A, i, k); setel(z, i, k, dd ? asu(U ? (double)a : (double)(i64)a) : asu(U ? (float)(u32)a : (float)(i32)a)); } fin(z); return; }
      if (o == 27 && s >= 2) { bool dd = s & 1; int k = dd ? 8 : 4; for (int i = 0; i < (scalar ? k : 16) / k; i++) { double a = dd ? asf<double>(el(A, i, 8)) : asf<float>((u32)el(A, i, 4)); setel(z, i, k, dd ? U ? sat<u64>(a) : (u64)sat<i64>(a) : U ? sat<u32>(a) : (u32)sat<i32>(a)); } fin(z); return; }
      if (o == 15 && s >= 2) { bool dd = s & 1; z = U ? dd ? V{ A.lo ^ 1ull << 63, A.hi ^ 1ull << 63 } : V{ A.lo ^ 0x8000000080000000ull, A.hi ^ 0x8000000080000000ull } : dd ? V{ A.lo & ~(1ull << 63), A.hi & ~(1ull << 63) } : V{ A.lo & 0x7fffffff7fffffffull, A.hi & 0x7fffffff7fffffffull }; fin(z); return; }
      for (int i = 0; i < n; i++) { u64 a = el(A, i, e), r; i64 sa = sx(a, 8 * e); switch (o) { case 5: if (U) { r = ~a; } else r = __builtin_popcountll(a); break; case 8: r = U ? sa >= 0 ? m : 0 : sa > 0 ? m : 0; break; case 9: r = U ? sa <= 0 ? m : 0 : a == 0 ? m : 0; break; case 10: r = sa < 0 ? m : 0; break; case 11: r = U ? -a : sa < 0 ? -a : a; break; case 0: if (U || e > 4) bad(); { int grp = 8 / e; r = el(A, i / grp * grp + (grp - 1 - i % grp), e); } break; default: bad(); } setel(z, i, e, r); } if (scalar) z.hi = 0; fin(z); return; }
    if ((w & 0x9f3e0c00) == 0x0e300800) { int o = w >> 12 & 31, e = 1 << (w >> 22 & 3), n = (q ? 16 : 8) / e; u64 r = 0; i64 ms = 0; if (o == 27) for (int i = 0; i < n; i++) r += el(A, i, e); else if (o == 3) for (int i = 0; i < n; i++) r += U ? el(A, i, e) : (u64)sx(el(A, i, e), 8 * e); else if (o == 10 && U) for (int i = 0; i < n; i++) r = std::max(r, el(A, i, e)); else if (o == 26 && U) { r = ~0ull; for (int i = 0; i < n; i++) r = std::min(r, el(A, i, e)); } else bad(); (void)ms; V z = { 0, 0 }; setel(z, 0, o == 3 ? 2 * e : e, r); v[rd] = z; return; }
    if ((w & 0xff3ffc00) == 0x5e31b800) { v[rd] = { A.lo + A.hi, 0 }; return; }   // addp d, v.2d
    bad();
  }
};
