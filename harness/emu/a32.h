// ARM, A32 instructions of ARMv7 with the division extension and VFPv3-D16, of either procedure call standard
struct Cpu : Machine<Cpu> {
  u32 x[16] = {}; union { u64 d[16]; u32 s[32]; }; bool fn = false, fz = false, fc = false, fv = false, qn = false, qz = false, qc = false, qv = false; u32 fpscr = 0; bool hard = false; u64 n_vfp = 0;
  static constexpr const char *name = "arm"; static constexpr int spalign = 8;
  Cpu() { for (u64 &q : d) q = 0; }
  u64 sp() { return x[13]; } void setsp(u64 v) { x[13] = v; }
  u64 arg(int i) { return i >= 4 ? peek<u32>(x[13] + (i - 4) * 4) : x[i]; } void setarg(int i, u64 v) { if (i >= 4) poke<u32>(x[13] + (i - 4) * 4, v); else x[i] = v; } u64 result() { return x[0]; } void setresult(u64 v) { x[0] = v; }
  u64 chain() { return x[12]; } u64 sret() { return x[0]; } void setchain(u64 v) { x[12] = v; }
  void setra(u64 v) { x[14] = v; } u64 ra() { return x[14]; } void enter(u64) {} void init() {} void convention(int abi, bool variadic) { hard = abi == 2 && !variadic; } void stats() { printf("STAT arm_vfp_instructions %lu\n", n_vfp); } void hostreturn() { pc = x[14]; returned(); }
  void save(Frame &f) { int k = 0; for (int i = 4; i < 12; i++) f.saved[k++] = x[i]; for (int i = 8; i < 16; i++) f.saved[k++] = d[i]; f.saved[k++] = fpscr & 0x07f79f00; }
  void check(Frame &f) { Frame n; save(n); int k = 0; for (int i = 4; i < 12; i++, k++) if (n.saved[k] != f.saved[k]) viol("callee-saved", "%s returns with r%d %lx, called with %lx", where(f.target).c_str(), i, (long)n.saved[k], (long)f.saved[k]);
    for (int i = 8; i < 16; i++, k++) if (n.saved[k] != f.saved[k]) viol("callee-saved", "%s returns with d%d %lx, called with %lx", where(f.target).c_str(), i, (long)n.saved[k], (long)f.saved[k]); if (n.saved[k] != f.saved[k]) viol("float-control", "%s changes fpscr", where(f.target).c_str()); }
  void flagsjunk() { u64 j = junk(); fn = j & 1; fz = j & 2; fc = j & 4; fv = j & 8; qn = j & 16; qz = j & 32; qc = j & 64; qv = j & 128; }
  void clobber_in() { flagsjunk(); if (!hard) for (int i = 0; i < 8; i++) d[i] = junk(); }
  void clobber_out(u64) { x[2] = junk(); x[3] = junk(); x[12] = junk(); x[14] = junk(); for (int i = hard ? 4 : 0; i < 8; i++) d[i] = junk(); flagsjunk(); }
  void scramble() { for (int i = 0; i < 15; i++) x[i] = junk(); for (u64 &q : d) q = junk(); flagsjunk(); }
  void garbage(int) {}     // results and arguments are extended to a word
  bool cond(int c) { bool t; switch (c >> 1) { case 0: t = fz; break; case 1: t = fc; break; case 2: t = fn; break; case 3: t = fv; break; case 4: t = fc && !fz; break; case 5: t = fn == fv; break; case 6: t = fn == fv && !fz; break; default: return true; } return t != (c & 1); }
  u32 r(int i) { return i == 15 ? pc + 8 : x[i]; }
  u32 addc(u32 a, u32 b, int c, bool set) { u64 q = (u64)a + b + c; u32 z = q; if (set) { fn = z >> 31; fz = !z; fc = q >> 32; fv = (~(a ^ b) & (a ^ z)) >> 31; } return z; }
  static u32 ror(u32 a, int k) { k &= 31; return k ? a >> k | a << (32 - k) : a; }
  u32 shift(u32 a, int t, u32 k, bool &c, bool imm) { // k as encoded if imm
    if (imm && !k) { if (t == 0) return a; if (t == 3) { bool o = c; c = a & 1; return (u32)o << 31 | a >> 1; } k = 32; } if (!k) return a;
    switch (t) { case 0: c = k <= 32 ? k == 32 ? a & 1 : a >> (32 - k) & 1 : 0; return k < 32 ? a << k : 0; case 1: c = k <= 32 ? a >> (k - 1) & 1 : 0; return k < 32 ? a >> k : 0; case 2: if (k > 31) { c = a >> 31; return (i32)a >> 31; } c = a >> (k - 1) & 1; return (i32)a >> k; default: c = a >> ((k - 1) & 31) & 1; return ror(a, k); } }
  void branch(u32 t, bool ret) { if (t & 1) unknown(0xe12fff10, pc); pc = t & ~1u; if (ret) returned(); else jumped(); }
  static double vimm(int i, bool dbl) { u64 sg = i >> 7, b = i >> 6 & 1, e = i >> 4 & 3, m = i & 15; return asf<double>(sg << 63 | (b ? 0x3fcull | e : 0x400ull | e) << 52 | m << 48); }
  void vcmp(double a, double b) { if (std::isnan(a) || std::isnan(b)) qn = qz = false, qc = qv = true; else qn = a < b, qz = a == b, qc = a >= b, qv = false; }
  float S(int i) { return asf<float>(s[i]); } double D(int i) { return asf<double>(d[i]); } void S(int i, float v) { s[i] = (u32)asu(v); } void D(int i, double v) { d[i] = asu(v); }
  void step(u32 w) {
    u32 npc = pc + 4; auto bad = [&] { if (!w || w == 0xffffffff) viol("crash-illegal-instruction", "at %s", where(pc).c_str()); unknown(w, pc); }; int cc = w >> 28;
    if (cc == 15) { if ((w & 0xffffff00) == 0xf57ff000 || (w & 0xfd70f000) == 0xf550f000 || (w & 0xff70f000) == 0xf510f000) { pc = npc; return; } bad(); }
    if ((w & 0x0fff00f0) == 0x07f000f0) viol("crash-trap", "udf at %s", where(pc).c_str());
    if (!cond(cc)) { pc = npc; return; }
    int rn = w >> 16 & 15, rd = w >> 12 & 15, rs = w >> 8 & 15, rm = w & 15; auto set = [&](int i, u32 v) { if (i == 15) bad(); x[i] = v; };
    switch (w >> 25 & 7) {
    case 0: if ((w & 0x90) == 0x90) { int o = w >> 5 & 3;
        if (!o) { if (!(w >> 24 & 1)) { bool sf = w >> 20 & 1; u32 z; switch (w >> 21 & 7) { case 0: z = r(rm) * r(rs); set(rn, z); break; case 1: z = r(rm) * r(rs) + r(rd); set(rn, z); break; case 3: z = r(rd) - r(rm) * r(rs); set(rn, z); break; case 2: { u64 q = (u64)r(rm) * r(rs) + r(rd) + r(rn); set(rd, q); set(rn, q >> 32); break; }
              case 4: case 5: case 6: case 7: { u64 q = w >> 22 & 1 ? (u64)((i64)(i32)r(rm) * (i32)r(rs)) : (u64)r(rm) * r(rs); if (w >> 21 & 1) q += (u64)r(rn) << 32 | r(rd); set(rd, q); set(rn, q >> 32); if (sf) fn = q >> 63, fz = !q; sf = false; break; } } if (sf) fn = z >> 31, fz = !z; }
            else { u32 a = r(rn); switch (w >> 20 & 15) { case 8: st<u32>(a, r(rm)); set(rd, 0); break; case 9: set(rd, ld<u32>(a)); break; case 10: st<u32>(a, r(rm)); st<u32>(a + 4, r(rm + 1)); set(rd, 0); break; case 11: set(rd, ld<u32>(a)); set(rd + 1, ld<u32>(a + 4)); break; case 12: st<u8>(a, r(rm)); set(rd, 0); break; case 13: set(rd, ld<u8>(a)); break; case 14: st<u16>(a, r(rm)); set(rd, 0); break; case 15: set(rd, ld<u16>(a)); break; default: bad(); } } }
        else { bool P = w >> 24 & 1, U = w >> 23 & 1, W = w >> 21 & 1, L = w >> 20 & 1; u32 off = w >> 22 & 1 ? (w >> 4 & 0xf0) | rm : r(rm), b = r(rn), e = U ? b + off : b - off, a = P ? e : b; if (!P || W) { set(rn, e); if (rn == 13 && !L) {} }
          if (o == 1) { if (L) set(rd, ld<u16>(a)); else st<u16>(a, r(rd)); } else if (L) set(rd, o == 2 ? (u32)(i32)ld<i8>(a) : (u32)(i32)ld<::i16>(a)); else { if (a & 3) viol("alignment", "doubleword access at %x by %s", a, where(pc).c_str()); if (o == 2) { u32 q = ld<u32>(a), p = ld<u32>(a + 4); set(rd, q); set(rd + 1, p); } else { st<u32>(a, r(rd)); st<u32>(a + 4, r(rd + 1)); } } }
        break; }
      if ((w & 0x01900000) == 0x01000000) { int o = w >> 21 & 3, q = w >> 4 & 15; if (q == 1 && o == 1) { branch(r(rm), rm == 14); return; } else if (q == 1 && o == 3) set(rd, r(rm) ? __builtin_clz(r(rm)) : 32); else if (q == 3 && o == 1) { u32 t = r(rm); if (t & 1) unknown(w, pc); x[14] = npc; pc = t; called(npc); return; }
        else if (q == 0 && !(o & 1)) set(rd, (u32)fn << 31 | (u32)fz << 30 | (u32)fc << 29 | (u32)fv << 28 | 0x10); else if (q == 0 && o == 1) { u32 v = r(rm); if (w >> 19 & 1) fn = v >> 31, fz = v >> 30 & 1, fc = v >> 29 & 1, fv = v >> 28 & 1; } else if (q == 7 && o == 1) viol("crash-trap", "bkpt at %s", where(pc).c_str());
        else if (q & 8) { auto h = [](u32 v, bool t) { return (i32)(::i16)(t ? v >> 16 : v); }; bool tx = w >> 5 & 1, ty = w >> 6 & 1; if (o == 0) set(rn, h(r(rm), tx) * h(r(rs), ty) + r(rd)); else if (o == 3) set(rn, h(r(rm), tx) * h(r(rs), ty)); else bad(); } else bad(); break; }
      // fallthrough: data processing
    case 1: { bool imm = w >> 25 & 1; if (imm && (w & 0x01900000) == 0x01000000) { int o = w >> 21 & 3; u32 i = (w >> 4 & 0xf000) | (w & 0xfff); if (o == 0) set(rd, i); else if (o == 2) set(rd, x[rd] & 0xffff | i << 16); else if (o == 1 && !(w >> 16 & 15)) ; else bad(); break; }
      int o = w >> 21 & 15; bool sf = w >> 20 & 1, c = fc; u32 b, a; if (imm) { int k = (w >> 8 & 15) * 2; b = ror(w & 255, k); if (k) c = b >> 31; } else if (w >> 4 & 1) { b = shift(rm == 15 ? pc + 12 : x[rm], w >> 5 & 3, r(rs) & 255, c, false); } else b = shift(r(rm), w >> 5 & 3, w >> 7 & 31, c, true);
      a = r(rn); u32 z; bool fl = sf && rd != 15; switch (o) { case 0: case 8: z = a & b; break; case 1: case 9: z = a ^ b; break; case 2: case 10: z = addc(a, ~b, 1, fl || o == 10); break; case 3: z = addc(b, ~a, 1, fl); break; case 4: case 11: z = addc(a, b, 0, fl || o == 11); break; case 5: z = addc(a, b, fc, fl); break; case 6: z = addc(a, ~b, fc, fl); break; case 7: z = addc(b, ~a, fc, fl); break; case 12: z = a | b; break; case 13: z = b; break; case 14: z = a & ~b; break; default: z = ~b; }
      if (sf && (o < 2 || o == 8 || o == 9 || o >= 12)) fn = z >> 31, fz = !z, fc = c; if (o >= 8 && o < 12) break; if (rd == 15) { if (sf) bad(); branch(z, o == 13 && !imm && rm == 14); return; } x[rd] = z; break; }
    case 2: case 3: if ((w >> 25 & 7) == 3 && (w >> 4 & 1)) { u32 a, z; int k = w >> 20 & 255, q = w >> 4 & 15; int ro = (w >> 10 & 3) * 8;
        if ((k == 0x6a || k == 0x6b || k == 0x6e || k == 0x6f) && q == 7) { a = ror(r(rm), ro); z = k == 0x6a ? (u32)(i32)(::i8)a : k == 0x6b ? (u32)(i32)(::i16)a : k == 0x6e ? (u8)a : (u16)a; set(rd, z + (rn == 15 ? 0 : x[rn])); }
        else if (k == 0x6c && q == 7 || k == 0x68 && q == 7) { a = ror(r(rm), ro); z = k == 0x6c ? a & 0xff00ff : (u16)(::i16)(::i8)a | (u32)(u16)(::i16)(::i8)(a >> 16) << 16; if (rn != 15) z = (u16)(z + x[rn]) | ((z >> 16) + (x[rn] >> 16)) << 16; set(rd, z); }
        else if (k == 0x6b && q == 3) set(rd, __builtin_bswap32(r(rm))); else if (k == 0x6b && q == 11) { a = r(rm); set(rd, (a >> 8 & 0xff00ff) | (a & 0xff00ff) << 8); } else if (k == 0x6f && q == 11) { a = r(rm); set(rd, (i32)(::i16)((a >> 8 & 255) | (a & 255) << 8)); } else if (k == 0x6f && q == 3) { a = r(rm); z = 0; for (int i = 0; i < 32; i++) z |= (a >> i & 1) << (31 - i); set(rd, z); }
        else if (k == 0x68 && (q & 3) == 1) { int sh = w >> 7 & 31; a = r(rm); if (q & 4) { z = (u32)((i32)a >> (sh ? sh : 31)) & 0xffff | r(rn) & 0xffff0000; } else z = r(rn) & 0xffff | (a << sh) & 0xffff0000; set(rd, z); }
        else if (k == 0x71 && q == 1) { i32 p = r(rm), t = r(rs); set(rn, t ? t == -1 ? -(u32)p : (u32)(p / t) : 0); } else if (k == 0x73 && q == 1) set(rn, r(rs) ? r(rm) / r(rs) : 0); else if (k == 0x75 && (q & 13) == 1) { i64 p = (i64)(i32)r(rm) * (i32)r(rs); if (rd != 15) p += (i64)x[rd] << 32; set(rn, (p + (q & 2 ? 0x80000000ll : 0)) >> 32); }
        else if ((k & 0xfa) == 0x7a && (q & 7) == 5) { int l = w >> 7 & 31, n = (w >> 16 & 31) + 1; a = r(rm) >> l; z = n == 32 ? a : a & ((1u << n) - 1); if (!(w >> 22 & 1)) z = (i32)(z << (32 - n)) >> (32 - n); set(rd, z); }
        else if ((k & 0xfe) == 0x7c && (q & 7) == 1) { int l = w >> 7 & 31, ms = w >> 16 & 31, n = ms - l + 1; if (n < 1) bad(); u32 m = (n == 32 ? ~0u : (1u << n) - 1) << l; a = rm == 15 ? 0 : x[rm]; set(rd, x[rd] & ~m | a << l & m); }
        else bad(); break; }
      { bool P = w >> 24 & 1, U = w >> 23 & 1, B = w >> 22 & 1, W = w >> 21 & 1, L = w >> 20 & 1, c = fc; u32 off = w >> 25 & 1 ? shift(r(rm), w >> 5 & 3, w >> 7 & 31, c, true) : w & 4095, b = r(rn), e = U ? b + off : b - off, a = P ? e : b; if (rn == 13 && L && (!P || W)) ; if (L) { u32 v = B ? ld<u8>(a) : ld<u32>(a); if (!P || W) set(rn, e); if (rd == 15) { if (a & 3) bad(); branch(v, rn == 13 && !P); return; } x[rd] = v; } else { if (rn == 13 && (!P || W) && e < x[13]) x[13] = e; B ? st<u8>(a, r(rd)) : st<u32>(a, rd == 15 ? pc + 8 : x[rd]); if (!P || W) set(rn, e); } break; }
    case 4: { bool P = w >> 24 & 1, U = w >> 23 & 1, W = w >> 21 & 1, L = w >> 20 & 1; if (w >> 22 & 1) bad(); int n = __builtin_popcount(w & 0xffff); u32 b = x[rn], lo = U ? b + (P ? 4 : 0) : b - 4 * n + (P ? 0 : 4), e = U ? b + 4 * n : b - 4 * n; if (b & 3) viol("alignment", "multiple access at %x by %s", b, where(pc).c_str()); if (!L && W && rn == 13 && e < x[13]) x[13] = e; u32 v[16]; int k = 0; bool topc = false; u32 t = 0;
      if (L) { for (int i = 0; i < 16; i++) if (w >> i & 1) v[i] = ld<u32>(lo + 4 * k++); if (W) x[rn] = e; for (int i = 0; i < 15; i++) if (w >> i & 1) x[i] = v[i]; if (w >> 15 & 1) { branch(v[15], rn == 13); return; } }
      else { for (int i = 0; i < 16; i++) if (w >> i & 1) st<u32>(lo + 4 * k++, i == rn && rn != 13 ? b : i == 13 && rn == 13 ? b : r(i)); if (W) x[rn] = e; } break; }
    case 5: { i64 o = sx(w & 0xffffff, 24) * 4; pc = (u32)(pc + 8 + o); if (w >> 24 & 1) { x[14] = npc; called(npc); } return; }
    case 6: case 7: { int cp = rs; if (cp != 10 && cp != 11 || w >> 24 == (u32)(cc << 4 | 15)) { if ((w & 0x0fff0fff) == 0x0e1d0f70) { set(rd, 0); break; } bad(); } n_vfp++; bool dbl = cp == 11, Db = w >> 22 & 1, N = w >> 7 & 1, M = w >> 5 & 1; auto reg = [&](int v, bool b) { if (dbl && b) bad(); return dbl ? v : v << 1 | b; }; int vd = dbl ? rd | Db << 4 : rd << 1 | Db, vn = dbl ? rn | N << 4 : rn << 1 | N, vm = dbl ? rm | M << 4 : rm << 1 | M;
      if ((w >> 25 & 7) == 6) { bool P = w >> 24 & 1, U = w >> 23 & 1, W = w >> 21 & 1, L = w >> 20 & 1;
        if ((w >> 21 & 15) == 2) { if ((w >> 6 & 3) || !(w >> 4 & 1)) bad(); if (dbl) { if (vm > 15) bad(); if (L) { u64 q = d[vm]; set(rd, q); set(rn, q >> 32); } else d[vm] = (u64)r(rn) << 32 | r(rd); } else { if (L) set(rd, s[vm]), set(rn, s[vm + 1]); else s[vm] = r(rd), s[vm + 1] = r(rn); } break; }
        int i8_ = w & 255; if (P && !W) { u32 a = (r(rn) & (rn == 15 ? ~3u : ~0u)) + (U ? i8_ * 4 : -i8_ * 4); if (a & 3) viol("alignment", "vector access at %x by %s", a, where(pc).c_str()); if (dbl) { if (vd > 15) bad(); if (L) d[vd] = (u64)ld<u32>(a + 4) << 32 | ld<u32>(a); else st<u32>(a, d[vd]), st<u32>(a + 4, d[vd] >> 32); } else if (L) s[vd] = ld<u32>(a); else st<u32>(a, s[vd]); break; }
        u32 b = r(rn), e = U ? b + i8_ * 4 : b - i8_ * 4, a = U ? b : e; if (P == U && W) bad(); if (a & 3) viol("alignment", "vector access at %x by %s", a, where(pc).c_str()); if (!L && W && rn == 13 && e < x[13]) x[13] = e; int n = dbl ? i8_ / 2 : i8_; if (vd + n > (dbl ? 16 : 32)) bad(); for (int i = 0; i < n; i++) if (dbl) { if (L) d[vd + i] = (u64)ld<u32>(a + 8 * i + 4) << 32 | ld<u32>(a + 8 * i); else st<u32>(a + 8 * i, d[vd + i]), st<u32>(a + 8 * i + 4, d[vd + i] >> 32); } else if (L) s[vd + i] = ld<u32>(a + 4 * i); else st<u32>(a + 4 * i, s[vd + i]); if (W) set(rn, e); break; }
      if (w >> 4 & 1) { bool L = w >> 20 & 1; int o = w >> 21 & 7; if (!dbl && o == 0) { if (L) set(rd, s[vn]); else s[vn] = r(rd); } else if (!dbl && o == 7) { if (rn != 1) { if (L && (rn == 6 || rn == 7)) { set(rd, 0x10110222); break; } bad(); } u32 v = (u32)qn << 31 | (u32)qz << 30 | (u32)qc << 29 | (u32)qv << 28 | fpscr; if (L) { if (rd == 15) fn = qn, fz = qz, fc = qc, fv = qv; else x[rd] = v; } else { u32 z = r(rd); qn = z >> 31; qz = z >> 30 & 1; qc = z >> 29 & 1; qv = z >> 28 & 1; fpscr = z & 0x0fffffff; } }
        else if (dbl && (o == 0 || o == 1) && !(w >> 5 & 3) && vn < 16) { if (L) set(rd, d[vn] >> 32 * o); else d[vn] = d[vn] & ~(0xffffffffull << 32 * o) | (u64)r(rd) << 32 * o; } else bad(); break; }
      int o = (w >> 23 & 1) << 3 | (w >> 20 & 3); bool op = w >> 6 & 1; if (dbl && o != 11 && (vd > 15 || vn > 15 || vm > 15)) bad();
      auto two = [&](auto f) { if (dbl) D(vd, f(D(vd), D(vn), D(vm))); else S(vd, f(S(vd), S(vn), S(vm))); };
      switch (o) { case 0: two([&](auto c, auto a, auto b) { decltype(c) p = a * b; return op ? c - p : c + p; }); break; case 1: two([&](auto c, auto a, auto b) { decltype(c) p = a * b; return op ? -c - p : -c + p; }); break; case 2: two([&](auto c, auto a, auto b) { return op ? -(a * b) : a * b; }); break; case 3: two([&](auto c, auto a, auto b) { return op ? a - b : a + b; }); break; case 8: two([&](auto c, auto a, auto b) { return a / b; }); break;
      case 9: two([&](auto c, auto a, auto b) { return op ? std::fma(-a, b, -c) : std::fma(a, b, -c); }); break; case 10: two([&](auto c, auto a, auto b) { return op ? std::fma(-a, b, c) : std::fma(a, b, c); }); break;
      case 11: { if (!op) { double v = vimm(rn << 4 | rm, dbl); if (dbl) D(vd, v); else S(vd, v); break; } int o2 = rn, o3 = w >> 6 & 3; if (dbl && o2 != 8 && o2 != 7 && vm > 15) bad();
        if (o2 == 0) { if (dbl) d[vd] = o3 == 3 ? d[vm] & ~(1ull << 63) : d[vm]; else s[vd] = o3 == 3 ? s[vm] & 0x7fffffff : s[vm]; } else if (o2 == 1) { if (o3 == 1) { if (dbl) d[vd] = d[vm] ^ 1ull << 63; else s[vd] = s[vm] ^ 0x80000000; } else if (dbl) D(vd, sqrt(D(vm))); else S(vd, sqrtf(S(vm))); }
        else if (o2 == 4) dbl ? vcmp(D(vd), D(vm)) : vcmp(S(vd), S(vm)); else if (o2 == 5) dbl ? vcmp(D(vd), 0) : vcmp(S(vd), 0); else if (o2 == 7 && o3 == 3) { if (dbl) { int t = rd << 1 | Db; S(t, D(vm)); } else { int t = rd | Db << 4; if (t > 15) bad(); D(t, S(vm)); } }
        else if (o2 == 8) { u32 v = s[rm << 1 | M]; double z = o3 >> 1 ? (double)(i32)v : (double)v; if (dbl) D(vd, z); else S(vd, o3 >> 1 ? (float)(i32)v : (float)v); } else if (o2 == 12 || o2 == 13) { double z = dbl ? D(vm) : S(vm); if (!(o3 >> 1)) z = nearbyint(z); else z = trunc(z); s[rd << 1 | Db] = o2 == 12 ? sat<u32>(z) : (u32)sat<i32>(z); } else bad(); break; }
      default: bad(); } break; }
    }
    pc = npc;
  }
};
