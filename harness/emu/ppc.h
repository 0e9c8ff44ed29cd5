// Power, 64 or 32 bits, either byte order, with floating point and some vector instructions; ELFv2 or the 32-bit System V convention
struct Cpu : Machine<Cpu> {
  u64 x[32] = {}, f[32] = {}, lr = 0, ctr = 0, resv = 0; u64 flo[32] = {}; u128 v[32]; u32 cr = 0, fpscr = 0; bool ca = false, b32 = false, soft = false, vec = false; u64 pending = 0, n_vec = 0; std::vector<u64> icbis;
  static constexpr const char *name = "powerpc"; static constexpr int spalign = 16;
  Cpu() { memset(v, 0, sizeof v); }
  bool discards(bool s) { return s; }        // documented of void functions only, made to work for structures
  int abiok(int i, bool) { return b32 ? i >= 8 && i < 32 && (i & 8) || i == 1 || i == 2 || i == 4 || i == 5 ? soft && !(i & 1) || i == 1 && soft ? 2 : 1 : 0 : i >= 8 && i < 16 && i != 12 && i != 13; }
  u64 handed(u64 a, char) { return std::min<u64>(a, 8); }     // a long double is a pair of doubles, and accessed as one
  u64 zone() { return b32 ? 0 : 512; }       // below the stack pointer: what signal handlers leave alone
  u64 n(u64 q) { return b32 ? (u32)q : q; }
  u64 sp() { return x[1]; } void setsp(u64 q) { x[1] = q; }
  u64 argslot(int i) { return b32 ? x[1] + 8 + (i - 8) * 4 : x[1] + 32 + i * 8; }
  u64 arg(int i) { return i >= 8 ? peekp(argslot(i)) : x[3 + i]; } void setarg(int i, u64 q) { if (i >= 8) pokep(argslot(i), q); else x[3 + i] = n(q); } u64 result() { return x[3]; } void setresult(u64 q) { x[3] = n(q); }
  u64 chain() { return x[11]; } u64 sret() { return x[3]; } void setchain(u64 q) { x[11] = n(q); }
  void setra(u64 q) { lr = q; } u64 ra() { return lr; } void enter(u64 t) { x[12] = t; direct = false; } void init() { b32 = bits == 32; vec = !b32; soft = syms.count("__extendsfdf2"); } void stats() { printf("STAT powerpc_vector_accesses %lu\n", n_vec); } void hostreturn() { pc = lr; returned(); }
  bool direct = true;      // the last call named its target
  static constexpr u32 keptcr = 0x00fff000;
  void save(Frame &s) { int k = 0; for (int i = 13; i < 32; i++) s.saved[k++] = x[i]; for (int i = 14; i < 32; i++) s.saved[k++] = f[i]; s.saved[k++] = cr & keptcr; s.saved[k++] = fpscr & 255; if (vec) { u64 h = 0; for (int i = 20; i < 32; i++) h = Rng::mix(Rng::mix(h ^ (u64)v[i]) ^ (u64)(v[i] >> 64)); s.saved[k++] = h; } }
  void check(Frame &s) { Frame q; save(q); int k = 0; for (int i = 13; i < 32; i++, k++) if (q.saved[k] != s.saved[k]) viol("callee-saved", "%s returns with r%d %lx, called with %lx", where(s.target).c_str(), i, (long)q.saved[k], (long)s.saved[k]);
    for (int i = 14; i < 32; i++, k++) if (q.saved[k] != s.saved[k]) viol("callee-saved", "%s returns with f%d %lx, called with %lx", where(s.target).c_str(), i, (long)q.saved[k], (long)s.saved[k]); if (q.saved[k] != s.saved[k]) viol("callee-saved", "%s returns with condition register %lx, called with %lx", where(s.target).c_str(), (long)q.saved[k], (long)s.saved[k]); k++; if (q.saved[k] != s.saved[k]) viol("float-control", "%s changes the floating-point control bits", where(s.target).c_str()); k++; if (vec && q.saved[k] != s.saved[k]) viol("callee-saved", "%s returns with other values in v20-v31", where(s.target).c_str()); }
  void crjunk(bool in) { u32 j = junk(), m = ~keptcr; if (in && b32) m &= ~0x02000000u; cr = cr & ~m | j & m; ca = j & 1; }      // cr6: a variadic call passes floating-point values
  void vjunk(std::initializer_list<int> l) { for (int i : l) v[i] = (u128)junk() << 64 | junk(); }
  void clobber_in() { x[0] = n(junk()); if (direct) x[12] = n(junk()); ctr = n(junk()); f[0] = junk(); for (u64 &q : flo) q = junk(); crjunk(true); if (vec) vjunk({ 0, 1, 14, 15, 16, 17, 18, 19 }); }
  void clobber_out(u64) { x[0] = n(junk()); for (int i = 5; i < 13; i++) x[i] = n(junk()); ctr = n(junk()); crjunk(false); f[0] = junk(); for (u64 &q : flo) q = junk(); for (int i = b32 ? 5 : 9; i < 14; i++) f[i] = junk(); if (vec) vjunk({ 0, 1, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19 }); }
  void scramble() { for (int i = 0; i < 32; i++) if (i != 1) x[i] = n(junk()); if (!b32) x[2] = toc(); for (u64 &q : f) q = junk(); crjunk(false); ctr = junk(); if (vec) for (u128 &q : v) q = (u128)junk() << 64 | junk(); }
  u64 toc() { return 0; }   // functions called by address find their own
  void garbage(int) {}      // results and arguments are extended to full registers
  bool bit(int i) { return cr >> (31 - i) & 1; } void setbit(int i, bool q) { cr = cr & ~(1u << (31 - i)) | (u32)q << (31 - i); }
  void crf(int i, u32 q) { cr = cr & ~(0xf0000000u >> 4 * i) | q << (28 - 4 * i); }
  void cmps(int i, i64 a, i64 b) { crf(i, a < b ? 8 : a > b ? 4 : 2); } void cmpu(int i, u64 a, u64 b) { crf(i, a < b ? 8 : a > b ? 4 : 2); }
  u64 add(u64 a, u64 b, int c) { if (b32) { u64 q = (u64)(u32)a + (u32)b + c; ca = q >> 32; return (u32)q; } u128 q = (u128)a + b + c; ca = q >> 64; return q; }
  static u64 mask(int b, int e) { u64 m = ~0ull >> b, k = ~0ull << (63 - e); return b <= e ? m & k : m | k; } static u64 rot(u64 q, int k) { return k ? q << k | q >> (64 - k) : q; }
  static u64 rot32(u64 q, int k) { u64 w = (u32)q; w |= w << 32; return rot(w, k); }
  double D(int i) { return asf<double>(f[i]); } void D(int i, double d) { f[i] = asu(d); } void S(int i, double d) { f[i] = asu((double)(float)d); }
  static u64 widen(u32 s) { u64 sg = (u64)(s >> 31) << 63; u32 e = s >> 23 & 255, m = s & 0x7fffff; if (e == 255) return sg | 0x7ffull << 52 | (u64)m << 29; if (!e && !m) return sg; if (e) return sg | (u64)(e + 896) << 52 | (u64)m << 29; int k = 0; while (!(m & 0x800000)) m <<= 1, k++; return sg | (u64)(897 - k) << 52 | (u64)(m & 0x7fffff) << 29; }
  static u32 narrow(u64 d) { u32 sg = d >> 63 << 31; int e = d >> 52 & 2047; u64 m = d & 0xfffffffffffffull; if (e > 896 || !(d << 1)) return sg | (u32)(d >> 32 & 0x40000000) | (u32)(d >> 29 & 0x3fffffff); if (e < 874) return sg; m |= 1ull << 52; return sg | (u32)(m >> (29 + 897 - e)); }    // as stfs does
  u128 vld(u64 a) { n_vec++; a &= ~15ull; access(a, 16, R); u128 q; memcpy(&q, (void *)a, 16); return bsw(q); } void vst(u64 a, u128 q) { n_vec++; a &= ~15ull; access(a, 16, W); q = bsw(q); memcpy((void *)a, &q, 16); }
  void step(u32 w) {
    u64 npc = pc + 4; auto bad = [&] { if (!w || w == 0xffffffff) viol("crash-illegal-instruction", "at %s", where(pc).c_str()); unknown(w, pc); };
    int op = w >> 26, rt = w >> 21 & 31, ra = w >> 16 & 31, rb = w >> 11 & 31, xo = w >> 1 & 1023; bool rc = w & 1; i64 si = (i16)w; u64 ui = w & 0xffff, a0 = ra ? x[ra] : 0, ea = n(a0 + si), exi = n(a0 + x[rb]), ds = n(a0 + (si & ~3ll));
    auto set = [&](int i, u64 q) { x[i] = n(q); }; auto rec = [&](u64 q) { if (rc) b32 ? cmps(0, (i32)q, 0) : cmps(0, q, 0); }; auto res = [&](int i, u64 q) { x[i] = n(q); rec(q); }; auto upd = [&](u64 e) { x[ra] = e; };
    auto branch = [&](u64 t, bool link, bool ret) { t = n(t); if (link) { lr = npc; pc = t; called(npc); } else { pc = t; if (ret) returned(); else jumped(); } };
    auto taken = [&] { int bo = rt, bi = ra; if (!(bo & 4)) ctr = n(ctr - 1); bool cok = bo & 4 || (ctr != 0) != (bo >> 1 & 1), k = bo & 16 || bit(bi) == (bo >> 3 & 1); return cok && k; };
    switch (op) {
    case 4: { u128 a = v[ra], b = v[rb]; switch (w & 2047) { case 1156: v[rt] = a | b; break; case 1220: v[rt] = a ^ b; break; case 1028: v[rt] = a & b; break; case 1092: v[rt] = a & ~b; break; case 1284: v[rt] = ~(a | b); break;
      case 192: case 1216: case 1476: case 1732: case 964: { auto g = [&](u64 p, u64 q) -> u64 { switch (w & 2047) { case 192: return p + q; case 1216: return p - q; case 1476: return p << (q & 63); case 1732: return p >> (q & 63); default: return (i64)p >> (q & 63); } }; v[rt] = (u128)g(a >> 64, b >> 64) << 64 | g(a, b); break; }
      case 780: case 844: case 908: { u128 q = 0; int z = (w & 2047) == 780 ? 8 : (w & 2047) == 844 ? 16 : 32; i64 s = sx(ra, 5); for (int i = 0; i < 128; i += z) q |= (u128)((u64)s & ((1ull << z) - 1)) << i; v[rt] = q; break; } default:
      if ((w & 63) == 43) { int c = w >> 6 & 31; v64s(rt, ra, rb, c); break; } if ((w & 63) == 44) { int sh = w >> 6 & 15; v[rt] = sh ? a << 8 * sh | b >> (128 - 8 * sh) : a; break; } bad(); } break; }
    case 7: set(rt, x[ra] * si); break;
    case 8: set(rt, add(~x[ra], si, 1)); break;
    case 10: { u64 a = x[ra]; if (!(rt & 1)) a = (u32)a; cmpu(rt >> 2, a, ui); break; } case 11: { i64 a = x[ra]; if (!(rt & 1)) a = (i32)a; cmps(rt >> 2, a, si); break; }
    case 12: set(rt, add(x[ra], si, 0)); break; case 13: set(rt, add(x[ra], si, 0)); b32 ? cmps(0, (i32)x[rt], 0) : cmps(0, x[rt], 0); break;
    case 14: set(rt, a0 + si); break; case 15: set(rt, a0 + (u64)(si << 16)); break;
    case 16: { u64 t = (w & 2 ? 0 : pc) + (i64)(i16)(w & 0xfffc); bool lk = w & 1; if (lk && rt == 20 && t == npc) { lr = npc; pc = npc; return; } if (taken()) { if (lk) { direct = true; branch(t, true, false); return; } npc = n(t); } break; }
    case 18: { u64 t = (w & 2 ? 0 : pc) + sx(w & 0x3fffffc, 26); if (w & 1) direct = true, branch(t, true, false); else pc = n(t); return; }
    case 19: switch (xo) {
      case 16: { u64 t = lr & ~3ull; if (taken()) { if (rc) direct = false; branch(t, rc, !rc); return; } break; }
      case 528: { if (!(rt & 4)) bad(); u64 t = ctr & ~3ull; if (taken()) { if (rc) direct = false; branch(t, rc, false); return; } break; }
      case 150: for (u64 a : icbis) flush(a, a + (b32 ? 32 : 64)); icbis.clear(); break;
      case 0: crf(rt >> 2, cr >> (28 - 4 * (ra >> 2)) & 15); break;
      case 257: setbit(rt, bit(ra) & bit(rb)); break; case 449: setbit(rt, bit(ra) | bit(rb)); break; case 193: setbit(rt, bit(ra) ^ bit(rb)); break; case 33: setbit(rt, !(bit(ra) | bit(rb))); break; case 129: setbit(rt, bit(ra) & !bit(rb)); break; case 289: setbit(rt, bit(ra) == bit(rb)); break; case 417: setbit(rt, bit(ra) | !bit(rb)); break; case 225: setbit(rt, !(bit(ra) & bit(rb))); break;
      default: if ((xo & 31) == 2) { set(rt, pc + (u64)((i64)(i16)((w & 0xffc0) | (w >> 15 & 0x3e) | (w & 1)) << 16) + 4); break; } bad(); } break;
    case 20: { u64 m = mask(32 + (w >> 6 & 31), 32 + (w >> 1 & 31)); res(ra, rot32(x[rt], rb) & m | x[ra] & ~m); break; }
    case 21: res(ra, rot32(x[rt], rb) & mask(32 + (w >> 6 & 31), 32 + (w >> 1 & 31))); break; case 23: res(ra, rot32(x[rt], x[rb] & 31) & mask(32 + (w >> 6 & 31), 32 + (w >> 1 & 31))); break;
    case 24: set(ra, x[rt] | ui); break; case 25: set(ra, x[rt] | ui << 16); break; case 26: set(ra, x[rt] ^ ui); break; case 27: set(ra, x[rt] ^ ui << 16); break; case 28: rc = true; res(ra, x[rt] & ui); break; case 29: rc = true; res(ra, x[rt] & ui << 16); break;
    case 30: { if (b32) bad(); int sh = rb | (w & 2) << 4, mb = (w >> 6 & 31) | (w & 32); u64 q = rot(x[rt], sh), m; switch (w >> 2 & 7) { case 0: res(ra, q & mask(mb, 63)); break; case 1: res(ra, q & mask(0, mb)); break; case 2: res(ra, q & mask(mb, 63 - sh)); break; case 3: m = mask(mb, 63 - sh); res(ra, q & m | x[ra] & ~m); break; case 4: q = rot(x[rt], x[rb] & 63); res(ra, q & (w & 2 ? mask(0, mb) : mask(mb, 63))); break; default: bad(); } break; }
    case 31: {
      if ((w & 63) == 30) { set(rt, bit(w >> 6 & 31) ? a0 : x[rb]); break; }
      u64 a = x[ra], b = x[rb], s = x[rt]; bool al = true; int x9 = xo & 511;
      switch (x9) { case 8: res(rt, add(~a, b, 1)); break; case 10: res(rt, add(a, b, 0)); break; case 40: res(rt, b - a); break; case 104: res(rt, -a); break; case 136: res(rt, add(~a, b, ca)); break; case 138: res(rt, add(a, b, ca)); break; case 200: res(rt, add(~a, 0, ca)); break; case 202: res(rt, add(a, 0, ca)); break; case 232: res(rt, add(~a, ~0ull, ca)); break; case 234: res(rt, add(a, ~0ull, ca)); break; case 266: res(rt, a + b); break;
        case 235: res(rt, (u64)((i64)(i32)a * (i32)b)); break; case 75: res(rt, (u64)((i64)(i32)a * (i32)b >> 32) & 0xffffffff); break; case 11: res(rt, (u64)(u32)a * (u32)b >> 32); break; case 233: res(rt, a * b); break; case 73: res(rt, (u64)((__int128)(i64)a * (i64)b >> 64)); break; case 9: res(rt, (u64)((u128)a * b >> 64)); break;
        case 491: res(rt, (i32)b && !((i32)a == INT32_MIN && (i32)b == -1) ? (u32)((i32)a / (i32)b) : (u32)junk()); break; case 459: res(rt, (u32)b ? (u32)a / (u32)b : (u32)junk()); break; case 489: res(rt, b && !((i64)a == INT64_MIN && (i64)b == -1) ? (u64)((i64)a / (i64)b) : junk()); break; case 457: res(rt, b ? a / b : junk()); break;
        default: al = false; }
      if (al) { if (w >> 10 & 1 && x9 != 75 && x9 != 11 && x9 != 73 && x9 != 9) bad(); break; }
      switch (xo) {
      case 0: if (rt & 1) cmps(rt >> 2, a, b); else cmps(rt >> 2, (i32)a, (i32)b); break; case 32: if (rt & 1) cmpu(rt >> 2, a, b); else cmpu(rt >> 2, (u32)a, (u32)b); break;
      case 4: case 68: if (rt == 31) viol("crash-trap", "trap at %s", where(pc).c_str()); bad(); break;
      case 28: res(ra, s & b); break; case 60: res(ra, s & ~b); break; case 124: res(ra, ~(s | b)); break; case 284: res(ra, ~(s ^ b)); break; case 316: res(ra, s ^ b); break; case 412: res(ra, s | ~b); break; case 444: res(ra, s | b); break; case 476: res(ra, ~(s & b)); break;
      case 26: res(ra, (u32)s ? __builtin_clz((u32)s) : 32); break; case 58: res(ra, s ? __builtin_clzll(s) : 64); break; case 954: res(ra, (u64)(i64)(i8)s); break; case 922: res(ra, (u64)(i64)(i16)s); break; case 986: res(ra, (u64)(i64)(i32)s); break; case 506: res(ra, __builtin_popcountll(s)); break; case 378: res(ra, __builtin_popcount((u32)s) | (u64)__builtin_popcount(s >> 32) << 32); break;
      case 508: { u64 q = 0; for (int i = 0; i < 64; i += 8) if ((s >> i & 255) == (b >> i & 255)) q |= 255ull << i; set(ra, q); break; }
      case 24: res(ra, b & 32 ? 0 : (u32)((u32)s << (b & 31))); break; case 27: res(ra, b & 64 ? 0 : s << (b & 63)); break; case 536: res(ra, b & 32 ? 0 : (u32)s >> (b & 31)); break; case 539: res(ra, b & 64 ? 0 : s >> (b & 63)); break;
      case 792: { int k = b & 63; ca = (i32)s < 0 && (k > 31 || (u32)s & ((1ull << k) - 1)); res(ra, (u64)(i64)((i32)s >> std::min(k, 31))); break; } case 794: { int k = b & 127; ca = (i64)s < 0 && (k > 63 || s & ((1ull << k) - 1)); res(ra, (u64)((i64)s >> std::min(k, 63))); break; }
      case 824: ca = (i32)s < 0 && (u32)s & ((1ull << rb) - 1); res(ra, (u64)(i64)((i32)s >> rb)); break; case 826: case 827: { int k = rb | (w & 2) << 4; ca = (i64)s < 0 && s & ((1ull << k) - 1); res(ra, (u64)((i64)s >> k)); break; }
      case 23: set(rt, ld<u32>(exi)); break; case 55: set(rt, ld<u32>(exi)); upd(exi); break; case 87: set(rt, ld<u8>(exi)); break; case 119: set(rt, ld<u8>(exi)); upd(exi); break; case 279: set(rt, ld<u16>(exi)); break; case 311: set(rt, ld<u16>(exi)); upd(exi); break; case 343: set(rt, (i64)ld<i16>(exi)); break; case 375: set(rt, (i64)ld<i16>(exi)); upd(exi); break; case 341: set(rt, (i64)ld<i32>(exi)); break; case 373: set(rt, (i64)ld<i32>(exi)); upd(exi); break; case 21: set(rt, ld<u64>(exi)); break; case 53: set(rt, ld<u64>(exi)); upd(exi); break;
      case 151: st<u32>(exi, s); break; case 183: if (ra == 1) stackup(exi, 4, s); else st<u32>(exi, s), upd(exi); break; case 215: st<u8>(exi, s); break; case 247: st<u8>(exi, s); upd(exi); break; case 407: st<u16>(exi, s); break; case 439: st<u16>(exi, s); upd(exi); break; case 149: st<u64>(exi, s); break; case 181: if (ra == 1) stackup(exi, 8, s); else st<u64>(exi, s), upd(exi); break;
      case 535: f[rt] = widen(ld<u32>(exi)); break; case 567: f[rt] = widen(ld<u32>(exi)); upd(exi); break; case 599: f[rt] = ld<u64>(exi); break; case 631: f[rt] = ld<u64>(exi); upd(exi); break; case 663: st<u32>(exi, narrow(f[rt])); break; case 695: st<u32>(exi, narrow(f[rt])); upd(exi); break; case 727: st<u64>(exi, f[rt]); break; case 759: st<u64>(exi, f[rt]); upd(exi); break; case 983: st<u32>(exi, f[rt]); break; case 855: f[rt] = (i64)ld<i32>(exi); break; case 887: f[rt] = ld<u32>(exi); break;
      case 534: set(rt, __builtin_bswap32(ld<u32>(exi))); break; case 662: st<u32>(exi, __builtin_bswap32(s)); break; case 790: set(rt, __builtin_bswap16(ld<u16>(exi))); break; case 918: st<u16>(exi, __builtin_bswap16(s)); break; case 532: set(rt, __builtin_bswap64(ld<u64>(exi))); break; case 660: st<u64>(exi, __builtin_bswap64(s)); break;
      case 103: case 359: v[rt] = vld(exi); break; case 231: case 487: vst(exi, v[rt]); break;
      case 844: access(exi, 16, R); vs(rt | (w & 1) << 5, (u128)peek<u64>(exi) << 64 | peek<u64>(exi + 8)); break; case 972: { u128 q = vs(rt | (w & 1) << 5); access(exi, 16, W); poke<u64>(exi, q >> 64); poke<u64>(exi + 8, q); break; }
      case 588: vs(rt | (w & 1) << 5, (u128)ld<u64>(exi) << 64 | junk()); break; case 716: st<u64>(exi, vs(rt | (w & 1) << 5) >> 64); break; case 524: vs(rt | (w & 1) << 5, (u128)widen(ld<u32>(exi)) << 64 | junk()); break; case 652: st<u32>(exi, narrow(vs(rt | (w & 1) << 5) >> 64)); break;
      case 76: vs(rt | (w & 1) << 5, (u128)(u64)(i64)ld<i32>(exi) << 64 | junk()); break; case 12: vs(rt | (w & 1) << 5, (u128)ld<u32>(exi) << 64 | junk()); break; case 140: st<u32>(exi, vs(rt | (w & 1) << 5) >> 64); break; case 332: { u64 q = ld<u64>(exi); vs(rt | (w & 1) << 5, (u128)q << 64 | q); break; }
      case 780: { access(exi, 16, R); u128 q = 0; for (int i = 0; i < 4; i++) q = q << 32 | peek<u32>(exi + 4 * i); vs(rt | (w & 1) << 5, q); break; } case 908: { access(exi, 16, W); u128 q = vs(rt | (w & 1) << 5); for (int i = 0; i < 4; i++) poke<u32>(exi + 4 * i, q >> (96 - 32 * i)); break; }
      case 20: set(rt, ld<u32>(exi)); break; case 84: set(rt, ld<u64>(exi)); break; case 52: set(rt, ld<u8>(exi)); break; case 116: set(rt, ld<u16>(exi)); break; case 150: st<u32>(exi, s); crf(0, 2); break; case 214: st<u64>(exi, s); crf(0, 2); break; case 694: st<u8>(exi, s); crf(0, 2); break; case 726: st<u16>(exi, s); crf(0, 2); break;
      case 86: case 54: access(exi, 1, R); break; case 982: access(exi, 1, R); icbis.push_back(exi & ~(b32 ? 31ull : 63ull)); break; case 598: case 854: case 278: case 246: break;
      case 339: case 467: { int sp = ra | rb << 5; u64 *r = sp == 8 ? &lr : sp == 9 ? &ctr : 0; if (sp == 1) { if (xo == 339) set(rt, (u64)ca << 29); else ca = s >> 29 & 1; break; } if (sp == 256) { if (xo == 339) set(rt, 0xffffffff); break; } if (!r) bad(); if (xo == 339) set(rt, *r); else *r = n(s); break; }
      case 19: set(rt, cr); break; case 144: { u32 m = 0; for (int i = 0; i < 8; i++) if (w >> (12 + i) & 1) m |= 15u << 4 * i; cr = cr & ~m | (u32)s & m; break; }
      case 51: set(ra, vs(rt | (w & 1) << 5) >> 64); break; case 115: set(ra, (u32)(vs(rt | (w & 1) << 5) >> 64)); break; case 179: case 211: case 243: { u64 q = xo == 179 ? a : xo == 211 ? (u64)(i64)(i32)a : (u32)a; vs(rt | (w & 1) << 5, (u128)q << 64 | junk()); break; }
      default: bad(); } break; }
    case 32: set(rt, ld<u32>(ea)); break; case 33: set(rt, ld<u32>(ea)); upd(ea); break; case 34: set(rt, ld<u8>(ea)); break; case 35: set(rt, ld<u8>(ea)); upd(ea); break; case 36: st<u32>(ea, x[rt]); break; case 37: if (ra == 1) stackup(ea, 4, x[rt]); else st<u32>(ea, x[rt]), upd(ea); break; case 38: st<u8>(ea, x[rt]); break; case 39: st<u8>(ea, x[rt]); upd(ea); break;
    case 40: set(rt, ld<u16>(ea)); break; case 41: set(rt, ld<u16>(ea)); upd(ea); break; case 42: set(rt, (i64)ld<i16>(ea)); break; case 43: set(rt, (i64)ld<i16>(ea)); upd(ea); break; case 44: st<u16>(ea, x[rt]); break; case 45: st<u16>(ea, x[rt]); upd(ea); break; case 46: for (int i = rt; i < 32; i++) set(i, ld<u32>(ea + 4 * (i - rt))); break; case 47: for (int i = rt; i < 32; i++) st<u32>(ea + 4 * (i - rt), x[i]); break;
    case 48: f[rt] = widen(ld<u32>(ea)); break; case 49: f[rt] = widen(ld<u32>(ea)); upd(ea); break; case 50: f[rt] = ld<u64>(ea); break; case 51: f[rt] = ld<u64>(ea); upd(ea); break; case 52: st<u32>(ea, narrow(f[rt])); break; case 53: st<u32>(ea, narrow(f[rt])); upd(ea); break; case 54: st<u64>(ea, f[rt]); break; case 55: st<u64>(ea, f[rt]); upd(ea); break;
    case 58: if (b32) bad(); switch (w & 3) { case 0: set(rt, ld<u64>(ds)); break; case 1: set(rt, ld<u64>(ds)); upd(ds); break; case 2: set(rt, (i64)ld<i32>(ds)); break; default: bad(); } break;
    case 62: if (b32) bad(); switch (w & 3) { case 0: st<u64>(ds, x[rt]); break; case 1: if (ra == 1) stackup(ds, 8, x[rt]); else st<u64>(ds, x[rt]), upd(ds); break; default: bad(); } break;
    case 59: { int fc = w >> 6 & 31; if (rc) bad(); switch (w >> 1 & 31) { case 18: S(rt, D(ra) / D(rb)); break; case 20: S(rt, D(ra) - D(rb)); break; case 21: S(rt, D(ra) + D(rb)); break; case 22: S(rt, sqrtf(D(rb))); break; case 25: S(rt, D(ra) * D(fc)); break; case 28: S(rt, fmaf(D(ra), D(fc), -D(rb))); break; case 29: S(rt, fmaf(D(ra), D(fc), D(rb))); break; case 30: S(rt, -fmaf(D(ra), D(fc), -D(rb))); break; case 31: S(rt, -fmaf(D(ra), D(fc), D(rb))); break;
      default: if (xo == 846) S(rt, (float)(i64)f[rb]); else if (xo == 974) S(rt, (float)f[rb]); else bad(); } break; }
    case 60: { n_vec++; int T = rt | (w & 1) << 5, A = ra | (w & 4) << 3, B = rb | (w & 2) << 4, o = w >> 3 & 255; u128 a = vs(A), b = vs(B), q = 0; double da = asf<double>((u64)(a >> 64)), db = asf<double>((u64)(b >> 64)); auto sc = [&](double d) { vs(T, (u128)asu(d) << 64 | junk()); }; auto si_ = [&](u64 z) { vs(T, (u128)z << 64 | junk()); };
      if ((o & 0x9f) == 10) { vs(T, (o & 64 ? a : a >> 64) << 64 | (u64)(o & 32 ? b : b >> 64)); break; }
      if ((o & 0x9f) == 2) { int k = 32 * (o >> 5 & 3); vs(T, k ? a << k | b >> (128 - k) : a); break; }
      switch (o) { case 146: vs(T, a | b); goto out; case 154: vs(T, a ^ b); goto out; case 130: vs(T, a & b); goto out; case 138: vs(T, a & ~b); goto out; case 162: vs(T, ~(a | b)); goto out; case 0: sc((float)(da + db)); goto out; case 8: sc((float)(da - db)); goto out; case 16: sc((float)(da * db)); goto out; case 24: sc((float)(da / db)); goto out; case 32: sc(da + db); goto out; case 40: sc(da - db); goto out; case 48: sc(da * db); goto out; case 56: sc(da / db); goto out; case 35: crf(rt >> 2, std::isnan(da) || std::isnan(db) ? 1 : da < db ? 8 : da > db ? 4 : 2); goto out;
        case 176: si_((u64)(b >> 64) & ~(1ull << 63) | (u64)(a >> 64) & 1ull << 63); goto out; }
      switch (w >> 2 & 511) { case 345: si_((u64)(b >> 64) & ~(1ull << 63)); break; case 377: si_((u64)(b >> 64) ^ 1ull << 63); break; case 344: si_(sat<i64>(trunc(db))); break; case 88: si_((u64)(u32)sat<i32>(trunc(db)) << 32 | (u32)sat<i32>(trunc(db))); break; case 328: si_(sat<u64>(trunc(db))); break; case 376: sc((double)(i64)(b >> 64)); break; case 360: sc((double)(u64)(b >> 64)); break; case 281: sc((float)db); break; case 312: sc((float)(i64)(b >> 64)); break; case 296: sc((float)(u64)(b >> 64)); break; case 267: si_((u64)narrow(b >> 64) * 0x100000001); break; case 331: si_(widen(b >> 96)); break; default: bad(); }
      out: break; }
    case 63: { int fc = w >> 6 & 31; if (rc) bad(); bool al = true; switch (w >> 1 & 31) { case 18: D(rt, D(ra) / D(rb)); break; case 20: D(rt, D(ra) - D(rb)); break; case 21: D(rt, D(ra) + D(rb)); break; case 22: D(rt, sqrt(D(rb))); break; case 23: f[rt] = D(ra) >= 0 ? f[fc] : f[rb]; break; case 25: D(rt, D(ra) * D(fc)); break; case 28: D(rt, fma(D(ra), D(fc), -D(rb))); break; case 29: D(rt, fma(D(ra), D(fc), D(rb))); break; case 30: D(rt, -fma(D(ra), D(fc), -D(rb))); break; case 31: D(rt, -fma(D(ra), D(fc), D(rb))); break; default: al = false; }
      if (al) break; double b = D(rb); switch (xo) { case 0: case 32: { double a = D(ra); crf(rt >> 2, std::isnan(a) || std::isnan(b) ? 1 : a < b ? 8 : a > b ? 4 : 2); break; } case 12: S(rt, b); break; case 14: f[rt] = (u32)sat<i32>(nearbyint(b)); break; case 15: f[rt] = (u32)sat<i32>(trunc(b)); break; case 143: f[rt] = sat<u32>(trunc(b)); break; case 814: f[rt] = sat<i64>(nearbyint(b)); break; case 815: f[rt] = sat<i64>(trunc(b)); break; case 943: f[rt] = sat<u64>(trunc(b)); break; case 846: D(rt, (double)(i64)f[rb]); break; case 974: D(rt, (double)f[rb]); break;
        case 40: f[rt] = f[rb] ^ 1ull << 63; break; case 72: f[rt] = f[rb]; break; case 264: f[rt] = f[rb] & ~(1ull << 63); break; case 136: f[rt] = f[rb] | 1ull << 63; break; case 8: f[rt] = f[rb] & ~(1ull << 63) | f[ra] & 1ull << 63; break; case 583: f[rt] = fpscr; break; case 711: { u32 m = 0; for (int i = 0; i < 8; i++) if (w >> (17 + i) & 1) m |= 15u << 4 * i; fpscr = fpscr & ~m | (u32)f[rb] & m; break; } case 70: fpscr &= ~(1u << (31 - rt)); break; case 38: fpscr |= 1u << (31 - rt); break; case 392: D(rt, round(b)); break; case 424: D(rt, trunc(b)); break; case 456: D(rt, ceil(b)); break; case 488: D(rt, floor(b)); break; default: bad(); } break; }
    default: bad(); }
    pc = npc;
  }
  void v64s(int rt, int ra, int rb, int c) { u128 a = v[ra], b = v[rb], m = v[c]; u8 t[32]; for (int i = 0; i < 16; i++) t[i] = a >> (120 - 8 * i), t[16 + i] = b >> (120 - 8 * i); u128 q = 0; for (int i = 0; i < 16; i++) q = q << 8 | t[(int)(m >> (120 - 8 * i)) & 31]; v[rt] = q; }    // vperm
  u128 vs(int i) { return i < 32 ? (u128)f[i] << 64 | flo[i] : v[i - 32]; } void vs(int i, u128 q) { if (i < 32) f[i] = q >> 64, flo[i] = q; else v[i - 32] = q; }
  // the stack pointer moves with the store of the back chain
  void stackup(u64 e, int z, u64 q) { x[1] = e; if (z == 8) st<u64>(e, q); else st<u32>(e, q); }
};
