// z/Architecture (z10), 64-bit ELF ABI
struct Cpu : Machine<Cpu> {
  u64 x[16] = {}, f[16] = {}; int cc = 0; u32 fpc = 0; int own = 0;   // register 14 is a return address: 0 of the caller, 1 made by the program; 2 it is something else
  static constexpr const char *name = "s390x"; static constexpr int spalign = 8;
  u64 sp() { return x[15]; } void setsp(u64 v) { x[15] = v; }
  u64 arg(int i) { return i >= 5 ? peek<u64>(x[15] + 160 + (i - 5) * 8) : x[2 + i]; } void setarg(int i, u64 v) { if (i > 4) poke<u64>(x[15] + 160 + (i - 5) * 8, v); else x[2 + i] = v; } u64 result() { return x[2]; } void setresult(u64 v) { x[2] = v; }
  u64 chain() { return x[0]; } u64 sret() { return x[2]; } void setchain(u64 v) { x[0] = v; }
  void setra(u64 v) { x[14] = v; } u64 ra() { return x[14]; } void enter(u64) {} void init() {} void stats() {} void hostreturn() { pc = x[14]; returned(); }
  void save(Frame &s) { int k = 0; for (int i = 6; i < 14; i++) s.saved[k++] = x[i]; for (int i = 8; i < 16; i++) s.saved[k++] = f[i]; s.saved[k++] = fpc & 7; }
  void check(Frame &s) { Frame n; save(n); for (int k = 0; k < 17; k++) if (n.saved[k] != s.saved[k]) { if (k == 16) viol("float-control", "%s changes the rounding mode", where(s.target).c_str()); viol("callee-saved", "%s returns with %s%d %lx, called with %lx", where(s.target).c_str(), k < 8 ? "r" : "f", k < 8 ? k + 6 : k, (long)n.saved[k], (long)s.saved[k]); } }
  void clobber_in() { x[1] = junk(); for (int i = 1; i < 8; i += 2) f[i] = junk(); cc = junk() & 3; own = 0; }
  void clobber_out(u64) { x[0] = junk(); x[1] = junk(); x[14] = junk(); for (int i = 3; i < 6; i++) x[i] = junk(); for (int i = 1; i < 8; i++) f[i] = junk(); cc = junk() & 3; own = 0; }
  void scramble() { for (int i = 0; i < 15; i++) x[i] = junk(); for (u64 &q : f) q = junk(); cc = junk() & 3; }
  void garbage(int) {}     // results and arguments are extended to full registers
  u64 fetch() { if (pc & 1) viol("jump", "to the odd address %lx", (long)pc); if (!allowed(pc, 2, X)) viol("jump", "to %s, which is no code", where(pc).c_str()); n_insn++; u64 w = peek<u16>(pc); int n = w < 0x4000 ? 1 : w < 0xc000 ? 2 : 3; if (n > 1 && !allowed(pc, 2 * n, X)) viol("jump", "to %s, which is no code", where(pc).c_str()); for (int i = 1; i < 3; i++) w = w << 16 | (i < n ? peek<u16>(pc + 2 * i) : 0); return w; }    // caches are coherent
  void w32(int r, u64 v) { x[r] = x[r] & ~0xffffffffull | (u32)v; }
  static int sgn(i64 v) { return v < 0 ? 1 : v > 0 ? 2 : 0; }
  template <class T> void cmp(T a, T b) { cc = a == b ? 0 : a < b ? 1 : 2; }
  u64 add(u64 a, u64 b, bool g) { if (g) { i64 r; bool o = __builtin_add_overflow((i64)a, (i64)b, &r); cc = o ? 3 : sgn(r); return r; } i32 r; bool o = __builtin_add_overflow((i32)a, (i32)b, &r); cc = o ? 3 : sgn(r); return (u32)r; }
  u64 sub(u64 a, u64 b, bool g) { if (g) { i64 r; bool o = __builtin_sub_overflow((i64)a, (i64)b, &r); cc = o ? 3 : sgn(r); return r; } i32 r; bool o = __builtin_sub_overflow((i32)a, (i32)b, &r); cc = o ? 3 : sgn(r); return (u32)r; }
  u64 addl(u64 a, u64 b, bool g, int c = 0) { u128 m = g ? ~0ull : 0xffffffffu, s = (u128)(a & m) + (b & m) + c; u64 r = s & m; cc = (r != 0) | (s > m) << 1; return r; }
  u64 subl(u64 a, u64 b, bool g, int c = 1) { return addl(a, ~b, g, c); }
  u64 bitop(int op, u64 a, u64 b, u64 m) { u64 r = op == 0 ? a & b : op == 1 ? a | b : a ^ b; r &= m; cc = r != 0; return r; }
  void tm(u64 v, u64 m, u64 top, bool imm) { u64 t = v & m; cc = !t ? 0 : t == m ? 3 : imm ? (t & top ? 2 : 1) : 1; }
  void go(u64 to, int reg) {    // by a register
    pc = to; if (reg == 14) { if (!calls.empty() && pc == calls.back().ret || own < 2) returned(); else jumped(); } else if (own == 1 && !calls.empty() && x[14] != calls.back().ret) { own = 0; called(x[14]); } else jumped(); }
  void step(u64 w) {
    u64 o = x[14]; size_t n = calls.size(); u64 ex = n_rets + n_calls; exec(w); if (n_rets + n_calls != ex || x[14] == o) return; int op = w >> 40;
    if (op == 0xc0) own = allowed(x[14], 2, X) ? 1 : 2; else if (op == 0xb9 && (w >> 32 & 255) == 8 && own == 1) ; else if (op == 0xeb && (w & 255) == 4 || op == 0xe3 && (w & 255) == 4 && !(w >> 32 & 15) && (w >> 28 & 15) != 14) own = 0; else own = 2; }
  void exec(u64 w) {
    int op = w >> 40, len = op < 0x40 ? 2 : op < 0xc0 ? 4 : 6, r1 = w >> 36 & 15, r2 = w >> 32 & 15, b = w >> 28 & 15; u64 npc = pc + len, at = pc; i64 i16_ = (i16)(w >> 16), i32_ = (i32)w;
    auto bad = [&] { if (!(w >> 32)) viol("crash-illegal-instruction", "at %s", where(pc).c_str()); unknown(w >> 16, pc); };
    auto B = [&](int r) { return r ? x[r] : 0; };
    u64 d12 = w >> 16 & 4095; i64 d20 = sx((w >> 8 & 255) << 12 | d12, 20); u64 rx = B(r2) + B(b) + d12, rs = B(b) + d12, rxy = B(r2) + B(b) + d20, rsy = B(b) + d20; auto L = [&](u64 a) { return (u64)ld<u32>(a); };
    auto take = [&](int m) { return m >> (3 - cc) & 1; };
    auto cmpmask = [&](int m, i64 p, i64 q, bool sig) { int c = p == q ? 0 : (sig ? p < q : (u64)p < (u64)q) ? 1 : 2; return m >> (3 - c) & 1; };
    auto F32 = [&](int r) { return asf<float>((u32)(f[r] >> 32)); }; auto F64 = [&](int r) { return asf<double>(f[r]); }; auto sF = [&](int r, float v) { f[r] = asu(v) << 32 | (u32)f[r]; }; auto sD = [&](int r, double v) { f[r] = asu(v); }; auto fcc = [&](double p, double q) { cc = p == q ? 0 : p < q ? 1 : p > q ? 2 : 3; };
    switch (op) {
    case 0x05: case 0x0d: { u64 t = x[r2]; x[r1] = npc; if (!r2) break; if (r1 != 14) bad(); pc = t; called(npc); return; }
    case 0x06: w32(r1, x[r1] - 1); if (r2 && (u32)x[r1]) { go(x[r2], r2); return; } break;
    case 0x07: if (r2 && take(r1)) { go(x[r2], r2); return; } break;
    case 0x10: { i32 v = x[r2]; u32 z = v < 0 ? -(u32)v : v; w32(r1, z); cc = z == 0x80000000 ? 3 : z ? 2 : 0; break; } case 0x11: { i32 v = x[r2]; u32 z = v > 0 ? -v : v; w32(r1, z); cc = z ? 1 : 0; break; }
    case 0x12: w32(r1, x[r2]); cc = sgn((i32)x[r1]); break; case 0x13: w32(r1, sub(0, x[r2], false)); break;
    case 0x14: w32(r1, bitop(0, x[r1], x[r2], 0xffffffff)); break; case 0x15: cmp<u32>(x[r1], x[r2]); break; case 0x16: w32(r1, bitop(1, x[r1], x[r2], 0xffffffff)); break; case 0x17: w32(r1, bitop(2, x[r1], x[r2], 0xffffffff)); break; case 0x18: w32(r1, x[r2]); break; case 0x19: cmp<i32>(x[r1], x[r2]); break;
    case 0x1a: w32(r1, add(x[r1], x[r2], false)); break; case 0x1b: w32(r1, sub(x[r1], x[r2], false)); break; case 0x1e: w32(r1, addl(x[r1], x[r2], false)); break; case 0x1f: w32(r1, subl(x[r1], x[r2], false)); break;
    case 0x1d: { if (r1 & 1) bad(); i64 n = (i64)((u64)(u32)x[r1] << 32 | (u32)x[r1 + 1]); i32 d = x[r2]; if (!d) viol("crash-trap", "division by zero at %s", where(pc).c_str()); w32(r1, n % d); w32(r1 + 1, n / d); break; }
    case 0x28: f[r1] = f[r2]; break; case 0x38: f[r1] = f[r2] & ~0xffffffffull | (u32)f[r1]; break;
    case 0x40: st<u16>(rx, x[r1]); break; case 0x41: x[r1] = rx; break; case 0x42: st<u8>(rx, x[r1]); break; case 0x43: x[r1] = x[r1] & ~255ull | ld<u8>(rx); break; case 0x47: if (take(r1)) { if (r2 == 0 && b == 14 && !d12) go(rx, 14); else go(rx, 0); return; } break;
    case 0x48: w32(r1, (i64)ld<i16>(rx)); break; case 0x49: cmp<i32>(x[r1], ld<i16>(rx)); break; case 0x4a: w32(r1, add(x[r1], ld<i16>(rx), false)); break; case 0x4b: w32(r1, sub(x[r1], ld<i16>(rx), false)); break; case 0x4c: w32(r1, x[r1] * (u64)(i64)ld<i16>(rx)); break;
    case 0x50: st<u32>(rx, x[r1]); break; case 0x54: w32(r1, bitop(0, x[r1], L(rx), 0xffffffff)); break; case 0x55: cmp<u32>(x[r1], L(rx)); break; case 0x56: w32(r1, bitop(1, x[r1], L(rx), 0xffffffff)); break; case 0x57: w32(r1, bitop(2, x[r1], L(rx), 0xffffffff)); break; case 0x58: w32(r1, L(rx)); break; case 0x59: cmp<i32>(x[r1], L(rx)); break;
    case 0x5a: w32(r1, add(x[r1], L(rx), false)); break; case 0x5b: w32(r1, sub(x[r1], L(rx), false)); break; case 0x5e: w32(r1, addl(x[r1], L(rx), false)); break; case 0x5f: w32(r1, subl(x[r1], L(rx), false)); break; case 0x71: w32(r1, x[r1] * L(rx)); break;
    case 0x60: st<u64>(rx, f[r1]); break; case 0x68: f[r1] = ld<u64>(rx); break; case 0x70: st<u32>(rx, f[r1] >> 32); break; case 0x78: f[r1] = L(rx) << 32 | (u32)f[r1]; break;
    case 0x88: { int s = rs & 63; w32(r1, s > 31 ? 0 : (u32)x[r1] >> s); break; } case 0x89: { int s = rs & 63; w32(r1, s > 31 ? 0 : (u32)x[r1] << s); break; } case 0x8a: { int s = rs & 63; w32(r1, (i32)x[r1] >> (s > 31 ? 31 : s)); cc = sgn((i32)x[r1]); break; }
    case 0x8b: { int s = rs & 63; i32 v = x[r1]; i64 t = s > 31 ? 0 : (i64)v << s; w32(r1, (u32)v & 0x80000000 | (u32)t & 0x7fffffff); cc = t != (i32)t || s > 31 && v ? 3 : sgn((i32)x[r1]); break; }
    case 0x90: case 0x98: for (int i = r1, k = 0;; i = (i + 1) & 15, k++) { if (op == 0x90) st<u32>(rs + 4 * k, x[i]); else w32(i, L(rs + 4 * k)); if (i == r2) break; } break;
    case 0xba: { u32 o = L(rs); if (o == (u32)x[r1]) st<u32>(rs, x[r2]), cc = 0; else w32(r1, o), cc = 1; break; }
    case 0x91: tm(ld<u8>(rs), w >> 32 & 255, 0, false); break; case 0x92: st<u8>(rs, w >> 32); break; case 0x95: cmp<u8>(ld<u8>(rs), w >> 32); break; case 0x94: case 0x96: case 0x97: st<u8>(rs, bitop(op == 0x94 ? 0 : op == 0x96 ? 1 : 2, ld<u8>(rs), w >> 32, 255)); break;
    case 0xd2: case 0xd4: case 0xd5: case 0xd6: case 0xd7: { int n = (w >> 32 & 255) + 1; u64 p = rs, q = B(w >> 12 & 15) + (w & 4095); access(q, n, R); if (op != 0xd5) access(p, n, W); else access(p, n, R); u8 *P = (u8 *)p, *Q = (u8 *)q; if (op != 0xd2) cc = 0;
      for (int i = 0; i < n; i++) if (op == 0xd2) P[i] = Q[i]; else if (op == 0xd5) { if (P[i] != Q[i]) { cc = P[i] < Q[i] ? 1 : 2; break; } } else { P[i] = op == 0xd4 ? P[i] & Q[i] : op == 0xd6 ? P[i] | Q[i] : P[i] ^ Q[i]; if (P[i]) cc = 1; } break; }
    case 0xa7: switch (r2) { u64 t; case 0: tm(x[r1] >> 16 & 0xffff, (u16)i16_, 1u << (31 - __builtin_clz((u16)i16_ | 1)), true); break; case 1: tm(x[r1] & 0xffff, (u16)i16_, 1u << (31 - __builtin_clz((u16)i16_ | 1)), true); break; case 2: tm(x[r1] >> 48, (u16)i16_, 1u << (31 - __builtin_clz((u16)i16_ | 1)), true); break; case 3: tm(x[r1] >> 32 & 0xffff, (u16)i16_, 1u << (31 - __builtin_clz((u16)i16_ | 1)), true); break;
      case 4: if (take(r1)) npc = pc + 2 * i16_; break; case 5: x[r1] = npc; if (r1 != 14) bad(); t = npc; pc += 2 * i16_; called(t); return; case 6: w32(r1, x[r1] - 1); if ((u32)x[r1]) npc = pc + 2 * i16_; break; case 7: if (--x[r1]) npc = pc + 2 * i16_; break;
      case 8: w32(r1, i16_); break; case 9: x[r1] = i16_; break; case 10: w32(r1, add(x[r1], i16_, false)); break; case 11: x[r1] = add(x[r1], i16_, true); break; case 12: w32(r1, x[r1] * i16_); break; case 13: x[r1] *= i16_; break; case 14: cmp<i32>(x[r1], i16_); break; case 15: cmp<i64>(x[r1], i16_); break; } break;
    case 0xa5: { int s = 48 - (r2 & 3) * 16; u64 v = (u64)(u16)i16_ << s, m = 0xffffull << s; switch (r2 >> 2) { case 0: x[r1] = x[r1] & ~m | v; break; case 1: x[r1] &= v | ~m; cc = (x[r1] & m) != 0; break; case 2: x[r1] |= v; cc = (x[r1] & m) != 0; break; case 3: x[r1] = v; break; } break; }
    case 0xc0: switch (r2) { case 0: x[r1] = pc + 2 * i32_; break; case 1: x[r1] = i32_; break; case 4: if (take(r1)) npc = pc + 2 * i32_; break; case 5: if (r1 != 14) bad(); x[14] = npc; pc += 2 * i32_; called(npc); return;
      case 6: case 7: { int s = r2 == 6 ? 32 : 0; u64 z = x[r1] ^ (u64)(u32)i32_ << s; x[r1] = z; cc = (u32)(z >> s) != 0; break; } case 8: x[r1] = (u32)x[r1] | (u64)(u32)i32_ << 32; break; case 9: w32(r1, i32_); break; case 10: x[r1] &= (u64)(u32)i32_ << 32 | 0xffffffff; cc = x[r1] >> 32 != 0; break; case 11: x[r1] &= (u32)i32_ | 0xffffffff00000000ull; cc = (u32)x[r1] != 0; break; case 12: x[r1] |= (u64)(u32)i32_ << 32; cc = x[r1] >> 32 != 0; break; case 13: x[r1] |= (u32)i32_; cc = (u32)x[r1] != 0; break; case 14: x[r1] = (u64)(u32)i32_ << 32; break; case 15: x[r1] = (u32)i32_; break; default: bad(); } break;
    case 0xc2: switch (r2) { case 0: x[r1] *= i32_; break; case 1: w32(r1, x[r1] * i32_); break; case 4: x[r1] = subl(x[r1], (u32)i32_, true); break; case 5: w32(r1, subl(x[r1], (u32)i32_, false)); break; case 8: x[r1] = add(x[r1], i32_, true); break; case 9: w32(r1, add(x[r1], i32_, false)); break; case 10: x[r1] = addl(x[r1], (u32)i32_, true); break; case 11: w32(r1, addl(x[r1], (u32)i32_, false)); break; case 12: cmp<i64>(x[r1], i32_); break; case 13: cmp<i32>(x[r1], i32_); break; case 14: cmp<u64>(x[r1], (u32)i32_); break; case 15: cmp<u32>(x[r1], i32_); break; default: bad(); } break;
    case 0xc4: { u64 a = pc + 2 * i32_; int al = r2 == 8 || r2 == 11 ? 8 : r2 >= 12 ? 4 : 2; if (a % al) viol("alignment", "relative access to %lx at %s", (long)a, where(pc).c_str()); switch (r2) { case 2: w32(r1, ld<u16>(a)); break; case 4: x[r1] = ld<i16>(a); break; case 5: w32(r1, (i64)ld<i16>(a)); break; case 6: x[r1] = ld<u16>(a); break; case 7: st<u16>(a, x[r1]); break; case 8: x[r1] = ld<u64>(a); break; case 11: st<u64>(a, x[r1]); break; case 12: x[r1] = ld<i32>(a); break; case 13: w32(r1, L(a)); break; case 14: x[r1] = L(a); break; case 15: st<u32>(a, x[r1]); break; default: bad(); } break; }
    case 0xc6: { u64 a = pc + 2 * i32_; switch (r2) { case 2: break; case 4: cmp<i64>(x[r1], ld<i16>(a)); break; case 5: cmp<i32>(x[r1], ld<i16>(a)); break; case 6: cmp<u64>(x[r1], ld<u16>(a)); break; case 7: cmp<u32>(x[r1], ld<u16>(a)); break; case 8: cmp<i64>(x[r1], ld<i64>(a)); break; case 10: cmp<u64>(x[r1], ld<u64>(a)); break; case 12: cmp<i64>(x[r1], ld<i32>(a)); break; case 13: cmp<i32>(x[r1], ld<i32>(a)); break; case 14: cmp<u64>(x[r1], L(a)); break; case 15: cmp<u32>(x[r1], L(a)); break; default: bad(); } break; }
    case 0xb2: { int p = w >> 20 & 15, q = w >> 16 & 15; switch (w >> 32 & 255) { case 0x22: x[p] = x[p] & ~0xff000000ull | cc << 28; break; case 0x52: w32(p, x[p] * x[q]); break; case 0x9d: fpc = L(rs); break; case 0x9c: st<u32>(rs, fpc); break; default: bad(); } break; }
    case 0xb9: { int p = w >> 20 & 15, q = w >> 16 & 15, m3 = w >> 28 & 15; u64 v = x[q], s = (i64)(i32)v, z = (u32)v; switch (w >> 32 & 255) {
      case 0x00: { u64 t = (i64)v < 0 ? -v : v; x[p] = t; cc = t == 1ull << 63 ? 3 : t ? 2 : 0; break; } case 0x02: x[p] = v; cc = sgn(v); break; case 0x03: x[p] = sub(0, v, true); break; case 0x04: x[p] = v; break; case 0x06: x[p] = (i8)v; break; case 0x07: x[p] = (i16)v; break; case 0x08: x[p] = add(x[p], v, true); break; case 0x09: x[p] = sub(x[p], v, true); break; case 0x0a: x[p] = addl(x[p], v, true); break; case 0x0b: x[p] = subl(x[p], v, true); break; case 0x0c: x[p] *= v; break;
      case 0x0d: case 0x1d: { i64 d = (w >> 36 & 1) ? s : v; if (p & 1) bad(); if (!d) viol("crash-trap", "division by zero at %s", where(pc).c_str()); i64 n = x[p + 1]; x[p] = d == -1 ? 0 : n % d; x[p + 1] = d == -1 ? -(u64)n : n / d; break; }
      case 0x12: x[p] = s; cc = sgn(s); break; case 0x13: x[p] = sub(0, s, true); break; case 0x14: x[p] = s; break; case 0x16: x[p] = z; break; case 0x17: x[p] = z & 0x7fffffff; break; case 0x18: x[p] = add(x[p], s, true); break; case 0x19: x[p] = sub(x[p], s, true); break; case 0x1a: x[p] = addl(x[p], z, true); break; case 0x1b: x[p] = subl(x[p], z, true); break; case 0x1c: x[p] *= s; break;
      case 0x20: cmp<i64>(x[p], v); break; case 0x21: cmp<u64>(x[p], v); break; case 0x26: w32(p, (i64)(i8)v); break; case 0x27: w32(p, (i64)(i16)v); break; case 0x30: cmp<i64>(x[p], s); break; case 0x31: cmp<u64>(x[p], z); break;
      case 0x60: case 0x61: case 0x72: case 0x73: { int k = w >> 32 & 255; i64 l = k == 0x72 ? (i32)x[p] : k == 0x73 ? (u32)x[p] : x[p], r = k == 0x72 ? s : k == 0x73 ? z : v; if (cmpmask(m3, l, r, !(k & 1))) viol("crash-trap", "at %s", where(pc).c_str()); break; }
      case 0x80: x[p] = bitop(0, x[p], v, ~0ull); break; case 0x81: x[p] = bitop(1, x[p], v, ~0ull); break; case 0x82: x[p] = bitop(2, x[p], v, ~0ull); break; case 0x83: if (p & 1) bad(); x[p] = v ? __builtin_clzll(v) : 64; x[p + 1] = v ? v & ~(1ull << (63 - x[p])) : 0; cc = v ? 2 : 0; break; case 0x84: x[p] = (u8)v; break; case 0x85: x[p] = (u16)v; break;
      case 0x86: { u128 t = (u128)x[p + 1] * v; x[p] = t >> 64; x[p + 1] = t; break; } case 0x87: { if (p & 1) bad(); u128 n = (u128)x[p] << 64 | x[p + 1]; if (!v || x[p] >= v) viol("crash-trap", "division at %s", where(pc).c_str()); x[p] = n % v; x[p + 1] = n / v; break; } case 0x88: x[p] = addl(x[p], v, true, cc >> 1); break; case 0x89: x[p] = subl(x[p], v, true, cc >> 1); break; case 0x94: w32(p, (u8)v); break; case 0x95: w32(p, (u16)v); break; case 0x97: { u64 n = x[p] << 32 | (u32)x[p + 1]; if (!z || (u32)x[p] >= z) viol("crash-trap", "division at %s", where(pc).c_str()); w32(p, n % z); w32(p + 1, n / z); break; } case 0x98: w32(p, addl(x[p], v, false, cc >> 1)); break; case 0x99: w32(p, subl(x[p], v, false, cc >> 1)); break;
      default: bad(); } break; }
    case 0xb3: { int p = w >> 20 & 15, q = w >> 16 & 15; switch (w >> 32 & 255) { case 0x00: f[p] = f[q] & ~(1ull << 63); cc = fabsf(F32(q)) > 0 ? 2 : F32(q) == 0 ? 0 : 3; break; case 0x02: f[p] = f[q]; fcc(F32(q), 0); break; case 0x03: f[p] = f[q] ^ 1ull << 63; fcc(F32(p), 0); break; case 0x04: sD(p, F32(q)); break; case 0x09: fcc(F32(p), F32(q)); break; case 0x0a: sF(p, F32(p) + F32(q)); fcc(F32(p), 0); break; case 0x0b: sF(p, F32(p) - F32(q)); fcc(F32(p), 0); break; case 0x0d: sF(p, F32(p) / F32(q)); break; case 0x17: sF(p, F32(p) * F32(q)); break;
      case 0x10: f[p] = f[q] & ~(1ull << 63); fcc(F64(p), 0); break; case 0x12: f[p] = f[q]; fcc(F64(q), 0); break; case 0x13: f[p] = f[q] ^ 1ull << 63; fcc(F64(p), 0); break; case 0x19: fcc(F64(p), F64(q)); break; case 0x1a: sD(p, F64(p) + F64(q)); fcc(F64(p), 0); break; case 0x1b: sD(p, F64(p) - F64(q)); fcc(F64(p), 0); break; case 0x1c: sD(p, F64(p) * F64(q)); break; case 0x1d: sD(p, F64(p) / F64(q)); break;
      case 0x44: sF(p, F64(q)); break; case 0x65: f[p] = f[q]; f[p + 2] = f[q + 2]; break; case 0x70: f[p] = f[q] & ~(1ull << 63); break; case 0x71: f[p] = f[q] | 1ull << 63; break; case 0x73: f[p] = f[q] ^ 1ull << 63; break; case 0x74: sF(p, 0); break; case 0x75: f[p] = 0; break; case 0x76: f[p] = f[p + 2] = 0; break; case 0x94: sF(p, (i32)x[q]); break; case 0x95: sD(p, (i32)x[q]); break; case 0xa4: sF(p, (i64)x[q]); break; case 0xa5: sD(p, (i64)x[q]); break; case 0xc1: f[p] = x[q]; break; case 0xcd: x[p] = f[q]; break;
      case 0x98: case 0x99: case 0xa8: case 0xa9: { double v = (w >> 32 & 1) ? F64(q) : F32(q); if ((w >> 28 & 15) != 5) bad(); v = trunc(v); if (w >> 37 & 1) x[p] = sat<i64>(v); else w32(p, sat<i32>(v)); break; } case 0x84: fpc = x[p]; break; case 0x8c: x[p] = fpc; break; default: bad(); } break; }
    case 0xed: { auto E = [&] { return asf<float>(ld<u32>(rx)); }; auto D = [&] { return asf<double>(ld<u64>(rx)); }; switch (w & 255) { case 0x04: sD(r1, E()); break; case 0x09: fcc(F32(r1), E()); break; case 0x0a: sF(r1, F32(r1) + E()); fcc(F32(r1), 0); break; case 0x0b: sF(r1, F32(r1) - E()); fcc(F32(r1), 0); break; case 0x17: sF(r1, F32(r1) * E()); break; case 0x19: fcc(F64(r1), D()); break; case 0x1a: sD(r1, F64(r1) + D()); fcc(F64(r1), 0); break; case 0x1b: sD(r1, F64(r1) - D()); fcc(F64(r1), 0); break; case 0x1c: sD(r1, F64(r1) * D()); break; case 0x1d: sD(r1, F64(r1) / D()); break;
      case 0x64: f[r1] = L(rxy) << 32 | (u32)f[r1]; break; case 0x65: f[r1] = ld<u64>(rxy); break; case 0x66: st<u32>(rxy, f[r1] >> 32); break; case 0x67: st<u64>(rxy, f[r1]); break; default: bad(); } break; }
    case 0xe3: { u64 a = rxy; auto G = [&] { return ld<u64>(a); }; auto SF = [&] { return (i64)ld<i32>(a); }; switch (w & 255) {
      case 0x02: x[r1] = G(); cc = sgn(x[r1]); break; case 0x04: x[r1] = G(); break; case 0x08: x[r1] = add(x[r1], G(), true); break; case 0x09: x[r1] = sub(x[r1], G(), true); break; case 0x0a: x[r1] = addl(x[r1], G(), true); break; case 0x0b: x[r1] = subl(x[r1], G(), true); break; case 0x0c: x[r1] *= G(); break; case 0x0f: x[r1] = __builtin_bswap64(G()); break; case 0x12: w32(r1, SF()); cc = sgn((i32)x[r1]); break; case 0x14: x[r1] = SF(); break; case 0x15: x[r1] = ld<i16>(a); break; case 0x16: x[r1] = L(a); break; case 0x17: x[r1] = L(a) & 0x7fffffff; break; case 0x18: x[r1] = add(x[r1], SF(), true); break; case 0x19: x[r1] = sub(x[r1], SF(), true); break; case 0x1a: x[r1] = addl(x[r1], L(a), true); break; case 0x1b: x[r1] = subl(x[r1], L(a), true); break; case 0x1c: x[r1] *= SF(); break; case 0x1e: w32(r1, __builtin_bswap32(L(a))); break;
      case 0x0d: case 0x1d: { i64 d = (w & 16) ? SF() : G(), n = x[r1 + 1]; if (r1 & 1) bad(); if (!d) viol("crash-trap", "division by zero at %s", where(pc).c_str()); x[r1] = d == -1 ? 0 : n % d; x[r1 + 1] = d == -1 ? -(u64)n : n / d; break; }
      case 0x20: cmp<i64>(x[r1], G()); break; case 0x21: cmp<u64>(x[r1], G()); break; case 0x24: st<u64>(a, x[r1]); break; case 0x2f: st<u64>(a, __builtin_bswap64(x[r1])); break; case 0x30: cmp<i64>(x[r1], SF()); break; case 0x31: cmp<u64>(x[r1], L(a)); break; case 0x32: x[r1] = SF(); cc = sgn(x[r1]); break; case 0x36: break; case 0x3e: st<u32>(a, __builtin_bswap32(x[r1])); break;
      case 0x50: st<u32>(a, x[r1]); break; case 0x51: w32(r1, x[r1] * L(a)); break; case 0x54: w32(r1, bitop(0, x[r1], L(a), 0xffffffff)); break; case 0x55: cmp<u32>(x[r1], L(a)); break; case 0x56: w32(r1, bitop(1, x[r1], L(a), 0xffffffff)); break; case 0x57: w32(r1, bitop(2, x[r1], L(a), 0xffffffff)); break; case 0x58: w32(r1, L(a)); break; case 0x59: cmp<i32>(x[r1], L(a)); break; case 0x5a: w32(r1, add(x[r1], L(a), false)); break; case 0x5b: w32(r1, sub(x[r1], L(a), false)); break; case 0x5e: w32(r1, addl(x[r1], L(a), false)); break; case 0x5f: w32(r1, subl(x[r1], L(a), false)); break;
      case 0x70: st<u16>(a, x[r1]); break; case 0x71: x[r1] = a; break; case 0x72: st<u8>(a, x[r1]); break; case 0x73: x[r1] = x[r1] & ~255ull | ld<u8>(a); break; case 0x76: w32(r1, (i64)ld<i8>(a)); break; case 0x77: x[r1] = ld<i8>(a); break; case 0x78: w32(r1, (i64)ld<i16>(a)); break; case 0x79: cmp<i32>(x[r1], ld<i16>(a)); break; case 0x7a: w32(r1, add(x[r1], ld<i16>(a), false)); break; case 0x7b: w32(r1, sub(x[r1], ld<i16>(a), false)); break;
      case 0x80: x[r1] = bitop(0, x[r1], G(), ~0ull); break; case 0x81: x[r1] = bitop(1, x[r1], G(), ~0ull); break; case 0x82: x[r1] = bitop(2, x[r1], G(), ~0ull); break; case 0x86: { u128 t = (u128)x[r1 + 1] * G(); x[r1] = t >> 64; x[r1 + 1] = t; break; } case 0x87: { u64 v = G(); if (r1 & 1) bad(); u128 n = (u128)x[r1] << 64 | x[r1 + 1]; if (!v || x[r1] >= v) viol("crash-trap", "division at %s", where(pc).c_str()); x[r1] = n % v; x[r1 + 1] = n / v; break; } case 0x88: x[r1] = addl(x[r1], G(), true, cc >> 1); break; case 0x89: x[r1] = subl(x[r1], G(), true, cc >> 1); break; case 0x90: x[r1] = ld<u8>(a); break; case 0x91: x[r1] = ld<u16>(a); break; case 0x94: w32(r1, ld<u8>(a)); break; case 0x95: w32(r1, ld<u16>(a)); break;
      case 0x97: { u64 z = L(a), n = x[r1] << 32 | (u32)x[r1 + 1]; if (!z || (u32)x[r1] >= z) viol("crash-trap", "division at %s", where(pc).c_str()); w32(r1, n % z); w32(r1 + 1, n / z); break; } default: bad(); } break; }
    case 0xeb: { u64 a = rsy; int s = a & 63, imm = (i8)(w >> 32); u64 v; switch (w & 255) {
      case 0x04: case 0x24: case 0x90: case 0x98: { int z = (w & 15) == 4 ? 8 : 4; for (int i = r1, k = 0;; i = (i + 1) & 15, k++) { switch (w & 255) { case 0x04: v = ld<u64>(a + 8 * k); x[i] = v; break; case 0x24: st<u64>(a + 8 * k, x[i]); break; case 0x90: st<u32>(a + 4 * k, x[i]); break; default: w32(i, L(a + 4 * k)); } if (i == r2) break; } break; }
      case 0x0a: x[r1] = (i64)x[r2] >> s; cc = sgn(x[r1]); break; case 0x0b: { i64 q = x[r2], t = (i64)((u64)q << s); bool o = (q << s >> s) != q || s && ((t ^ q) < 0); x[r1] = (u64)q & 1ull << 63 | (u64)t & ~(1ull << 63); cc = o ? 3 : sgn(x[r1]); break; } case 0x0c: x[r1] = x[r2] >> s; break; case 0x0d: x[r1] = x[r2] << s; break; case 0x1c: x[r1] = s ? x[r2] << s | x[r2] >> (64 - s) : x[r2]; break; case 0x1d: { u32 q = x[r2]; s &= 31; w32(r1, s ? q << s | q >> (32 - s) : q); break; }
      case 0x14: { u32 o = L(a); if (o == (u32)x[r1]) st<u32>(a, x[r2]), cc = 0; else w32(r1, o), cc = 1; break; } case 0x30: { u64 o = ld<u64>(a); if (o == x[r1]) st<u64>(a, x[r2]), cc = 0; else x[r1] = o, cc = 1; break; }
      case 0x51: tm(ld<u8>(a), (u8)imm, 0, false); break; case 0x52: st<u8>(a, imm); break; case 0x55: cmp<u8>(ld<u8>(a), imm); break; case 0x54: case 0x56: case 0x57: st<u8>(a, bitop((w & 255) == 0x54 ? 0 : (w & 255) == 0x56 ? 1 : 2, ld<u8>(a), imm, 255)); break; case 0x6a: st<u32>(a, add(L(a), imm, false)); break; case 0x6e: st<u32>(a, addl(L(a), (i64)imm, false)); break; case 0x7a: st<u64>(a, add(ld<u64>(a), imm, true)); break; case 0x7e: st<u64>(a, addl(ld<u64>(a), (i64)imm, true)); break; default: bad(); } break; }
    case 0xe5: { i64 i = (i16)w; switch (w >> 32 & 255) { case 0x44: st<u16>(rs, i); break; case 0x48: st<u64>(rs, i); break; case 0x4c: st<u32>(rs, i); break; case 0x54: cmp<i16>(ld<i16>(rs), i); break; case 0x55: cmp<u16>(ld<u16>(rs), i); break; case 0x58: cmp<i64>(ld<i64>(rs), i); break; case 0x59: cmp<u64>(ld<u64>(rs), (u16)i); break; case 0x5c: cmp<i32>(ld<i32>(rs), i); break; case 0x5d: cmp<u32>(L(rs), (u16)i); break; default: bad(); } break; }
    case 0xec: { int k = w & 255; switch (k) {
      case 0x55: case 0x54: case 0x56: case 0x57: { int i3 = w >> 24 & 63, i4 = w >> 16 & 63, s = w >> 8 & 63; bool z = w >> 23 & 1, t = w >> 31 & 1; u64 v = s ? x[r2] << s | x[r2] >> (64 - s) : x[r2], m = 0; for (int i = i3;; i = (i + 1) & 63) { m |= 1ull << (63 - i); if (i == i4) break; }
        if (k == 0x55) { x[r1] = (z ? 0 : x[r1] & ~m) | v & m; cc = sgn(x[r1]); } else { u64 o = x[r1], n = k == 0x54 ? o & v : k == 0x56 ? o | v : o ^ v; cc = (n & m) != 0; if (!t) x[r1] = o & ~m | n & m; } break; }
      case 0x64: case 0x65: case 0x76: case 0x77: { i64 p = x[r1], q = x[r2]; if (k == 0x76) p = (i32)p, q = (i32)q; else if (k == 0x77) p = (u32)p, q = (u32)q; if (cmpmask(w >> 12 & 15, p, q, !(k & 1))) npc = pc + 2 * (i16)(w >> 16); break; }
      case 0x7c: case 0x7d: case 0x7e: case 0x7f: { i64 p = x[r1], q = k & 1 ? (u8)(w >> 8) : (i8)(w >> 8); if (k == 0x7e) p = (i32)p; else if (k == 0x7f) p = (u32)p; if (cmpmask(r2, p, q, !(k & 1))) npc = pc + 2 * (i16)(w >> 16); break; }
      case 0x70: case 0x71: case 0x72: case 0x73: { i64 p = x[r1], q = k & 1 ? (u16)(w >> 16) : (i16)(w >> 16); if (k == 0x72) p = (i32)p; else if (k == 0x73) p = (u32)p; if (cmpmask(w >> 12 & 15, p, q, !(k & 1))) viol("crash-trap", "at %s", where(pc).c_str()); break; }
      case 0xe4: case 0xe5: case 0xf6: case 0xf7: { i64 p = x[r1], q = x[r2]; if (k == 0xf6) p = (i32)p, q = (i32)q; else if (k == 0xf7) p = (u32)p, q = (u32)q; if (cmpmask(w >> 12 & 15, p, q, !(k & 1))) { go(rs, d12 ? 0 : b); return; } break; }
      case 0xfc: case 0xfd: case 0xfe: case 0xff: { i64 p = x[r1], q = k & 1 ? (u8)(w >> 8) : (i8)(w >> 8); if (k == 0xfe) p = (i32)p; else if (k == 0xff) p = (u32)p; if (cmpmask(r2, p, q, !(k & 1))) { go(rs, d12 ? 0 : b); return; } break; }
      default: bad(); } break; }
    default: bad();
    }
    if (pc == at) pc = npc;
  }
};
