// Execution of another architecture's code, one instruction at a time, under observation. The guest's memory is this process's memory at the
// same addresses. What is watched whatever the program does: every access lies in mapped memory with the right permissions and not below the
// stack pointer; every return goes where its call came from, with the stack pointer and all callee-saved registers as they were; calls are made
// with an aligned stack; code that was written is not executed before the instruction cache was flushed. Registers a call may clobber are
// clobbered, on the way in and on the way out.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdarg>
#include <cmath>
#include <string>
#include <vector>
#include <unordered_map>
#include <sys/mman.h>
#include <unistd.h>
#include <elf.h>
typedef uint8_t u8; typedef uint16_t u16; typedef uint32_t u32; typedef uint64_t u64; typedef int8_t i8; typedef int16_t i16; typedef int32_t i32; typedef int64_t i64; typedef __uint128_t u128;
void viol(const char *kind, const char *f, ...);        // the driver's
[[noreturn]] static void lacking(const char *f, ...) { va_list ap; va_start(ap, f); fprintf(stderr, "emulator: "); vfprintf(stderr, f, ap); fprintf(stderr, "\n"); exit(2); }
struct Gap {}; // an instruction the interpreter lacks: the run ends there, with what it has seen
struct Rng { u64 a = 1, b = 2; static u64 mix(u64 z) { z += 0x9e3779b97f4a7c15ull; z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; return z ^ (z >> 31); }
  void seed(u64 x, u64 y) { a = mix(x ^ mix(y)) | 1; b = mix(a); } u64 operator()() { u64 s = a, t = b; a = t; s ^= s << 23; b = s ^ t ^ (s >> 18) ^ (t >> 5); return b + t; } u32 below(u32 n) { return (u32)((*this)() >> 20) % n; } bool chance(u32 p) { return below(100) < p; } };
static Rng rng, junk;   // junk: for what is clobbered, so that it does not shift the rest

// memory: [BASE, BASE + SPAN), by page
static const u64 BASE = 0x10000000, SPAN = 0x30000000, PG = 4096, HOSTFN = 0x0f000000, STOP = 0x0f800000;
enum { R = 1, W = 2, X = 4, SHARED = 8 };
static u8 perm[SPAN / PG]; static u64 text_end, stack_lo, stack_hi, brk_at = BASE; static std::vector<u8> dirty;   // a byte per word of memory written and not flushed
static u64 n_insn, n_loads, n_stores, n_calls, n_rets, n_fetch_written, n_hostcalls;
static u64 map(u64 size, int p, u64 at = 0) { size = (size + PG - 1) / PG * PG; if (!at) { at = brk_at; brk_at += size + PG; if (brk_at > BASE + SPAN) lacking("out of guest memory"); }
  if (mmap((void *)at, size, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED, -1, 0) != (void *)at) lacking("mmap %lx", (long)at); for (u64 i = 0; i < size; i += PG) perm[(at + i - BASE) / PG] = p; return at; }
static int allowed(u64 a, u64 n, int p) { if (a < BASE || a + n > BASE + SPAN || a + n < a) return 0; for (u64 q = (a - BASE) / PG; q <= (a + n - 1 - BASE) / PG; q++) if ((perm[q] & p) != p) return 0; return 1; }
static std::unordered_map<std::string, u64> syms; static std::vector<std::pair<u64, std::string>> funcs;
static std::string where(u64 a) { std::string s; u64 best = 0; for (auto &f : funcs) if (f.first <= a && f.first >= best && a - f.first < 65536) best = f.first, s = f.second; char b[300]; if (best) snprintf(b, sizeof b, "%lx (%s+%lu)", (long)a, s.c_str(), (long)(a - best)); else snprintf(b, sizeof b, "%lx", (long)a); return b; }
static u64 sym(const char *n) { auto i = syms.find(n); if (i == syms.end()) lacking("no symbol %s", n); return i->second; }
static u32 eflags; static bool swapped;    // the guest has the other byte order
template <class T> static T bsw(T v) { if (!swapped) return v; u8 *p = (u8 *)&v; for (size_t i = 0; i < sizeof v / 2; i++) std::swap(p[i], p[sizeof v - 1 - i]); return v; }
template <class T> static T peek(u64 a) { T v; memcpy(&v, (void *)a, sizeof v); return bsw(v); }
template <class T> static void poke(u64 a, T v) { v = bsw(v); memcpy((void *)a, &v, sizeof v); }
static int bits; static u64 peekp(u64 a) { return bits == 64 ? peek<u64>(a) : peek<u32>(a); } static void pokep(u64 a, u64 v) { if (bits == 64) poke<u64>(a, v); else poke<u32>(a, v); }

template <class E> static void loadelf(const u8 *f) {
  auto *h = (typename E::Eh *)f; eflags = bsw(h->e_flags); auto *ph = (typename E::Ph *)(f + bsw(h->e_phoff)); u64 top = BASE;
  for (int i = 0; i < bsw(h->e_phnum); i++) if (bsw(ph[i].p_type) == PT_LOAD) { u64 va = bsw(ph[i].p_vaddr), ms = bsw(ph[i].p_memsz), fl = bsw(ph[i].p_flags), lo = va / PG * PG; if (va < BASE || va + ms > BASE + SPAN) lacking("segment at %lx", (long)va);
    map(va + ms - lo, R | (fl & PF_W ? W : 0) | (fl & PF_X ? X : 0), lo); memcpy((void *)va, f + bsw(ph[i].p_offset), bsw(ph[i].p_filesz)); top = std::max(top, va + ms); if (fl & PF_X) text_end = std::max(text_end, va + ms); }
  brk_at = (top + 2 * PG - 1) / PG * PG + PG; auto *sh = (typename E::Sh *)(f + bsw(h->e_shoff));
  for (int i = 0; i < bsw(h->e_shnum); i++) if (bsw(sh[i].sh_type) == SHT_SYMTAB) { const char *st = (const char *)f + bsw(sh[bsw(sh[i].sh_link)].sh_offset); auto *s = (typename E::Sy *)(f + bsw(sh[i].sh_offset));
    for (u64 k = 0; k < bsw(sh[i].sh_size) / sizeof *s; k++) { const char *n = st + bsw(s[k].st_name); if (!*n || *n == '$' || *n == '.') continue; u64 v = bsw(s[k].st_value); if ((s[k].st_info >> 4) || !syms.count(n)) syms[n] = v; if ((s[k].st_info & 15) == STT_FUNC || (s[k].st_info & 15) == STT_NOTYPE) funcs.push_back({ v, n }); } }
}
struct E64 { typedef Elf64_Ehdr Eh; typedef Elf64_Phdr Ph; typedef Elf64_Shdr Sh; typedef Elf64_Sym Sy; }; struct E32 { typedef Elf32_Ehdr Eh; typedef Elf32_Phdr Ph; typedef Elf32_Shdr Sh; typedef Elf32_Sym Sy; };
static u64 nat_lo, nat_hi; static std::string image;
static void load(const char *file) { image = file; FILE *f = fopen(file, "rb"); if (!f) lacking("cannot open %s", file); std::vector<u8> b; u8 t[65536]; size_t n; while ((n = fread(t, 1, sizeof t, f)) > 0) b.insert(b.end(), t, t + n); fclose(f);
  bits = b[EI_CLASS] == ELFCLASS64 ? 64 : 32; swapped = b[EI_DATA] == ELFDATA2MSB; bits == 64 ? loadelf<E64>(b.data()) : loadelf<E32>(b.data());
  stack_lo = map(2 << 20, R | W); stack_hi = stack_lo + (2 << 20); dirty.assign(SPAN / 4, 0); nat_lo = sym("__start_nat_text"); nat_hi = sym("__stop_nat_text"); }

[[noreturn]] static void unknown(u32 w, u64 at) { if (at >= text_end) viol("crash-illegal-instruction", "%08x at %s", w, where(at).c_str()); fprintf(stderr, "note: instruction %08x at %s is not known to the interpreter\n", w, where(at).c_str()); throw Gap(); }
// within libffi, a helper may give back part of its caller's frame; not towards anybody else
static bool inner(u64 a) { return a >= BASE && !(a >= nat_lo && a < nat_hi); }
struct Cpu; static void hostcall(Cpu &c, int n);     // the driver's
static bool cet;
// what every architecture has: P is its description
struct Frame { u64 ret, sp, fp_state; u64 saved[48]; u64 target; };
template <class C> struct Machine {
  u64 pc = 0; std::vector<Frame> calls; u64 budget = 0, watch = 0, hits = 0, chainseen = 0, sretseen = 0, hook = 0, hookchain = 0; int garb = 0;   // watch: the callee; hook: a Go closure, to be entered with its static chain
  C &self() { return *(C *)this; }
  void convention(int, bool) {}    // what the case uses
  u64 zone() { return 0; }         // below the stack pointer, what may be used
  bool discards(bool) { return true; }    // whether a call may be made without a result address, for a structure or else
  u64 handed(u64 align, char) { return align; }  // alignment of a handler's argument
  int abiok(int, bool inrange) { return inrange; }     // 2: depending on the signature
  void access(u64 a, u64 n, int p) {
    (p == W ? n_stores : n_loads)++; u64 sp = self().sp();
    if (a >= stack_lo && a < stack_hi && a < sp - self().zone()) viol("below-stack-pointer", "%s of %lu bytes at sp-%lu by %s", p == W ? "write" : "read", (long)n, (long)(sp - a), where(pc).c_str());
    if (!allowed(a, n, p)) viol("memory", "%s of %lu bytes at %lx by %s", p == W ? "write" : "read", (long)n, (long)a, where(pc).c_str());
    if (p == W) { u64 q = (a - BASE) / PG; if (perm[q] & (X | SHARED)) for (u64 w = (a - BASE) / 4; w <= (a + n - 1 - BASE) / 4; w++) dirty[w] = 1; }
  }
  template <class T> T ld(u64 a) { access(a, sizeof(T), R); return peek<T>(a); }
  template <class T> void st(u64 a, T v) { access(a, sizeof(T), W); poke<T>(a, v); }
  u32 fetch() { if (pc & 3) viol("jump", "to the odd address %lx", (long)pc); if (!allowed(pc, 4, X)) viol("jump", "to %s, which is no code", where(pc).c_str()); if (dirty[(pc - BASE) / 4]) viol("instruction-cache", "instruction at %s executed after it was written, without a flush", where(pc).c_str()); n_insn++; return peek<u32>(pc); }
  void called(u64 ret) {  // at the transfer: pc is the target
    n_calls++; Frame f; f.ret = ret; f.sp = self().sp(); f.target = pc; self().save(f); if (f.sp & (C::spalign - 1)) viol("stack-alignment", "sp %lx at the call of %s", (long)f.sp, where(pc).c_str()); if (f.sp < stack_lo || f.sp > stack_hi) viol("stack-pointer", "%lx at the call of %s", (long)f.sp, where(pc).c_str());
    calls.push_back(f); self().clobber_in(); jumped();
  }
  void jumped() { if (pc == watch) hits++, chainseen = self().chain(), sretseen = self().sret(); if (pc == hook) self().setchain(hookchain); }     // indirectly, or called
  void returned() {       // pc is where it goes
    n_rets++; if (calls.empty()) viol("return-address", "return to %s without a call", where(pc).c_str()); Frame &f = calls.back();
    if (pc != f.ret) viol("return-address", "%s returns to %s, called from before %s", where(f.target).c_str(), where(pc).c_str(), where(f.ret).c_str());
    if (self().sp() != f.sp && !(inner(f.ret) && inner(f.target) && self().sp() > f.sp && calls.size() > 1 && self().sp() <= calls[calls.size() - 2].sp)) viol("stack-pointer", "%s returns with sp %lx, called with %lx", where(f.target).c_str(), (long)self().sp(), (long)f.sp);
    self().check(f); u64 t = f.target; calls.pop_back(); self().clobber_out(t); if (t == watch && garb) self().garbage(garb);
  }
  void run(size_t depth) { budget = n_insn + 20000000; while (!(pc == STOP && calls.size() == depth)) {
    if (pc >= HOSTFN && pc < STOP) { n_hostcalls++; hostcall(self(), (pc - HOSTFN) / 16); self().hostreturn(); continue; }
    if (n_insn > budget) viol("hang", "no return after 20 million instructions, in %s", where(pc).c_str()); self().step(self().fetch()); } }
};
static void flush(u64 a, u64 e) { for (u64 w = a / 4; w * 4 < e; w++) if (w * 4 >= BASE && w * 4 < BASE + SPAN) dirty[w - BASE / 4] = 0; }
template <class T> static T asf(u64 v) { T t; memcpy(&t, &v, sizeof t); return t; }
template <class T> static u64 asu(T v) { u64 u = 0; memcpy(&u, &v, sizeof v); return u; }
template <class I, class F> static I sat(F v) { if (std::isnan(v)) return 0; if (v <= (F)std::numeric_limits<I>::min()) return std::numeric_limits<I>::min(); if (v >= (F)std::numeric_limits<I>::max()) return std::numeric_limits<I>::max(); return (I)v; }
static i64 sx(u64 v, int b) { return (i64)(v << (64 - b)) >> (64 - b); }
