// ffi_call, variadic calls, Go calls, raw calls, closures, Go closures and raw closures of another architecture's back end, between functions
// compiled by clang for it, under the interpreter of that architecture.
//   --image --seed --from --step --cases --trials --ids --pool --cet
#include <limits>
#include "core.h"
#include ISA
#include <fcntl.h>
#include <sys/statfs.h>
#include <errno.h>
#include <unordered_set>
static Cpu cpu; static long g_case; static const char *op = "start"; static std::string cursig; static int nfixed; static const char *tabname = "";
void viol(const char *kind, const char *f, ...) { char b[1500]; va_list ap; va_start(ap, f); vsnprintf(b, sizeof b, f, ap); va_end(ap); std::string bt; for (size_t i = cpu.calls.size(); i-- > 0 && bt.size() < 300;) bt += " < " + where(cpu.calls[i].target);
  printf("VIOL %s-%s | %s | case=%ld %s table=%s sig=%.600s nfixed=%d at=%s%s\n", Cpu::name, kind, b, g_case, op, tabname, cursig.c_str(), nfixed, where(cpu.pc).c_str(), bt.c_str()); fflush(stdout); _exit(3); }
enum { F_SIZE, F_OSIZE, F_OALIGN, F_OTYPE, F_OELEM, F_CIF, F_CLOSURE, F_RAWCLOSURE, F_GOCLOSURE, F_ARG, F_FIRST, F_LAST, F_DEFAULT, F_COMPLEX };
static u32 K(int i) { return peek<u32>(sym("k_facts") + 4 * i); }
static u64 P() { return bits / 8; }
// calling the guest
static u64 call(u64 fn, std::initializer_list<u64> args) {
  size_t d = cpu.calls.size(); u64 sp = cpu.sp(), pc = cpu.pc; if (!d) { cpu.scramble(); cpu.setsp(stack_hi - 8192 - 16 * rng.below(64)); } else cpu.setsp((sp - 256) & ~15ull);
  u64 ra = cpu.ra(); int i = 0; for (u64 a : args) cpu.setarg(i++, a); cpu.setra(STOP); cpu.pc = fn; u64 s0 = cpu.sp(); cpu.enter(fn); cpu.called(STOP); cpu.run(d); if (cpu.sp() != s0) viol("stack-pointer", "not restored"); cpu.setsp(sp); cpu.setra(ra); cpu.pc = pc; return cpu.result();
}
static u64 call(const char *fn, std::initializer_list<u64> args) { return call(sym(fn), args); }
// guest memory for descriptors
static u64 ar, arp, ar_end; static u64 get(u64 n) { u64 p = arp; arp += (n + 15) & ~15ull; if (arp > ar_end) lacking("arena"); memset((void *)p, 0, n); return p; }
static u64 heap, heap_end; static std::unordered_map<u64, u64> live; static std::vector<u64> freed[64]; static u64 galloc(u64 n) { n = std::max<u64>(16, (n + 15) & ~15ull); u64 p; if (n / 16 < 64 && !freed[n / 16].empty()) { p = freed[n / 16].back(); freed[n / 16].pop_back(); } else { if (!heap) heap = map(8 << 20, R | W), heap_end = heap + (8 << 20); p = heap; heap += n; if (heap > heap_end) lacking("heap"); } live[p] = n; for (u64 i = 0; i < n; i += 8) *(u64 *)(p + i) = junk(); return p; }
struct Ty { char k; u64 size = 0, align = 0, f = 0; std::vector<Ty *> el; struct L { u32 off, n; char k; }; std::vector<L> leaf; u64 lay = 0; };
static std::vector<Ty *> owned, lays; static Ty *mk() { owned.push_back(new Ty); return owned.back(); }
static u64 cints[4];
static u64 builtin(char k) { static const char *N[] = { "uint8", "sint8", "uint16", "sint16", "uint32", "sint32", "uint64", "sint64", "pointer", "float", "double", "longdouble", "complex_float", "complex_double", "complex_longdouble" }; static const char *A = "abcdefghpFDLXYZqrst"; const char *q = strchr(A, k); if (k == 'v') return sym("ffi_type_void"); int i = q - A; return i >= 15 ? cints[i - 15] : sym((std::string("ffi_type_") + N[i]).c_str()); }
static u64 mktype(int type, u64 size, u64 al, u64 el) { u64 f = get(K(F_SIZE)); pokep(f + K(F_OSIZE), size); poke<u16>(f + K(F_OALIGN), al); poke<u16>(f + K(F_OTYPE), type); pokep(f + K(F_OELEM), el); return f; }
static u64 tsize(u64 f) { return peekp(f + K(F_OSIZE)); } static int talign(u64 f) { return peek<u16>(f + K(F_OALIGN)); } static int ttype(u64 f) { return peek<u16>(f + K(F_OTYPE)); }
static u64 ptrs(const std::vector<u64> &v) { u64 a = get(P() * (v.size() + 1)); for (size_t i = 0; i < v.size(); i++) pokep(a + i * P(), v[i]); return a; }
static Ty *parse(const char *&p, u64 &l) {
  Ty *t = mk(); t->k = *p; if (*p != '{') { t->f = builtin(*p); if (*p++ == 'v') return t; int i = strchr("abcdefghpFDLXYZqrst", t->k) - "abcdefghpFDLXYZqrst"; const u8 *s = (u8 *)sym("k_scalars") + 2 * i; t->size = s[0]; t->align = s[1];
    char b = strchr("X", t->k) ? 'F' : t->k == 'Y' ? 'D' : t->k == 'Z' ? 'L' : strchr("qrst", t->k) ? 'i' : t->k; if (strchr("XYZqrst", t->k)) { u32 h = t->size / 2; t->leaf = { { 0, h, b }, { h, h, b } }; } else t->leaf = { { 0, (u32)t->size, b } }; return t; }
  p++; while (*p != '}') { Ty *m = parse(p, l); long k = 1; if (*p == '*') { char *e; k = strtol(p + 1, &e, 10); p = e + 1; } while (k--) t->el.push_back(m); }
  p++; if (*p == '@') lacking("aligned struct"); t->lay = l; t->size = peekp(l); t->align = peekp(l + P()); l += P() * (2 + t->el.size()); std::vector<u64> e; for (size_t i = 0; i < t->el.size(); i++) { e.push_back(t->el[i]->f); u64 o = peekp(t->lay + P() * (2 + i)); for (auto &q : t->el[i]->leaf) t->leaf.push_back({ (u32)(q.off + o), q.n, q.k }); }
  t->f = mktype(13, 0, 0, ptrs(e)); lays.push_back(t); return t;
}
static bool eq(const Ty *t, u64 a, u64 b) { for (auto &l : t->leaf) if (memcmp((void *)(a + l.off), (void *)(b + l.off), l.n)) return false; return true; }
static std::string hex(u64 p, u64 n) { std::string s; char b[4]; for (u64 i = 0; i < n && i < 64; i++) snprintf(b, 4, "%02x", ((u8 *)p)[i]), s += b; return s; }
static void fill(const Ty *t, u64 p) { for (u64 i = 0; i < t->size; i++) ((u8 *)p)[i] = rng() >> 30; static const u64 E[] = { 0, 1, 0x7f, 0x80, 0xff, 0x7fff, 0x8000, 0xffff, 0x7fffffff, 0x80000000u, ~0ull, 0x8000000000000000ull };
  if (t->size <= 8 && t->k != '{' && t->leaf.size() == 1 && rng.chance(30)) { u64 v = E[rng.below(12)]; if (t->size == 8) poke<u64>(p, v); else if (t->size == 4) poke<u32>(p, v); else if (t->size == 2) poke<u16>(p, v); else poke<u8>(p, v); } 
  for (auto &l : t->leaf) if (l.k == 'F') { u32 v = peek<u32>(p + l.off); if ((v & 0x7f800000) == 0x7f800000) poke<u32>(p + l.off, v ^ 0x10000000); } else if (l.k == 'D') { u64 v = peek<u64>(p + l.off); if ((v >> 52 & 0x7ff) == 0x7ff) poke<u64>(p + l.off, v ^ 1ull << 60); } }
static bool isint(const Ty *t) { return strchr("abcdefp", t->k) || strchr("gh", t->k) && K(F_ARG) == 8; }
static u64 value(const Ty *t, u64 p) { switch (t->k) { case 'a': return peek<u8>(p); case 'b': return (i64)peek<i8>(p); case 'c': return peek<u16>(p); case 'd': return (i64)peek<i16>(p); case 'e': return peek<u32>(p); case 'f': return (i64)peek<i32>(p); case 'p': return peekp(p); default: return peek<u64>(p); } }
static void putarg(u64 p, u64 v) { if (K(F_ARG) == 8) poke<u64>(p, v); else poke<u32>(p, v); } static u64 getarg(u64 p) { return K(F_ARG) == 8 ? peek<u64>(p) : peek<u32>(p); } static u64 argmask() { return K(F_ARG) == 8 ? ~0ull : 0xffffffff; }
// values and results end at an inaccessible page
enum { MAXA = 64, CAP = 65536 }; static u64 ends[MAXA + 2]; static u64 guard(int i, u64 n) { return ends[i] - n; }
static u64 n_call, n_clo, n_raw, n_go, n_lay, n_rawclo, n_goclo, n_null, n_chain, n_wide, n_args, n_alloc, n_status, n_abi, n_sret; static std::vector<u64> ids;
static struct { Ty *ret, *arg[MAXA]; int n; u64 cif, v[MAXA], out; int handled; bool trash; u64 user; } C;
static void seen(u64 av) { for (int i = 0; i < C.n; i++) { u64 p = peekp(av + i * P()), n = C.arg[i]->size; if (!allowed(p, n, R | W) || p >= stack_lo && p < stack_hi && p < cpu.sp()) viol("closure-argument", "argument %d is at %lx", i, (long)p); if (p & (cpu.handed(C.arg[i]->align, C.arg[i]->k) - 1)) viol("closure-argument", "argument %d misaligned at %lx", i, (long)p); if (!eq(C.arg[i], p, C.v[i])) viol("closure-argument", "argument %d (%c): handler sees %s, caller passed %s", i, C.arg[i]->k, hex(p, n).c_str(), hex(C.v[i], n).c_str()); }
  if (C.trash) for (int i = 0; i < C.n; i++) memset((void *)peekp(av + i * P()), 0xc3, C.arg[i]->size); }
static void handle(u64 cif, u64 ret, u64 user) { C.handled++; if (cif != C.cif) viol("closure-cif", "handler got cif %lx, want %lx", (long)cif, (long)C.cif); if (user != C.user) viol("closure-userdata", "handler got user data %lx, want %lx", (long)user, (long)C.user); if (C.ret->k == 'v') return;
  u64 n = isint(C.ret) ? K(F_ARG) : C.ret->size; if (!allowed(ret, n, R | W) || ret >= stack_lo && ret < stack_hi && ret < cpu.sp()) viol("closure-result", "result buffer at %lx", (long)ret); if (ret & (C.ret->align - 1)) viol("closure-result", "result buffer misaligned at %lx", (long)ret); if (isint(C.ret)) putarg(ret, value(C.ret, C.out)); else memcpy((void *)ret, (void *)C.out, C.ret->size); }
static void seterr() { poke<u32>(sym("guest_errno"), errno); }
static std::vector<FILE *> files; static FILE *fil(u64 h) { return h - 0x1000 < files.size() ? files[h - 0x1000] : 0; } static u64 addfile(FILE *f) { if (!f) return 0; files.push_back(f); return 0xfff + files.size(); }
static void strcheck(u64 p) { if (!allowed(p, 1, R)) viol("memory", "string at %lx", (long)p); }
static u64 filemap(u64 at, u64 len, int prot, int flags, int fd, u64 off) {
  u64 size = (len + PG - 1) / PG * PG, p = at; if (flags & MAP_FIXED) { if (!allowed(at, size, R)) viol("memory", "mmap over %lx", (long)at); } else { p = brk_at = (brk_at + 65535) & ~65535ull; brk_at += size + PG; if (brk_at > BASE + SPAN) lacking("out of guest memory"); }
  int hp = PROT_READ | (prot & PROT_WRITE || flags & MAP_PRIVATE ? PROT_WRITE : 0); if (mmap((void *)p, size, hp, flags & (MAP_SHARED | MAP_PRIVATE | MAP_ANONYMOUS) | MAP_FIXED, fd, off) != (void *)p) { seterr(); return ~0ull; }
  for (u64 i = 0; i < size; i += PG) perm[(p + i - BASE) / PG] = (prot & PROT_READ ? R : 0) | (prot & PROT_WRITE ? W : 0) | (prot & PROT_EXEC ? X : 0); for (u64 w = (p - BASE) / 4; w < (p + size - BASE) / 4; w++) dirty[w] = 0; return p; }
static std::string gformat(Cpu &c, u64 fmt, int a) { std::string o; for (const char *s = (char *)fmt; *s; s++) { if (*s != '%') { o += *s; continue; } std::string sp = "%"; while (*++s && strchr("0123456789.-lzx+# ", *s) && *s != 'x') sp += *s; sp += *s; char b[300]; u64 v = c.arg(a++); if (*s == 's') snprintf(b, sizeof b, "%.250s", (char *)v); else if (*s == 'd') snprintf(b, sizeof b, "%d", (int)v); else snprintf(b, sizeof b, "%lx", (long)v); o += b; } return o; }
enum {
#define H(f) H_##f,
#include "hostfns.h"
#undef H
};
template <class E> static std::string maplines() { // what the image is mapped to
  std::string m; FILE *f = fopen(image.c_str(), "rb"); typename E::Eh h; typename E::Ph ph; if (fread(&h, sizeof h, 1, f) != 1) lacking("maps");
  for (int i = 0; i < bsw(h.e_phnum); i++) { fseek(f, bsw(h.e_phoff) + i * sizeof ph, SEEK_SET); if (fread(&ph, sizeof ph, 1, f) != 1) lacking("maps"); if (bsw(ph.p_type) != PT_LOAD) continue; u64 lo = bsw(ph.p_vaddr) / PG * PG, hi = (bsw(ph.p_vaddr) + bsw(ph.p_filesz) + PG - 1) / PG * PG; char l[700]; snprintf(l, sizeof l, "%08lx-%08lx r-%cp %08lx 08:01 4711 %20s%s\n", (long)lo, (long)hi, bsw(ph.p_flags) & PF_X ? 'x' : '-', (long)(bsw(ph.p_offset) / PG * PG), "", image.c_str()); m += l; }
  fclose(f); return m; }
static void hostcall(Cpu &c, int n) {
  u64 a = c.arg(0), b = c.arg(1), d = c.arg(2), r = 0; errno = 0;
  switch (n) {
  case H_handler: { u64 sp = c.sp(); seen(d); handle(a, b, c.arg(3)); (void)sp; r = junk(); break; }
  case H_rawhandler: { u64 av = get(P() * MAXA), user = c.arg(3); call("ffi_raw_to_ptrarray", { a, d, av }); seen(av); handle(a, b, user); r = junk(); break; }
  case H_abort: viol("crash-abort", "abort called from %s", where(c.ra()).c_str());
  case H___clear_cache: case H___riscv_flush_icache: flush(a, b); break;
  case H_malloc: r = galloc(a); break; case H_calloc: r = galloc(a * b); memset((void *)r, 0, a * b); break;
  case H_free: if (a) { auto i = live.find(a); if (i == live.end()) viol("heap", "free of %lx", (long)a); if (i->second / 16 < 64) freed[i->second / 16].push_back(a); live.erase(i); } break;
  case H_mmap: { int prot = d, fl = c.arg(3), fd = c.arg(4); u64 off = c.arg(5); r = filemap(a, b, prot, fl, fd, off); break; }
  case H_munmap: if (!allowed(a, b, R)) viol("memory", "munmap of %lx", (long)a); for (u64 i = 0; i < b; i += PG) perm[(a + i - BASE) / PG] = 0; break;
  case H_mprotect: for (u64 i = 0; i < b; i += PG) perm[(a + i - BASE) / PG] = d & 7; break;
  case H_access: strcheck(a); r = access((char *)a, b); seterr(); break;
  case H_close: r = close(a); break; case H_ftruncate: r = ftruncate(a, b); seterr(); break; case H_lseek: r = lseek(a, b, d); seterr(); break; case H_write: r = write(a, (void *)b, d); seterr(); break; case H_pread: r = pread(a, (void *)b, d, c.arg(3)); seterr(); break; case H_read: r = read(a, (void *)b, d); break;
  case H_open: strcheck(a); r = open((char *)a, b, c.arg(2)); seterr(); break; case H_unlink: r = unlink((char *)a); break; case H_mkstemp: r = mkstemp((char *)a); seterr(); break; case H_memfd_create: r = memfd_create((char *)a, b); seterr(); break; case H_fcntl: r = fcntl(a, b, d); break;
  case H_fopen: { strcheck(a); std::string s = (char *)a; if (s.size() > 5 && s.substr(s.size() - 5) == "/maps") { // of this program: the image
      static std::string m; m = "00400000-00401000 r--p 00000000 08:01 1 /nonexistent\n"; m += bits == 64 ? maplines<E64>() : maplines<E32>(); r = addfile(fmemopen((void *)m.data(), m.size(), "r")); }
    else { r = addfile(fopen(s.c_str(), (char *)b)); seterr(); } break; }
  case H_fclose: { FILE *f = fil(a); if (!f) viol("heap", "fclose of %lx", (long)a); r = fclose(f); files[a - 0x1000] = 0; break; }
  case H_fgets: { FILE *f = fil(d); if (!f) viol("heap", "fgets from %lx", (long)d); if (!allowed(a, b, W)) viol("memory", "fgets to %lx", (long)a); r = fgets((char *)a, b, f) ? a : 0; break; }
  case H_feof: r = feof(fil(a)); break;
  case H_getline: case H___getdelim: { bool gl = n == H_getline; if (peekp(a)) live.erase(peekp(a)); static char *l; static size_t z; FILE *f = fil(gl ? d : c.arg(3)); ssize_t k = getdelim(&l, &z, gl ? 10 : d, f); u64 p = galloc(k < 0 ? 16 : k + 1); if (k >= 0) memcpy((void *)p, l, k + 1); pokep(a, p); pokep(b, k < 0 ? 16 : k + 1); r = k; break; }
  case H_getenv: r = 0; break; case H_setmntent: case H_endmntent: case H_getmntent_r: case H_hasmntopt: r = 0; break;
  case H_getpid: r = getpid(); break;
  case H_snprintf: { std::string s = gformat(c, d, 3); if (b) { u64 k = std::min<u64>(b - 1, s.size()); memcpy((void *)a, s.data(), k); ((char *)a)[k] = 0; } r = s.size(); break; }
  case H_printf: { std::string s = gformat(c, a, 1); r = s.size(); break; } case H_fprintf: case H_puts: case H_putchar: break;
  case H___isoc23_sscanf: case H___isoc99_sscanf: case H_sscanf: { strcheck(a); char t[6][5000]; u64 x[7]; // %lx and %s only
    const char *in = (char *)a; int k = 2, got = 0; std::string fm = (char *)b; if (fm.find_first_of("dfiu") != std::string::npos) { (void)t; } const char *q = fm.c_str(); (void)x; bool ok = true;
    while (*q && ok) { if (isspace(*q)) { while (isspace(*in)) in++; q++; continue; } if (*q != '%') { if (*in != *q) break; in++; q++; continue; } q++; bool skip = *q == '*'; if (skip) q++; int w = strtol(q, (char **)&q, 10); if (!w) w = 1 << 20; bool lg = false; while (*q == 'l') lg = true, q++; char cv = *q++;
      if (cv != 'c' && cv != '[') while (isspace(*in)) in++; if (cv == 'x' || cv == 'd' || cv == 'u') { char *e; u64 v = strtoull(in, &e, cv == 'x' ? 16 : 10); if (e == in) break; in = e; if (!skip) { u64 p = c.arg(k++); if (lg) pokep(p, v); else poke<u32>(p, v); got++; } } else if (cv == 's') { if (!*in) break; u64 p = skip ? 0 : c.arg(k++); int i = 0; while (*in && !isspace(*in) && i < w) { if (p) ((char *)p)[i] = *in; i++; in++; } if (p) ((char *)p)[i] = 0, got++; }
      else if (cv == 'c') { if (!skip) { u64 p = c.arg(k++); *(char *)p = *in; got++; } in++; } else if (cv == '[') { bool neg = *q == '^'; if (neg) q++; std::string set; while (*q != ']') set += *q++; q++; u64 p = skip ? 0 : c.arg(k++); int i = 0; while (*in && i < w && (set.find(*in) != std::string::npos) != neg) { if (p) ((char *)p)[i] = *in; i++; in++; } if (p) ((char *)p)[i] = 0; if (!i) break; if (p) got++; } else lacking("sscanf %%%c", cv); }
    r = got; break; }
  case H_statfs: r = -1; poke<u32>(sym("guest_errno"), ENOENT); break; case H_sysconf: r = 4096; break; case H_getpagesize: r = 4096; break; case H_syscall: r = -1; poke<u32>(sym("guest_errno"), ENOSYS); break;
  default: lacking("host function %d called from %s", n, where(c.ra()).c_str());
  }
  c.setresult(r);
}
static struct Slot { u64 w, code; } pool[1024]; static int POOL = 600;
static void pool_get(Slot &s) { static u64 loc = map(4096, R | W); u64 size = std::max(K(F_CLOSURE), K(F_RAWCLOSURE)); s.w = call("ffi_closure_alloc", { rng.chance(50) ? size : size + rng.below(64), loc }); s.code = peekp(loc); n_alloc++; if (!s.w) viol("closure-alloc", "no closure"); if (!allowed(s.w, size, R | W)) viol("closure-alloc", "closure at %lx", (long)s.w); for (int i = 0; i < POOL; i++) if (&pool[i] != &s && (pool[i].code == s.code || pool[i].w == s.w)) viol("closure-alloc", "handed out twice"); }
static u64 fnv(const void *p, size_t n, u64 h) { const u8 *q = (u8 *)p; while (n--) { h ^= *q++; h *= 1099511628211ull; } return h; }
static void widecheck(const char *what, const Ty *t, u64 v, u64 got) { if (!strchr("abcdef", t->k)) { if (t->k == 'F') { n_wide++; double w = peek<float>(v), g = peek<double>(got); if (memcmp(&w, &g, 8)) viol("extension", "%s: compiled code sees %g, value is %g", what, g, w); } return; } n_wide++; if (peek<u64>(got) != value(t, v)) viol("extension", "%s: compiled code sees %lx, value is %lx", what, (long)peek<u64>(got), (long)value(t, v)); }
static void signedcheck(const char *what, u64 v, u64 got) { n_wide++; if (peek<u64>(got) != (u64)(i64)peek<i32>(v)) viol("extension", "%s: compiled code sees %lx as a signed number, value is %x", what, (long)peek<u64>(got), peek<u32>(v)); }
static void one(u64 tab, u64 sig, int trials) {
  arp = ar; for (Ty *t : owned) delete t; owned.clear(); lays.clear(); tabname = (char *)peekp(tab); cursig = (char *)peekp(sig); nfixed = (i32)peek<u32>(sig + P()); u64 callee = peekp(sig + 2 * P()), caller = peekp(sig + 3 * P()), l = peekp(sig + 4 * P()); op = "preparing"; ids.push_back(fnv(cursig.data(), cursig.size(), fnv(tabname, strlen(tabname), 1469598103934665603ull)));
  static const int CB[] = { 5, 8, 10, 0 }; for (int i = 0; i < 4; i++) { static const char *B[] = { "ffi_type_uint8", "ffi_type_sint16", "ffi_type_sint32", "ffi_type_sint64" }; u64 b = sym(i == 3 && bits == 32 ? "ffi_type_sint32" : B[i]); cints[i] = mktype(15, 2 * tsize(b), talign(b), ptrs({ b })); } (void)CB;
  const char *p = cursig.c_str(); C.ret = parse(p, l); C.n = 0; while (*p) C.arg[C.n++] = parse(p, l); int n = C.n; bool simple = true, rawclo = true; std::vector<u64> at; for (int i = 0; i < n; i++) { at.push_back(C.arg[i]->f); if (C.arg[i]->align > P()) rawclo = false; if (C.arg[i]->k == '{' || C.arg[i]->leaf.size() > 1) simple = false; } if (!simple) rawclo = false;
  // raw interfaces: what they are defined for
  u64 ats = ptrs(at); C.cif = get(K(F_CIF)); u64 abi = peekp(tab + 3 * P()) ? peekp(tab + 3 * P()) : K(F_DEFAULT); cpu.convention(abi, nfixed >= 0); u32 s = nfixed >= 0 ? call("ffi_prep_cif_var", { C.cif, abi, (u64)nfixed, (u64)n, C.ret->f, ats }) : call("ffi_prep_cif", { C.cif, abi, (u64)n, C.ret->f, ats }); if (s) viol("status", "valid signature rejected with %d", s); n_status++;
  if (rng.chance(5)) { u64 t = get(K(F_CIF)); for (int x = -2; x < 34; x++) { u32 q = call("ffi_prep_cif", { t, (u64)(i64)x, (u64)n, C.ret->f, ats }); int ok = cpu.abiok(x, x > (int)K(F_FIRST) && x < (int)K(F_LAST)); n_abi++; if (ok < 2 && (q == 0) != ok || q && q != 2) viol("status", "ffi_prep_cif with ABI %d gives %d", x, q); if (ok && x != (int)abi) continue; } call("ffi_prep_cif", { t, abi, (u64)n, C.ret->f, ats }); }
  for (Ty *t : lays) { n_lay++; if (tsize(t->f) != t->size || talign(t->f) != t->align) viol("layout", "libffi size %lu alignment %d, C size %lu alignment %lu", (long)tsize(t->f), talign(t->f), (long)t->size, (long)t->align); u64 o = get(P() * (t->el.size() + 1)); pokep(o + P() * t->el.size(), 0x5a5a); if (call("ffi_get_struct_offsets", { abi, t->f, o })) viol("status", "offset query fails"); for (size_t j = 0; j < t->el.size(); j++) if (peekp(o + P() * j) != peekp(t->lay + P() * (2 + j))) viol("layout", "member %lu at %lu, C says %lu", (long)j, (long)peekp(o + P() * j), (long)peekp(t->lay + P() * (2 + j))); if (peekp(o + P() * t->el.size()) != 0x5a5a) viol("layout", "offset query wrote behind the array"); }
  for (int i = 0; i < n; i++) C.v[i] = guard(i, C.arg[i]->size); u64 rsz = C.ret->k == 'v' ? 0 : isint(C.ret) ? K(F_ARG) : C.ret->size, res = guard(MAXA, rsz); C.out = guard(MAXA + 1, std::max<u64>(C.ret->size, 1)); pokep(sym("nat_out"), C.out); u64 in = sym("nat_in"), wide = sym("nat_wide"), fl = sym("nat_fl"), sgn = sym("nat_sgn"), cnt = sym("nat_count");
  int slot[4]; for (int i = 0; i < 4;) { int k = rng.below(POOL); bool dup = false; for (int j = 0; j < i; j++) dup |= slot[j] == k; if (!dup) slot[i++] = k; } for (int i = 0; i < 4; i++) if (rng.chance(20)) { Slot &q = pool[slot[i]]; op = "replacing a closure"; call("ffi_closure_free", { q.w }); pool_get(q); } op = "preparing closures";
  u64 H = HOSTFN + 16 * H_handler, HR = HOSTFN + 16 * H_rawhandler; for (int i = 0; i < 3; i++) if (call("ffi_prep_closure_loc", { pool[slot[i]].w, C.cif, H, (u64)&pool[slot[i]], pool[slot[i]].code })) viol("status", "valid closure rejected"); Slot &rs = pool[slot[3]]; if (rawclo && call("ffi_prep_raw_closure_loc", { rs.w, C.cif, HR, (u64)&rs, rs.code })) viol("status", "valid raw closure rejected");
  u64 go = get(K(F_GOCLOSURE)), av = get(P() * MAXA), chainobj = get(16), base = arp;
  int inmem = C.ret->size > 2 * P() ? -1 : 0; // the callee gets the address of the result
  for (int q = 0; q < trials; q++) {
    arp = base; auto reset = [&] { for (int i = 0; i < n; i++) { memset((void *)peekp(in + i * P()), 0xee, C.arg[i]->size); poke<u64>(wide + 8 * i, 0xdddddddd); } poke<u32>(cnt, 0); pokep(cnt, 0); for (int i = 0; i < n; i++) pokep(av + i * P(), C.v[i]); cpu.garb = 0; cpu.watch = callee; cpu.hits = 0; cpu.hook = 0; };
    for (int i = 0; i < n; i++) fill(C.arg[i], C.v[i]); fill(C.ret, C.out); u64 sum = 0; for (int i = 0; i < n; i++) sum = fnv((void *)C.v[i], C.arg[i]->size, sum); n_args += n; reset();
    u64 got = guard(MAXA, std::max<u64>(C.ret->size, 1));
    if (q < 2) { op = "native caller to native callee"; call(caller, { callee, av, got }); for (int i = 0; i < n; i++) if (!eq(C.arg[i], peekp(in + i * P()), C.v[i])) lacking("generated code disagrees with itself (argument %d): %s", i, cursig.c_str()); if (C.ret->k != 'v' && !eq(C.ret, got, C.out)) lacking("generated code disagrees with itself (result): %s", cursig.c_str()); }
    for (int api = 0; api < 3; api++) { // ffi_call, ffi_call_go, ffi_raw_call
      if (api == 2 && !simple) continue; bool nul = rng.chance(10) && cpu.discards(C.ret->k == '{' || C.ret->k == 'v'); static const char *const N[] = { "ffi_call to native callee", "ffi_call_go to native callee", "ffi_raw_call to native callee" }; op = N[api]; n_null += nul; arp = base; reset(); memset((void *)(res - 64), 0x5c, rsz + 64); u64 r = nul ? 0 : res; cpu.garb = C.ret->size < 8 && isint(C.ret) ? 8 * C.ret->size : 0;
      if (api == 0) { n_call++; call("ffi_call", { C.cif, callee, r, av }); }
      else if (api == 1) { n_go++; u64 ch = rng.chance(10) ? 0 : chainobj + rng.below(16); call("ffi_call_go", { C.cif, callee, r, av, ch }); n_chain++; if (cpu.chainseen != ch) viol("static-chain", "callee finds %lx, passed %lx", (long)cpu.chainseen, (long)ch); }
      else { n_raw++; u64 rw = call("ffi_raw_size", { C.cif }), want = 0; for (int i = 0; i < n; i++) want += (C.arg[i]->size + P() - 1) / P() * P(); if (rw != want) viol("raw-size", "%lu, want %lu", (long)rw, (long)want); u64 raw = guard(MAXA - 1, rw); call("ffi_ptrarray_to_raw", { C.cif, av, raw }); call("ffi_raw_call", { C.cif, callee, r, raw }); }
      if (!nul) inmem = inmem != 0 && cpu.sretseen == r; if (nul && inmem == 1) { n_sret++; if (cpu.sretseen % C.ret->align) viol("result-alignment", "callee is to return its structure at %lx", (long)cpu.sretseen); } if (peekp(sym("nat_off"))) viol("argument-alignment", "%ld structures at addresses not aligned for them", (long)peekp(sym("nat_off"))); if (cpu.hits != 1 || peekp(cnt) != 1) viol("callee-count", "callee entered %lu times", (long)peekp(cnt));
      for (int i = 0; i < n; i++) { u64 g = peekp(in + i * P()); if (!eq(C.arg[i], g, C.v[i])) viol(nfixed >= 0 ? "variadic-argument" : "argument", "argument %d (%c): callee got %s, passed %s", i, C.arg[i]->k, hex(g, C.arg[i]->size).c_str(), hex(C.v[i], C.arg[i]->size).c_str()); widecheck(N[api], C.arg[i], C.v[i], C.arg[i]->k == 'F' ? fl + 8 * i : wide + 8 * i); if (C.arg[i]->k == 'e') signedcheck(N[api], C.v[i], sgn + 8 * i); if (peekp(av + i * P()) != C.v[i]) viol("argument", "argument array modified"); }
      if (C.ret->k != 'v' && !nul) { if (isint(C.ret)) { u64 w = value(C.ret, C.out) & argmask(), g = getarg(res); if (g != w) viol("result", "got %lx want %lx", (long)g, (long)w); } else if (!eq(C.ret, res, C.out)) viol("result", "got %s want %s", hex(res, rsz).c_str(), hex(C.out, rsz).c_str()); }
      for (int i = 0; i < 64; i++) if (((u8 *)res)[i - 64] != 0x5c) viol("result-extent", "byte %d before the result written", 64 - i); if (nul) for (u64 i = 0; i < rsz; i++) if (((u8 *)res)[i] != 0x5c) viol("result-extent", "result written without a result address"); u64 sum2 = 0; for (int i = 0; i < n; i++) sum2 = fnv((void *)C.v[i], C.arg[i]->size, sum2); if (sum != sum2) viol("argument", "argument values modified");
    }

    for (int api = 0; api < 3; api++) { // closure, Go closure, raw closure
      static const char *const N[] = { "native caller to closure", "native caller to Go closure", "native caller to raw closure" }; if (api == 2 && !rawclo) continue; op = N[api]; arp = base; reset(); C.handled = 0; C.trash = rng.chance(50); memset((void *)got, 0x5c, C.ret->size); poke<u64>(wide, 0xdddddddd); u64 code; cpu.watch = 0;
      if (api == 0) { n_clo++; Slot &s = pool[slot[rng.below(3)]]; C.user = bits == 64 ? (u64)&s : (u32)(u64)&s; code = s.code; } else if (api == 1) { n_goclo++; C.user = go; if (call("ffi_prep_go_closure", { go, C.cif, H })) viol("status", "valid Go closure rejected"); code = peekp(go); cpu.hook = code; cpu.hookchain = go; } else { n_rawclo++; C.user = bits == 64 ? (u64)&rs : (u32)(u64)&rs; code = rs.code; }
      call(caller, { code, av, got }); if (C.handled != 1) viol("closure-count", "handler entered %d times", C.handled); if (C.ret->k != 'v') { if (!eq(C.ret, got, C.out)) viol("closure-result", "caller got %s, handler stored %s", hex(got, C.ret->size).c_str(), hex(C.out, C.ret->size).c_str()); if (C.ret->k != 'F') widecheck(op, C.ret, C.out, wide); if (C.ret->k == 'e') signedcheck(op, C.out, sgn); }
    }
  }
  if (g_case < 300 && g_case % 40 == 7) printf("SAMPLE %s %.200s: %lu instructions executed so far\n", tabname, cursig.c_str(), (long)n_insn);
}
static const char *opt(int c, char **v, const char *n, const char *d) { size_t l = strlen(n); for (int i = 1; i < c; i++) if (!strncmp(v[i], "--", 2) && !strncmp(v[i] + 2, n, l) && v[i][2 + l] == '=') return v[i] + 3 + l; return d; }
int main(int c, char **v) {
  setvbuf(stdout, 0, _IOLBF, 0); load(opt(c, v, "image", "")); cpu.init(); u64 tabs = sym("TABLES"); std::vector<std::pair<u64, u64>> all; for (; peekp(tabs); tabs += 4 * P()) { u64 t = peekp(tabs + P()), n = peek<u32>(peekp(tabs + 2 * P())); for (u64 k = 0; k < n; k++) all.push_back({ tabs, t + k * 5 * P() }); }
  if (atoi(opt(c, v, "print-count", "0"))) { printf("%zu\n", all.size()); return 0; }
  u64 seed = strtoull(opt(c, v, "seed", "1"), 0, 0); long from = atol(opt(c, v, "from", "0")), step = atol(opt(c, v, "step", "1")), cases = atol(opt(c, v, "cases", "100")); int trials = atoi(opt(c, v, "trials", "4")); POOL = atoi(opt(c, v, "pool", "600")); cet = atoi(opt(c, v, "cet", "0"));
  ar = map(4 << 20, R | W); ar_end = ar + (4 << 20); arp = ar; for (int i = 0; i < MAXA + 2; i++) ends[i] = map(CAP, R | W) + CAP; for (int i = 0; i < MAXA; i++) pokep(sym("nat_in") + i * P(), map(CAP, R | W));
  bool gap = false; try {
  rng.seed(seed, ~0ull); junk.seed(seed, 77); op = "allocating closures"; for (int i = 0; i < POOL; i++) pool_get(pool[i]);
  for (long i = 0; i < cases; i++) { g_case = from + i * step; if (g_case >= (long)all.size()) break; rng.seed(seed, g_case); junk.seed(seed, g_case * 2 + 1); one(all[g_case].first, all[g_case].second, trials); }
  op = "freeing closures"; for (int i = 0; i < POOL; i++) call("ffi_closure_free", { pool[i].w });
  } catch (Gap &) { gap = true; }
#define ST(n, x) printf("STAT %s_%s %llu\n", Cpu::name, n, (unsigned long long)(x))
  printf("STAT invocations %llu\n", (unsigned long long)(n_call + n_go + n_raw + n_clo + n_goclo + n_rawclo)); printf("STAT arguments %llu\n", (unsigned long long)n_args);
  ST("gaps", gap); ST("calls", n_call); ST("go_calls", n_go); ST("raw_calls", n_raw); ST("closure_calls", n_clo); ST("go_closure_calls", n_goclo); ST("raw_closure_calls", n_rawclo); ST("layouts", n_lay); ST("null_results", n_null); ST("null_results_in_memory", n_sret); ST("static_chains", n_chain); ST("widened_values", n_wide); ST("closures_allocated", n_alloc); ST("abi_numbers_tried", n_abi); ST("instructions", n_insn); ST("loads", n_loads); ST("stores", n_stores); ST("calls_watched", n_calls); ST("returns_matched", n_rets); ST("host_calls", n_hostcalls); cpu.stats();
  const char *f = opt(c, v, "ids", ""); if (*f) { FILE *o = fopen(f, "wb"); if (!o) exit(2); fwrite(ids.data(), 8, ids.size(), o); fclose(o); } printf("DONE\n"); return 0;
}
