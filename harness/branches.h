// Control-flow enforcement in software: what a processor with indirect branch
// tracking and a shadow stack would refuse.  Fed by the trap after every
// instruction: the branch about to run is decoded, and its effect checked at
// the next trap.
#ifndef BRANCHES_H
#define BRANCHES_H
#include <link.h>
#include <ucontext.h>
#include <string.h>
#include <stdint.h>
#if defined(__x86_64__)
# define CET_IP REG_RIP
# define CET_SP REG_RSP
static const unsigned cet_pad = 0xfa1e0ff3;
#else
# define CET_IP REG_EIP
# define CET_SP REG_ESP
static const unsigned cet_pad = 0xfb1e0ff3;
#endif
typedef uintptr_t cet_w;
enum { CET_NONE, CET_CALL, CET_ICALL, CET_IJMP, CET_RET };
static cet_w cet_sh[1 << 16]; static int cet_depth, cet_base, cet_kind; static cet_w cet_from; static volatile int cet_paused; static int cet_notrack;
static unsigned long long cet_tracked, cet_untracked, cet_rets, cet_steps, cet_nsites; static cet_w cet_sites[1 << 16];
static struct { cet_w lo, hi; } cet_foreign[16]; static int cet_nforeign;
static int cet_so, cet_marks;   // the loaded shared library and what its property note declares
static int cet_phdr(struct dl_phdr_info *i, size_t, void *) {
  const char *b = strrchr(i->dlpi_name, '/'); b = b ? b + 1 : i->dlpi_name;
  if (strstr(b, "ffi")) for (int k = 0; k < i->dlpi_phnum; k++) {
    cet_so = 1; const ElfW(Phdr) h = i->dlpi_phdr[k]; if (h.p_type != PT_NOTE) continue;
    const unsigned char *n = (const unsigned char *)(i->dlpi_addr + h.p_vaddr), *e = n + h.p_memsz;
    while (n + 12 <= e) { const unsigned *w = (const unsigned *)n; const unsigned char *d = n + 12 + ((w[0] + 3) & ~3u), *de = d + w[1];
      if (w[2] == 5 && !memcmp(n + 12, "GNU", 4)) while (d + 12 <= de) { const unsigned *q = (const unsigned *)d; if (q[0] == 0xc0000002) cet_marks |= (int)q[2]; d += 8 + ((q[1] + sizeof(cet_w) - 1) & ~(sizeof(cet_w) - 1)); }
      n = n + 12 + ((w[0] + 3) & ~3u) + ((w[1] + sizeof(cet_w) - 1) & ~(sizeof(cet_w) - 1)); }
  }
  if (strncmp(b, "libc.", 5) && strncmp(b, "ld-", 3) && strncmp(b, "libstdc", 7) && strncmp(b, "libgcc", 6) && strncmp(b, "libm.", 5) && !strstr(b, "vdso")) return 0;
  for (int k = 0; k < i->dlpi_phnum; k++) if (i->dlpi_phdr[k].p_type == PT_LOAD && (i->dlpi_phdr[k].p_flags & PF_X) && cet_nforeign < 16) { cet_foreign[cet_nforeign].lo = i->dlpi_addr + i->dlpi_phdr[k].p_vaddr; cet_foreign[cet_nforeign].hi = cet_foreign[cet_nforeign].lo + i->dlpi_phdr[k].p_memsz; cet_nforeign++; }
  return 0;
}
static int cet_is_foreign(cet_w a) { for (int i = 0; i < cet_nforeign; i++) if (a >= cet_foreign[i].lo && a < cet_foreign[i].hi) return 1; return 0; }
static void cet_init(void) { dl_iterate_phdr(cet_phdr, 0); if (cet_so && cet_marks != 3) viol("cet-marking", "the shared library's property note declares %x, want indirect branch tracking and shadow stack (3)", cet_marks); }
static void cet_start(void) { cet_depth = 0; cet_kind = CET_NONE; cet_paused = 0; }
static void cet_decode(const unsigned char *p) {
  cet_kind = CET_NONE; cet_notrack = 0; cet_from = (cet_w)p;
  for (;; p++) { if (*p == 0x3e) cet_notrack = 1; else if (*p == 0xf2 || *p == 0xf3 || *p == 0x66 || *p == 0x67 || *p == 0x64 || *p == 0x65 || *p == 0x2e || *p == 0x36 || *p == 0x26) ; else break; }
#if defined(__x86_64__)
  if ((*p & 0xf0) == 0x40) p++;
#endif
  if (*p == 0xe8) { if (memcmp(p + 1, "\0\0\0", 4)) cet_kind = CET_CALL; }   // the shadow stack ignores a call of the next instruction
  else if (*p == 0xc3 || *p == 0xc2) cet_kind = CET_RET;
  else if (*p == 0xff) { int r = p[1] >> 3 & 7; if (r == 2) cet_kind = CET_ICALL; else if (r == 4) cet_kind = CET_IJMP; }
}
static void cet_landing(cet_w ip) {
  if (cet_is_foreign(cet_from) || cet_is_foreign(ip)) return;   // the 32-bit C library here has no landing pads
  { unsigned h = (unsigned)(cet_from * 2654435761u) >> 16; while (cet_sites[h] && cet_sites[h] != cet_from) h = (h + 1) & 65535; if (!cet_sites[h] && cet_nsites < 60000) { cet_sites[h] = cet_from; cet_nsites++; } } if (cet_notrack) { cet_untracked++; return; } cet_tracked++;
  unsigned w; memcpy(&w, (void *)ip, 4);
  if (w != cet_pad) { const unsigned char *p = (const unsigned char *)ip; viol("landing-pad", "indirect %s at %p reaches %p, which starts %02x %02x %02x %02x and is no landing pad", cet_kind == CET_ICALL ? "call" : "jump", (void *)cet_from, (void *)ip, p[0], p[1], p[2], p[3]); }
}
// cb..ce: the callee probe, which continues after an untraced stretch one level up
static void cet_step(ucontext_t *u, cet_w cb, cet_w ce) {
  cet_w ip = (cet_w)u->uc_mcontext.gregs[CET_IP], sp = (cet_w)u->uc_mcontext.gregs[CET_SP]; cet_steps++;
  if (cet_paused) { cet_paused = 0; cet_kind = CET_NONE; if (ip >= cb && ip < ce) cet_depth = cet_base; }
  switch (cet_kind) {
  case CET_ICALL: cet_landing(ip); /* fall through */
  case CET_CALL: if (cet_depth < (1 << 16)) cet_sh[cet_depth++] = *(cet_w *)sp; break;
  case CET_IJMP: cet_landing(ip); break;
  case CET_RET: cet_rets++; if (cet_depth == 0) { viol("return-address", "return at %p to %p without a call", (void *)cet_from, (void *)ip); break; } if (cet_sh[--cet_depth] != ip) viol("return-address", "return at %p to %p, the matching call pushed %p", (void *)cet_from, (void *)ip, (void *)cet_sh[cet_depth]); break;
  }
  if (ip == cb) cet_base = cet_depth;
  cet_decode((const unsigned char *)ip);
}
#endif
