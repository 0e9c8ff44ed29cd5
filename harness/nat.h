/* Interface between generated native code and the monitor. Knows nothing of libffi. */
#include <stddef.h>
#include <stdint.h>
#include <string.h>
struct nat_sig { const char *enc; int nfixed; void *callee; void (*caller)(void *code, void **av, void *ret); const size_t *lay; };
extern unsigned char *nat_in[]; extern unsigned char *nat_out; extern long nat_count;
void nat_trash(void *p, size_t n);
#ifdef NAT_EMU
#pragma clang section text = "nat_text"
extern int64_t nat_wide[]; extern double nat_fl[]; extern int64_t nat_sgn[]; void nat_at(void *p, size_t align);
#else
extern int32_t nat_wide[];   /* i386 only: narrow integers as the compiled code sees them */
#endif
#ifdef NAT_I386
long *nat_enter(void);
#define NAT_CALLS (*nat_enter())
#else
#define NAT_CALLS nat_count
#endif
