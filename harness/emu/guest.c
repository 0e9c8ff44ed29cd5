// The guest's side of the monitor: what its C library must have, and facts its compiler knows.
#pragma clang section text = "nat_text"
#include <stddef.h>
#include <stdint.h>
#include <ffi.h>
unsigned char *nat_in[64], *nat_out; long nat_count; int64_t nat_wide[64]; double nat_fl[64]; int64_t nat_sgn[64]; long nat_off;
void nat_trash(void *p, size_t n) { unsigned char *q = p; while (n--) *q++ = 0xa7; }
void nat_at(void *p, size_t a) { if ((uintptr_t)p & (a - 1)) nat_off++; }
void *memcpy(void *d, const void *s, size_t n) { volatile char *p = d; const char *q = s; if ((((uintptr_t)d | (uintptr_t)s) & (sizeof(long) - 1)) == 0) for (; n >= sizeof(long); n -= sizeof(long), p += sizeof(long), q += sizeof(long)) *(volatile long *)p = *(const long *)q; while (n--) *p++ = *q++; return d; }
void *memmove(void *d, const void *s, size_t n) { volatile char *p = d; const char *q = s; if ((char *)d < (const char *)s) while (n--) *p++ = *q++; else while (n--) p[n] = q[n]; return d; }
void *memset(void *d, int c, size_t n) { volatile char *p = d; while (n--) *p++ = c; return d; }
int memcmp(const void *a, const void *b, size_t n) { const unsigned char *p = a, *q = b; for (; n--; p++, q++) if (*p != *q) return *p - *q; return 0; }
int bcmp(const void *a, const void *b, size_t n) { return memcmp(a, b, n); }
size_t strlen(const char *s) { size_t n = 0; while (((volatile const char *)s)[n]) n++; return n; }
char *strchr(const char *s, int c) { for (;; s++) { if (*(volatile const char *)s == (char)c) return (char *)s; if (!*s) return 0; } }
char *strrchr(const char *s, int c) { char *r = 0; for (;; s++) { if (*(volatile const char *)s == (char)c) r = (char *)s; if (!*s) return r; } }
int strncmp(const char *a, const char *b, size_t n) { for (; n--; a++, b++) { if (*(volatile unsigned char *)a != *(unsigned char *)b) return *(unsigned char *)a - *(unsigned char *)b; if (!*a) break; } return 0; }
int strcmp(const char *a, const char *b) { return strncmp(a, b, ~(size_t)0); }
int guest_errno; int *__errno_location(void) { return &guest_errno; }
char *stdout, *stderr;
#ifndef NO_COMPLEX
#define C(t) sizeof(t), _Alignof(t)
#else
#define C(t) 0, 0
#endif
const unsigned char k_scalars[] = { C(uint8_t), C(int8_t), C(uint16_t), C(int16_t), C(uint32_t), C(int32_t), C(uint64_t), C(int64_t), C(void *), C(float), C(double), C(long double), C(_Complex float), C(_Complex double), C(_Complex long double), C(_Complex unsigned char), C(_Complex short), C(_Complex int), C(_Complex long), 0 };
const uint32_t k_facts[] = { sizeof(ffi_type), offsetof(ffi_type, size), offsetof(ffi_type, alignment), offsetof(ffi_type, type), offsetof(ffi_type, elements), sizeof(ffi_cif), sizeof(ffi_closure), sizeof(ffi_raw_closure), sizeof(ffi_go_closure), sizeof(ffi_arg), FFI_FIRST_ABI, FFI_LAST_ABI, FFI_DEFAULT_ABI,
#ifdef FFI_TARGET_HAS_COMPLEX_TYPE
  1,
#else
  0,
#endif
};
// every function the monitor calls
#define K(f) (void *)f
extern char __start_nat_text[], __stop_nat_text[];
void *const k_keep[] = { __start_nat_text, __stop_nat_text, K(ffi_prep_cif), K(ffi_prep_cif_var), K(ffi_call), K(ffi_call_go), K(ffi_raw_call), K(ffi_raw_size), K(ffi_ptrarray_to_raw), K(ffi_raw_to_ptrarray), K(ffi_prep_closure_loc), K(ffi_prep_go_closure), K(ffi_prep_raw_closure_loc), K(ffi_closure_alloc), K(ffi_closure_free), K(ffi_get_struct_offsets), &ffi_type_longdouble };
#ifdef __NO_FPRS__ /* no floating-point registers: what the compiler calls for its conversions */
unsigned long long __extendsfdf2(unsigned s) {
  unsigned long long g = (unsigned long long)(s >> 31) << 63, m = s & 0x7fffff; int e = s >> 23 & 255;
  if (e == 255) return g | 0x7ffull << 52 | m << 29;
  if (!e) { if (!m) return g; for (e = 1; !(m & 0x800000); e--) m <<= 1; m &= 0x7fffff; }
  return g | (unsigned long long)(e + 896) << 52 | m << 29;
}
#endif
