// What a program built earlier finds in the shared library: versioned symbols, and data it was linked against.
#define COMMON_IMPL
#include "common.h"
#include <ffi.h>
#include <dlfcn.h>
#include <stddef.h>
static std::string ctx() { return "loading"; }
static const struct { const char *ver, *names; } want[] = {
  { "LIBFFI_BASE_8.0", "ffi_type_void ffi_type_uint8 ffi_type_sint8 ffi_type_uint16 ffi_type_sint16 ffi_type_uint32 ffi_type_sint32 ffi_type_uint64 ffi_type_sint64 ffi_type_float ffi_type_double ffi_type_longdouble ffi_type_pointer "
    "ffi_call ffi_prep_cif ffi_prep_cif_var ffi_raw_call ffi_ptrarray_to_raw ffi_raw_to_ptrarray ffi_raw_size ffi_java_raw_call ffi_java_ptrarray_to_raw ffi_java_raw_to_ptrarray ffi_java_raw_size ffi_get_struct_offsets" },
  { "LIBFFI_COMPLEX_8.0", "ffi_type_complex_float ffi_type_complex_double ffi_type_complex_longdouble" },
  { "LIBFFI_CLOSURE_8.0", "ffi_closure_alloc ffi_closure_free ffi_prep_closure ffi_prep_closure_loc ffi_prep_raw_closure ffi_prep_raw_closure_loc ffi_prep_java_raw_closure ffi_prep_java_raw_closure_loc" },
  { "LIBFFI_GO_CLOSURE_8.0", "ffi_call_go ffi_prep_go_closure" } };
int main(int argc, char **argv) {
  Opts o(argc, argv); set_kinds(o.str("kinds", "")); viol_context = ctx; void *h = dlopen(o.str("so", "").c_str(), RTLD_NOW); u64 n = 0, nd = 0; std::unordered_set<u64> ids;
  if (!h) { fprintf(stderr, "%s\n", dlerror()); return 2; }
  for (auto &w : want) { const char *p = w.names; while (*p) { const char *e = strchr(p, ' '); if (!e) e = p + strlen(p); std::string s(p, e - p); n++; void *a = dlvsym(h, s.c_str(), w.ver); if (!a) viol("symbol-version", "%s@%s is not there", s.c_str(), w.ver);
      if (!strncmp(s.c_str(), "ffi_type_", 9)) { const ffi_type *t = (const ffi_type *)a; nd++; if (!t->alignment || t->type > FFI_TYPE_LAST || t->size > 32) viol("descriptor", "%s: size %zu alignment %u kind %d", s.c_str(), t->size, t->alignment, t->type); }
      ids.insert(fnv(s)); p = *e ? e + 1 : e; } }
  stat_line("versioned_symbols", n); stat_line("descriptors", nd); stat_line("cases", n); write_ids(o.str("ids", ""), ids); printf("SAMPLE %llu symbols of 4 versions\nDONE\n", n); return 0;
}
