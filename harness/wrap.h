// Interposition of the library's resource requests (linker --wrap).  Only
// requests made while the calling thread is inside a library call (LIB scope)
// are recorded or made to fail.
#pragma once
#include "common.h"
struct WrapState; extern WrapState W; extern __thread int in_lib;
enum RClass { RC_MMAP_ANON, RC_MMAP_ANON_X, RC_MMAP_FILE_X, RC_MMAP_FILE_W, RC_MALLOC, RC_OPEN, RC_MEMFD, RC_MKTEMP, RC_WRITE, RC_TRUNC, RC_FOPEN, RC_STAT, RC_NUM };
static const char *const rc_name[] = { "mmap-anon", "mmap-anon-exec", "mmap-file-exec", "mmap-file-write", "malloc", "open", "memfd", "mktemp", "write", "ftruncate", "fopen", "statfs" };
struct WrapState {
  u64 calls[RC_NUM], total, failed; u64 munmaps, mprotects, frees, wx, wxreq;
  std::map<void *, size_t> heap;                     // outstanding malloc blocks of the library
  size_t heap_bytes;
  std::map<uintptr_t, std::pair<size_t, int>> maps;  // outstanding mappings of the library: start -> (length, prot)
  size_t map_bytes;
  std::set<int> fds; std::vector<std::string> log; bool logging;
  // fault plan
  bool (*should_fail)(RClass c, u64 index, const char *path);   // index: requests since arming
  u64 armed_index; int fail_errno[RC_NUM];
  bool (*always_fail)(RClass c, const char *path);              // standing policy, not counted as a fault
  std::string (*redirect)(RClass c, const char *path);          // where a file name really leads
  std::map<int, std::string> fdpath;                            // descriptors of the library -> name asked for
  struct FMap { uintptr_t a; size_t n; int fd; off_t off; bool x; }; std::vector<FMap> fmaps; u64 foreign_unmaps, unreserved; std::string unreserved_text;
};
inline std::string rpath(RClass c, const char *p) { return W.redirect ? W.redirect(c, p) : std::string(p); }

struct Held { size_t h, m, f; Held() : h(W.heap_bytes), m(W.map_bytes), f(W.fds.size()) {} bool grew() { return W.heap_bytes > h || W.map_bytes > m || W.fds.size() > f; } };
struct LIB { LIB() { in_lib++; } ~LIB() { in_lib--; } };

#ifdef WRAP_IMPL
#include <fcntl.h>
#include <sys/statfs.h>
#include <sys/stat.h>
#include <mntent.h>
WrapState W; __thread int in_lib;
static bool fails(RClass c, const char *path, const char *desc) {
  if (W.always_fail && W.always_fail(c, path)) { if (W.logging) W.log.push_back(strf("%s %s [policy]", rc_name[c], desc ? desc : path ? path : "")); errno = W.fail_errno[c] ? W.fail_errno[c] : EACCES; return true; }
  W.calls[c]++; W.total++; u64 i = W.armed_index++; bool f = W.should_fail && W.should_fail(c, i, path);
  if (W.logging) W.log.push_back(strf("%s %s%s", rc_name[c], desc ? desc : path ? path : "", f ? " [refused]" : ""));
  if (f) { W.failed++; errno = W.fail_errno[c] ? W.fail_errno[c] : c == RC_WRITE ? ENOSPC : c == RC_FOPEN || c == RC_OPEN || c == RC_MKTEMP ? EMFILE : ENOMEM; }
  return f;
}
static void map_remove(uintptr_t a, size_t n) {
  uintptr_t e = a + n; auto it = W.maps.lower_bound(a); if (it != W.maps.begin()) --it;
  while (it != W.maps.end() && it->first < e) {
    uintptr_t s = it->first, t = s + it->second.first; int pr = it->second.second; auto nx = std::next(it);
    if (t > a) { uintptr_t cs = s > a ? s : a, ce = t < e ? t : e; W.map_bytes -= ce - cs; W.maps.erase(it); if (s < a) W.maps[s] = { a - s, pr }; if (t > e) W.maps[e] = { t - e, pr }; }
    it = nx;
  }
}
static void map_add(uintptr_t a, size_t n, int prot) { map_remove(a, n); W.maps[a] = { n, prot }; W.map_bytes += n; }
extern "C" {
void *__real_mmap(void *, size_t, int, int, int, off_t); int __real_munmap(void *, size_t); int __real_mprotect(void *, size_t, int);
void *__real_malloc(size_t); void *__real_calloc(size_t, size_t); void *__real_realloc(void *, size_t); void __real_free(void *);
int __real_open(const char *, int, ...); int __real_memfd_create(const char *, unsigned); int __real_mkstemp(char *); int __real_mkostemp(char *, int);
ssize_t __real_write(int, const void *, size_t); int __real_ftruncate(int, off_t); int __real_close(int); FILE *__real_fopen(const char *, const char *); FILE *__real_setmntent(const char *, const char *);
void *__wrap_mmap(void *a, size_t n, int prot, int fl, int fd, off_t off) {
  if (!in_lib) return __real_mmap(a, n, prot, fl, fd, off);
  RClass c = (fl & MAP_ANONYMOUS) ? (prot & PROT_EXEC ? RC_MMAP_ANON_X : RC_MMAP_ANON) : (prot & PROT_EXEC ? RC_MMAP_FILE_X : RC_MMAP_FILE_W);
  bool wx = (prot & PROT_WRITE) && (prot & PROT_EXEC); if (wx) W.wxreq++;
  char d[100]; snprintf(d, sizeof d, "%zu prot=%d flags=%x", n, prot, fl);
  std::string fp = fl & MAP_ANONYMOUS ? "" : W.fdpath.count(fd) ? W.fdpath[fd] : "?";
  if (fails(c, fp.empty() ? 0 : fp.c_str(), d)) return MAP_FAILED;
  if (!(fl & MAP_ANONYMOUS) && (prot & PROT_WRITE)) {     // is there space behind the pages about to be mapped?
    off_t cur = lseek(fd, 0, SEEK_CUR), h = lseek(fd, off, SEEK_HOLE); struct stat st; fstat(fd, &st); if (h < 0 && st.st_size < off + (off_t)n) h = st.st_size; lseek(fd, cur, SEEK_SET);
    if (h >= 0 && h < off + (off_t)n) { W.unreserved++; W.unreserved_text = strf("file offset %ld+%zu, space up to %ld, file size %ld", (long)off, n, (long)h, (long)st.st_size); }
  }
  void *p = __real_mmap(a, n, prot, fl, fd, off);
  if (p != MAP_FAILED) { if (wx) W.wx++; map_add((uintptr_t)p, n, prot); if (!(fl & MAP_ANONYMOUS)) W.fmaps.push_back({ (uintptr_t)p, n, fd, off, (prot & PROT_EXEC) != 0 }); }
  return p;
}
int __wrap_munmap(void *a, size_t n) {
  if (in_lib) { uintptr_t b = (uintptr_t)a, e = b + ((n + 4095) & ~4095ul); while (b < e) { auto it = W.maps.upper_bound(b); if (it == W.maps.begin()) break; --it; if (it->first + it->second.first <= b) break; b = it->first + it->second.first; } if (b < e) W.foreign_unmaps++; }
  int r = __real_munmap(a, n); if (in_lib && !r) { W.munmaps++; map_remove((uintptr_t)a, (n + 4095) & ~4095ul); if (W.logging) W.log.push_back("munmap"); } return r; }
int __wrap_mprotect(void *a, size_t n, int prot) { if (in_lib) { W.mprotects++; if ((prot & PROT_WRITE) && (prot & PROT_EXEC)) W.wx++, W.wxreq++; map_add((uintptr_t)a, n, prot); } return __real_mprotect(a, n, prot); }
void *__wrap_malloc(size_t n) { if (!in_lib) return __real_malloc(n); if (fails(RC_MALLOC, 0, 0)) return 0; void *p = __real_malloc(n); if (p) { int l = in_lib; in_lib = 0; W.heap[p] = n; in_lib = l; W.heap_bytes += n; } return p; }
void *__wrap_calloc(size_t m, size_t n) { if (!in_lib) return __real_calloc(m, n); void *p = __wrap_malloc(m * n); if (p) memset(p, 0, m * n); return p; }
void *__wrap_realloc(void *o, size_t n) { if (!in_lib) return __real_realloc(o, n); if (fails(RC_MALLOC, 0, 0)) return 0; auto it = W.heap.find(o); if (it != W.heap.end()) { W.heap_bytes -= it->second; W.heap.erase(it); } void *p = __real_realloc(o, n); if (p) { W.heap[p] = n; W.heap_bytes += n; } return p; }
void __wrap_free(void *p) { if (in_lib && p) { W.frees++; auto it = W.heap.find(p); if (it != W.heap.end()) { W.heap_bytes -= it->second; W.heap.erase(it); } } __real_free(p); }
static int fd_new(int fd, const char *p) { if (fd >= 0) { int e = errno; W.fds.insert(fd); W.fdpath[fd] = p; errno = e; } return fd; }
static int mktemp_to(char *t, bool o, int f) { std::string asked = t, q = rpath(RC_MKTEMP, t); std::vector<char> b(q.begin(), q.end()); b.push_back(0); int fd = o ? __real_mkostemp(b.data(), f) : __real_mkstemp(b.data()); int e = errno; memcpy(t + asked.size() - 6, b.data() + q.size() - 6, 6); errno = e; return fd_new(fd, asked.c_str()); }
int __wrap_open(const char *p, int fl, ...) { va_list ap; va_start(ap, fl); int m = va_arg(ap, int); va_end(ap); if (!in_lib) return __real_open(p, fl, m); if (fails(RC_OPEN, p, 0)) return -1; return fd_new(__real_open(rpath(RC_OPEN, p).c_str(), fl, m), p); }
int __wrap_memfd_create(const char *n, unsigned f) { if (!in_lib) return __real_memfd_create(n, f); if (fails(RC_MEMFD, n, 0)) return -1; return fd_new(__real_memfd_create(n, f), "memfd"); }
int __wrap_mkstemp(char *t) { if (!in_lib) return __real_mkstemp(t); if (fails(RC_MKTEMP, t, 0)) return -1; return mktemp_to(t, false, 0); }
int __wrap_mkostemp(char *t, int f) { if (!in_lib) return __real_mkostemp(t, f); if (fails(RC_MKTEMP, t, 0)) return -1; return mktemp_to(t, true, f); }
ssize_t __wrap_write(int fd, const void *b, size_t n) { if (!in_lib) return __real_write(fd, b, n); std::string fp = W.fdpath.count(fd) ? W.fdpath[fd] : "?"; if (fails(RC_WRITE, fp.c_str(), 0)) { int e = errno; if ((W.armed_index & 1) && n > 1 && e == ENOSPC) return __real_write(fd, b, n / 2); return -1; } return __real_write(fd, b, n); }
int __wrap_ftruncate(int fd, off_t n) { if (!in_lib) return __real_ftruncate(fd, n); if (fails(RC_TRUNC, 0, 0)) return -1; return __real_ftruncate(fd, n); }
int __wrap_close(int fd) { if (in_lib) { W.fds.erase(fd); W.fdpath.erase(fd); } return __real_close(fd); }
FILE *__wrap_fopen(const char *p, const char *m) { if (!in_lib) return __real_fopen(p, m); if (fails(RC_FOPEN, p, 0)) return 0; return __real_fopen(p, m); }
FILE *__wrap_setmntent(const char *p, const char *m) { if (!in_lib) return __real_setmntent(p, m); if (fails(RC_FOPEN, p, 0)) return 0; return __real_setmntent(rpath(RC_FOPEN, p).c_str(), m); }
int __real_unlink(const char *); int __wrap_unlink(const char *p) { if (!in_lib) return __real_unlink(p); return __real_unlink(rpath(RC_MKTEMP, p).c_str()); }
int __real_access(const char *, int); int __wrap_access(const char *p, int m) { if (!in_lib) return __real_access(p, m); return __real_access(rpath(RC_OPEN, p).c_str(), m); }
}
#endif
