From 07431c5270536928b6792138562e76293a730b28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:51 +0000
Subject: [PATCH 01/51] fix: do not modify the caller's argument array in
 ffi_call

For structures passed in memory ffi_call stored the address of an
alloca'd copy in the caller's avalue array.  The pointer dangled after
the call, so reusing the same array for another call passed garbage.
The System V path copies such arguments to the stack anyway; the Win64
path now keeps its copies in a private array.
---
 src/x86/ffi64.c  | 18 ------------------
 src/x86/ffiw64.c |  8 +++++++-
 2 files changed, 7 insertions(+), 19 deletions(-)

diff --git a/src/x86/ffi64.c b/src/x86/ffi64.c
index 1d1b88e..e805998 100644
--- a/src/x86/ffi64.c
+++ b/src/x86/ffi64.c
@@ -685,24 +685,6 @@ ffi_call_efi64(ffi_cif *cif, void (*fn)(void), void *rvalue, void **avalue);
 void
 ffi_call (ffi_cif *cif, void (*fn)(void), void *rvalue, void **avalue)
 {
-  ffi_type **arg_types = cif->arg_types;
-  int i, nargs = cif->nargs;
-  const int max_reg_struct_size = cif->abi == FFI_GNUW64 ? 8 : 16;
-
-  /* If we have any large structure arguments, make a copy so we are passing
-     by value.  */
-  for (i = 0; i < nargs; i++)
-    {
-      ffi_type *at = arg_types[i];
-      int size = at->size;
-      if (at->type == FFI_TYPE_STRUCT && size > max_reg_struct_size)
-        {
-          char *argcopy = alloca (size);
-          memcpy (argcopy, avalue[i], size);
-          avalue[i] = argcopy;
-        }
-    }
-
 #ifndef __ILP32__
   if (cif->abi == FFI_EFI64 || cif->abi == FFI_GNUW64)
     {
diff --git a/src/x86/ffiw64.c b/src/x86/ffiw64.c
index 2be8b99..c906507 100644
--- a/src/x86/ffiw64.c
+++ b/src/x86/ffiw64.c
@@ -129,7 +129,13 @@ ffi_call_int (ffi_cif *cif, void (*fn)(void), void *rvalue,
   FFI_ASSERT(cif->abi == FFI_GNUW64 || cif->abi == FFI_WIN64);
 
   /* If we have any large structure arguments, make a copy so we are passing
-     by value.  */
+     by value.  The caller's argument array must not be modified.  */
+  if (nargs > 0)
+    {
+      void **avalue_copy = alloca (nargs * sizeof (void *));
+      memcpy (avalue_copy, avalue, nargs * sizeof (void *));
+      avalue = avalue_copy;
+    }
   for (i = 0; i < nargs; i++)
     {
       ffi_type *at = arg_types[i];
-- 
2.43.0


From a000d5e80f776cec0517b9e7d4ea0205c4437024 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:51 +0000
Subject: [PATCH 02/51] fix: copy every argument passed by reference in Win64
 calls

Structures of 3, 5, 6 or 7 bytes, complex values and long doubles were
passed as pointers to the caller's own values, so that a callee changing
its parameter changed the caller's data.
---
 src/x86/ffiw64.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/x86/ffiw64.c b/src/x86/ffiw64.c
index c906507..ab4f815 100644
--- a/src/x86/ffiw64.c
+++ b/src/x86/ffiw64.c
@@ -128,8 +128,9 @@ ffi_call_int (ffi_cif *cif, void (*fn)(void), void *rvalue,
 
   FFI_ASSERT(cif->abi == FFI_GNUW64 || cif->abi == FFI_WIN64);
 
-  /* If we have any large structure arguments, make a copy so we are passing
-     by value.  The caller's argument array must not be modified.  */
+  /* Arguments that do not fit an 8 byte slot are passed by reference.  The
+     callee owns what it is passed, so make a copy of each.  The caller's
+     argument array must not be modified.  */
   if (nargs > 0)
     {
       void **avalue_copy = alloca (nargs * sizeof (void *));
@@ -138,9 +139,8 @@ ffi_call_int (ffi_cif *cif, void (*fn)(void), void *rvalue,
     }
   for (i = 0; i < nargs; i++)
     {
-      ffi_type *at = arg_types[i];
-      int size = at->size;
-      if (at->type == FFI_TYPE_STRUCT && size > 8)
+      size_t size = arg_types[i]->size;
+      if (size != 1 && size != 2 && size != 4 && size != 8)
         {
           char *argcopy = alloca (size);
           memcpy (argcopy, avalue[i], size);
-- 
2.43.0


From c621bcc12dbb0f6cf1a4366a4e44ed38a6d09266 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:51 +0000
Subject: [PATCH 03/51] fix: return structures consisting of one long double in
 st(0)

A structure classified X87 was treated as if it were returned in rax and
rdx, both by ffi_call and by closures.
---
 src/x86/ffi64.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/x86/ffi64.c b/src/x86/ffi64.c
index e805998..e1a962e 100644
--- a/src/x86/ffi64.c
+++ b/src/x86/ffi64.c
@@ -475,6 +475,8 @@ ffi_prep_cif_machdep (ffi_cif *cif)
 
 	  if (rtype_size == 4 && sse0)
 	    flags = UNIX64_RET_XMM32;
+	  else if (classes[0] == X86_64_X87_CLASS)
+	    flags = UNIX64_RET_X87;
 	  else if (rtype_size == 8)
 	    flags = sse0 ? UNIX64_RET_XMM64 : UNIX64_RET_INT64;
 	  else
-- 
2.43.0


From 4d4f75c39a7ae6b5a72a3f090030e06937851c6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:51 +0000
Subject: [PATCH 04/51] fix: pop an unwanted long double result off the x87
 stack

With a null rvalue, long double and complex long double results were
left on the x87 register stack, which overflowed after a few calls.
---
 src/x86/ffi64.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/x86/ffi64.c b/src/x86/ffi64.c
index e1a962e..759d0fa 100644
--- a/src/x86/ffi64.c
+++ b/src/x86/ffi64.c
@@ -582,6 +582,10 @@ ffi_call_int (ffi_cif *cif, void (*fn)(void), void *rvalue,
     {
       if (flags & UNIX64_FLAG_RET_IN_MEM)
 	rvalue = alloca (cif->rtype->size);
+      else if ((flags & 0xff) == UNIX64_RET_X87
+	       || (flags & 0xff) == UNIX64_RET_X87_2)
+	/* The result must be popped off the x87 stack.  */
+	rvalue = alloca (cif->rtype->size);
       else
 	flags = UNIX64_RET_VOID;
     }
-- 
2.43.0


From ca1790fde523c152310fe930cee089db35774e3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:51 +0000
Subject: [PATCH 05/51] fix: hand raw closures their writable address as user
 data

The translation functions used the code address to find the closure.
That is not the closure's data when the code address is a static
trampoline, so invoking a raw closure crashed.
---
 src/java_raw_api.c | 2 +-
 src/raw_api.c      | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/java_raw_api.c b/src/java_raw_api.c
index 114d3e4..1c8f26b 100644
--- a/src/java_raw_api.c
+++ b/src/java_raw_api.c
@@ -345,7 +345,7 @@ ffi_prep_java_raw_closure_loc (ffi_java_raw_closure* cl,
   status = ffi_prep_closure_loc ((ffi_closure*) cl,
 				 cif,
 				 &ffi_java_translate_args,
-				 codeloc,
+				 cl,
 				 codeloc);
   if (status == FFI_OK)
     {
diff --git a/src/raw_api.c b/src/raw_api.c
index be15611..43cf975 100644
--- a/src/raw_api.c
+++ b/src/raw_api.c
@@ -233,7 +233,7 @@ ffi_prep_raw_closure_loc (ffi_raw_closure* cl,
   status = ffi_prep_closure_loc ((ffi_closure*) cl,
 				 cif,
 				 &ffi_translate_args,
-				 codeloc,
+				 cl,
 				 codeloc);
   if (status == FFI_OK)
     {
-- 
2.43.0


From 37083904988487619e677381eabddf813226660a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:30 +0000
Subject: [PATCH 06/51] fix: align the result buffer supplied for a null rvalue
 in Win64 calls

The buffer was placed right after the 40 byte call frame, which is only
8 byte aligned for an odd number of argument slots.  Callees returning a
16 byte aligned type fault when they store their result with an aligned
vector instruction.
---
 src/x86/ffiw64.c | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/x86/ffiw64.c b/src/x86/ffiw64.c
index ab4f815..1fc6afb 100644
--- a/src/x86/ffiw64.c
+++ b/src/x86/ffiw64.c
@@ -121,7 +121,6 @@ ffi_call_int (ffi_cif *cif, void (*fn)(void), void *rvalue,
 {
   int i, j, n, flags;
   UINT64 *stack;
-  size_t rsize;
   struct win64_call_frame *frame;
   ffi_type **arg_types = cif->arg_types;
   int nargs = cif->nargs;
@@ -149,22 +148,19 @@ ffi_call_int (ffi_cif *cif, void (*fn)(void), void *rvalue,
     }
 
   flags = cif->flags;
-  rsize = 0;
 
   /* If we have no return value for a structure, we need to create one.
      Otherwise we can ignore the return type entirely.  */
   if (rvalue == NULL)
     {
       if (flags == FFI_TYPE_STRUCT)
-	rsize = cif->rtype->size;
+	rvalue = alloca (cif->rtype->size);
       else
 	flags = FFI_TYPE_VOID;
     }
 
-  stack = alloca(cif->bytes + sizeof(struct win64_call_frame) + rsize);
+  stack = alloca(cif->bytes + sizeof(struct win64_call_frame));
   frame = (struct win64_call_frame *)((char *)stack + cif->bytes);
-  if (rsize)
-    rvalue = frame + 1;
 
   frame->fn = (uintptr_t)fn;
   frame->flags = flags;
-- 
2.43.0


From 108a3f3268b4e6ea6ab08a2674c7f52c52bfef51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:18 +0000
Subject: [PATCH 07/51] fix: open the trampoline file close-on-exec

---
 src/tramp.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/tramp.c b/src/tramp.c
index 8ec0848..17f7066 100644
--- a/src/tramp.c
+++ b/src/tramp.c
@@ -236,7 +236,11 @@ ffi_tramp_get_libffi (void)
   if (!found)
     return 0;
 
+#ifdef O_CLOEXEC
+  tramp_globals.fd = open (file, O_RDONLY | O_CLOEXEC);
+#else
   tramp_globals.fd = open (file, O_RDONLY);
+#endif
   if (tramp_globals.fd == -1)
     return 0;
 
-- 
2.43.0


From 0f4dad576e08531db4e4de897c1e3fc7248bcf63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:10 +0000
Subject: [PATCH 08/51] fix: initialize the closure heap under its lock

---
 src/dlmalloc.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/dlmalloc.c b/src/dlmalloc.c
index 17193a0..35da179 100644
--- a/src/dlmalloc.c
+++ b/src/dlmalloc.c
@@ -2209,7 +2209,7 @@ static int has_segment_link(mstate m, msegmentptr ss) {
 #if USE_LOCKS
 
 /* Ensure locks are initialized */
-#define GLOBALLY_INITIALIZE() (mparams.page_size == 0 && init_mparams())
+#define GLOBALLY_INITIALIZE() (init_mparams())
 
 #define PREACTION(M)  ((GLOBALLY_INITIALIZE() || use_lock(M))? ACQUIRE_LOCK(&(M)->mutex) : 0)
 #define POSTACTION(M) { if (use_lock(M)) RELEASE_LOCK(&(M)->mutex); }
@@ -2517,6 +2517,9 @@ static size_t traverse_and_check(mstate m);
 
 /* Initialize mparams */
 static int init_mparams(void) {
+  /* Hold the lock throughout, so that no thread sees mparams or the main
+     malloc state half initialized. */
+  ACQUIRE_MAGIC_INIT_LOCK();
   if (mparams.page_size == 0) {
     size_t s;
 
@@ -2550,14 +2553,12 @@ static int init_mparams(void) {
 #else /* (FOOTERS && !INSECURE) */
     s = (size_t)0x58585858U;
 #endif /* (FOOTERS && !INSECURE) */
-    ACQUIRE_MAGIC_INIT_LOCK();
     if (mparams.magic == 0) {
       mparams.magic = s;
       /* Set up lock for main malloc area */
       INITIAL_LOCK(&gm->mutex);
       gm->mflags = mparams.default_mflags;
     }
-    RELEASE_MAGIC_INIT_LOCK();
 
 #if !defined(WIN32) && !defined(__OS2__)
     mparams.page_size = malloc_getpagesize;
@@ -2593,6 +2594,7 @@ static int init_mparams(void) {
         ((mparams.page_size   & (mparams.page_size-SIZE_T_ONE))   != 0))
       ABORT;
   }
+  RELEASE_MAGIC_INIT_LOCK();
   return 0;
 }
 
-- 
2.43.0


From 6abaad3f1162ed0e659b0d81899116fde6762c73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:10 +0000
Subject: [PATCH 09/51] fix: look up closure heap segments with the heap's lock
 held

---
 src/closures.c | 36 ++++++++++++++++++++++++++++--------
 1 file changed, 28 insertions(+), 8 deletions(-)

diff --git a/src/closures.c b/src/closures.c
index 02cf78f..425a77f 100644
--- a/src/closures.c
+++ b/src/closures.c
@@ -984,6 +984,24 @@ segment_holding_code (mstate m, char* addr)
 
 #endif /* !(defined(_WIN32) || defined(__OS2__)) || defined (__CYGWIN__) || defined(__INTERIX) */
 
+/* If DATA lies in the closure heap, store the corresponding executable
+   address in *CODE and return 1; otherwise return 0.  Other threads may be
+   growing or shrinking the heap, so look at it only with its lock held.  */
+static int
+closure_exec_address (void *data, void **code)
+{
+  msegmentptr seg;
+
+  if (PREACTION (gm))
+    return 0;
+  seg = segment_holding (gm, data);
+  if (seg)
+    *code = add_segment_exec_offset (data, seg);
+  POSTACTION (gm);
+
+  return seg != NULL;
+}
+
 /* Allocate a chunk of memory with the given size.  Returns a pointer
    to the writable address, and sets *CODE to the executable
    corresponding virtual address.  */
@@ -999,9 +1017,10 @@ ffi_closure_alloc (size_t size, void **code)
 
   if (ptr)
     {
-      msegmentptr seg = segment_holding (gm, ptr);
+      void *exec = ptr;
 
-      *code = FFI_FN (add_segment_exec_offset (ptr, seg));
+      closure_exec_address (ptr, &exec);
+      *code = FFI_FN (exec);
       if (!ffi_tramp_is_supported ())
         return ptr;
 
@@ -1021,15 +1040,16 @@ ffi_closure_alloc (size_t size, void **code)
 void *
 ffi_data_to_code_pointer (void *data)
 {
-  msegmentptr seg = segment_holding (gm, data);
+  void *exec;
+
   /* We expect closures to be allocated with ffi_closure_alloc(), in
-     which case seg will be non-NULL.  However, some users take on the
+     which case they lie in our heap.  However, some users take on the
      burden of managing this memory themselves, in which case this
      we'll just return data. */
-  if (seg)
+  if (closure_exec_address (data, &exec))
     {
       if (!ffi_tramp_is_supported ())
-        return add_segment_exec_offset (data, seg);
+        return exec;
       return ffi_tramp_get_addr (((ffi_closure *) data)->ftramp);
     }
   else
@@ -1058,8 +1078,8 @@ ffi_closure_free (void *ptr)
 int
 ffi_tramp_is_present (void *ptr)
 {
-  msegmentptr seg = segment_holding (gm, ptr);
-  return seg != NULL && ffi_tramp_is_supported();
+  void *exec;
+  return closure_exec_address (ptr, &exec) && ffi_tramp_is_supported();
 }
 
 # else /* ! FFI_MMAP_EXEC_WRIT */
-- 
2.43.0


From a2b51e80f950683f96e7732ed451d25344c89822 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:39 +0000
Subject: [PATCH 10/51] fix: search on when there is no space in a file for
 executable memory

---
 src/closures.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/closures.c b/src/closures.c
index 425a77f..3ff7c27 100644
--- a/src/closures.c
+++ b/src/closures.c
@@ -839,7 +839,14 @@ dlmmap_locked (void *start, size_t length, int prot, int flags, off_t offset)
   offset = execsize;
 
   if (allocate_space (execfd, length))
-    return MFAIL;
+    {
+      if (!offset)
+	{
+	  close (execfd);
+	  goto retry_open;
+	}
+      return MFAIL;
+    }
 
   flags &= ~(MAP_PRIVATE | MAP_ANONYMOUS);
   flags |= MAP_SHARED;
-- 
2.43.0


From cc5c597ee9304dc8728d1bcf9fddb0c3ebf000b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:39 +0000
Subject: [PATCH 11/51] fix: allocate space for executable memory where it is
 mapped

---
 src/closures.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/closures.c b/src/closures.c
index 3ff7c27..8e59000 100644
--- a/src/closures.c
+++ b/src/closures.c
@@ -838,7 +838,10 @@ dlmmap_locked (void *start, size_t length, int prot, int flags, off_t offset)
 
   offset = execsize;
 
-  if (allocate_space (execfd, length))
+  /* The file position is elsewhere if an earlier attempt failed after
+     writing, and a part left out would have no space allocated.  */
+  if (lseek (execfd, offset, SEEK_SET) != offset
+      || allocate_space (execfd, length))
     {
       if (!offset)
 	{
-- 
2.43.0


From a828b9683dd9f79662ab14a8e7c7199f38acc0a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:10 +0000
Subject: [PATCH 12/51] fix: do not map trampolines from a file that is not the
 loaded libffi

---
 src/tramp.c | 30 ++++++++++++++++++++++++++++--
 1 file changed, 28 insertions(+), 2 deletions(-)

diff --git a/src/tramp.c b/src/tramp.c
index 17f7066..02a046c 100644
--- a/src/tramp.c
+++ b/src/tramp.c
@@ -47,6 +47,7 @@
 #include <unistd.h>
 #include <stdlib.h>
 #include <stdint.h>
+#include <string.h>
 #include <fcntl.h>
 #include <pthread.h>
 #include <sys/mman.h>
@@ -201,6 +202,31 @@ static int tramp_table_alloc (void);
 
 #if defined (__linux__) || defined (__CYGWIN__)
 
+/*
+ * Check that the trampoline file contains the trampoline code table. The file
+ * found under the name of the libffi binary is a different one if the binary
+ * was replaced after it was loaded.
+ */
+static int
+ffi_tramp_check_file (void)
+{
+  char buf[512];
+  size_t pos, n;
+
+  for (pos = 0; pos < tramp_globals.map_size; pos += n)
+    {
+      n = tramp_globals.map_size - pos;
+      if (n > sizeof (buf))
+	n = sizeof (buf);
+      if (pread (tramp_globals.fd, buf, n, tramp_globals.offset + pos)
+	  != (ssize_t) n)
+	return 0;
+      if (memcmp (buf, (char *) tramp_globals.text + pos, n) != 0)
+	return 0;
+    }
+  return 1;
+}
+
 static int
 ffi_tramp_get_libffi (void)
 {
@@ -220,7 +246,7 @@ ffi_tramp_get_libffi (void)
     if (fgets (line, sizeof (line), fp) == 0)
       break;
 
-    nfields = sscanf (line, "%lx-%lx %9s %lx %9s %ld %s",
+    nfields = sscanf (line, "%lx-%lx %9s %lx %9s %ld %[^\n]",
       &start, &end, perm, &offset, dev, &inode, file);
     if (nfields != 7)
       continue;
@@ -248,7 +274,7 @@ ffi_tramp_get_libffi (void)
    * Allocate a trampoline table just to make sure that the trampoline code
    * table can be mapped.
    */
-  if (!tramp_table_alloc ())
+  if (!ffi_tramp_check_file () || !tramp_table_alloc ())
     {
       close (tramp_globals.fd);
       tramp_globals.fd = -1;
-- 
2.43.0


From 74f9079c195e16a8d1ed354da19bf2a6585236e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:21 +0000
Subject: [PATCH 13/51] fix: open temporary files for executable memory
 close-on-exec

---
 src/closures.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/closures.c b/src/closures.c
index 8e59000..eeda2f3 100644
--- a/src/closures.c
+++ b/src/closures.c
@@ -607,6 +607,10 @@ open_temp_exec_file_name (char *name, int flags MAYBE_UNUSED)
   fd = mkostemp (name, flags);
 #else
   fd = mkstemp (name);
+#ifdef FD_CLOEXEC
+  if (fd != -1)
+    fcntl (fd, F_SETFD, FD_CLOEXEC);
+#endif
 #endif
 
   if (fd != -1)
-- 
2.43.0


From 30e8a19b8d70630bca3b7bbf59d54c5934ba039d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:38 +0000
Subject: [PATCH 14/51] fix: leave a structure type incomplete when its layout
 fails

A nonzero size marks a completed type, so the second preparation with
an ill-formed type succeeded, and a type corrected after the failure kept
the partial size.
---
 src/prep_cif.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/prep_cif.c b/src/prep_cif.c
index 47c9259..ff869e7 100644
--- a/src/prep_cif.c
+++ b/src/prep_cif.c
@@ -54,7 +54,11 @@ static ffi_status initialize_aggregate(ffi_type *arg, size_t *offsets)
     {
       if (UNLIKELY(((*ptr)->size == 0)
 		    && (initialize_aggregate((*ptr), NULL) != FFI_OK)))
-	return FFI_BAD_TYPEDEF;
+	{
+	  /* A nonzero size marks a completed type.  */
+	  arg->size = 0;
+	  return FFI_BAD_TYPEDEF;
+	}
 
       /* Perform a sanity check on the argument type */
       FFI_ASSERT_VALID_TYPE(*ptr);
-- 
2.43.0


From e31791c5ff6c6d9fe76c9fc3821d332b48802588 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:12 +0000
Subject: [PATCH 15/51] fix: i386: pass complex arguments of up to four bytes

They were taken for integers of unknown type, and aborted the program.
---
 src/x86/ffi.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/x86/ffi.c b/src/x86/ffi.c
index 6862533..6973973 100644
--- a/src/x86/ffi.c
+++ b/src/x86/ffi.c
@@ -348,7 +348,7 @@ ffi_call_int (ffi_cif *cif, void (*fn)(void), void *rvalue,
       size_t z = ty->size;
       int t = ty->type;
 
-      if (z <= FFI_SIZEOF_ARG && t != FFI_TYPE_STRUCT)
+      if (z <= FFI_SIZEOF_ARG && t != FFI_TYPE_STRUCT && t != FFI_TYPE_COMPLEX)
         {
 	  ffi_arg val = extend_basic_type (valp, t);
 
@@ -495,7 +495,7 @@ ffi_closure_inner (struct closure_frame *frame, char *stack)
       int t = ty->type;
       void *valp;
 
-      if (z <= FFI_SIZEOF_ARG && t != FFI_TYPE_STRUCT)
+      if (z <= FFI_SIZEOF_ARG && t != FFI_TYPE_STRUCT && t != FFI_TYPE_COMPLEX)
 	{
 	  if (t != FFI_TYPE_FLOAT && narg_reg < pabi->nregs)
 	    valp = &frame->regs[pabi->regs[narg_reg++]];
-- 
2.43.0


From 5b5751d6f5f8b53c5bd4a6ec1fa48ccd93e085a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:12 +0000
Subject: [PATCH 16/51] fix: i386: pop all stack arguments in thiscall and
 fastcall closures

A 64-bit integer or structure argument uses up argument registers without
being passed in them, and was counted as if it had been: the closure popped
too few bytes.
---
 src/x86/ffi.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/x86/ffi.c b/src/x86/ffi.c
index 6973973..54c581a 100644
--- a/src/x86/ffi.c
+++ b/src/x86/ffi.c
@@ -554,8 +554,8 @@ ffi_closure_inner (struct closure_frame *frame, char *stack)
       return flags | (cif->bytes << X86_RET_POP_SHIFT);
     case FFI_THISCALL:
     case FFI_FASTCALL:
-      return flags | ((cif->bytes - (narg_reg * FFI_SIZEOF_ARG))
-          << X86_RET_POP_SHIFT);
+      /* Pop exactly what was taken from the stack.  */
+      return flags | ((argp - stack) << X86_RET_POP_SHIFT);
     default:
       return flags;
     }
-- 
2.43.0


From 342904ff0e10a93d3047a4b4d546a764fe1d31e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:12 +0000
Subject: [PATCH 17/51] fix: i386: pop the arguments of thiscall and fastcall
 Go closures

---
 src/x86/sysv.S | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/x86/sysv.S b/src/x86/sysv.S
index c7a0fb5..b44212e 100644
--- a/src/x86/sysv.S
+++ b/src/x86/sysv.S
@@ -307,7 +307,7 @@ L(UW7):
 	movl	%edx, closure_CF+28(%esp)
 	movl	%ecx, closure_CF+32(%esp)
 	movl	%eax, closure_CF+36(%esp)	/* closure is user_data */
-	jmp	L(do_closure_i386)
+	jmp	L(do_closure_STDCALL)
 L(UW8):
 	# cfi_endproc
 ENDF(C(ffi_go_closure_EAX))
-- 
2.43.0


From 68bb0d9689044ac6aad73b8c09e07ab377690410 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:12 +0000
Subject: [PATCH 18/51] fix: i386: count the registers that fastcall structures
 use up

A structure of up to four bytes uses up one register, not all of them, and
one with a single floating-point member none.
---
 src/x86/ffi.c | 44 ++++++++++++++++++++++++++++----------------
 1 file changed, 28 insertions(+), 16 deletions(-)

diff --git a/src/x86/ffi.c b/src/x86/ffi.c
index 54c581a..4445f98 100644
--- a/src/x86/ffi.c
+++ b/src/x86/ffi.c
@@ -222,6 +222,30 @@ extend_basic_type(void *arg, int type)
     }
 }
 
+/* Issue 434: For thiscall and fastcall, a parameter passed as 64-bit integer
+   or struct is passed on the stack, but uses up as many registers as it has
+   words.  A struct with a single member that is not an integer does not.  */
+static int
+skipped_regs (const ffi_type *ty)
+{
+  int words = FFI_ALIGN (ty->size, FFI_SIZEOF_ARG) / FFI_SIZEOF_ARG;
+
+  while (ty->type == FFI_TYPE_STRUCT
+	 && ty->elements[0] != NULL && ty->elements[1] == NULL)
+    ty = ty->elements[0];
+
+  switch (ty->type)
+    {
+    case FFI_TYPE_FLOAT:
+    case FFI_TYPE_DOUBLE:
+    case FFI_TYPE_LONGDOUBLE:
+    case FFI_TYPE_COMPLEX:
+      return 0;
+    default:
+      return words;
+    }
+}
+
 struct call_frame
 {
   void *ebp;		/* 0 */
@@ -370,14 +394,8 @@ ffi_call_int (ffi_cif *cif, void (*fn)(void), void *rvalue,
 	  size_t za = FFI_ALIGN (z, FFI_SIZEOF_ARG);
 	  size_t align = FFI_SIZEOF_ARG;
 
-	  /* Issue 434: For thiscall and fastcall, if the paramter passed
-	     as 64-bit integer or struct, all following integer parameters
-	     will be passed on stack.  */
-	  if ((cabi == FFI_THISCALL || cabi == FFI_FASTCALL)
-	      && (t == FFI_TYPE_SINT64
-		  || t == FFI_TYPE_UINT64
-		  || t == FFI_TYPE_STRUCT))
-	    narg_reg = 2;
+	  if (cabi == FFI_THISCALL || cabi == FFI_FASTCALL)
+	    narg_reg += skipped_regs (ty);
 
 	  /* Alignment rules for arguments are quite complex.  Vectors and
 	     structures with 16 byte alignment get it.  Note that long double
@@ -519,14 +537,8 @@ ffi_closure_inner (struct closure_frame *frame, char *stack)
 	  if (t == FFI_TYPE_STRUCT && ty->alignment >= 16)
 	    align = 16;
 
-	  /* Issue 434: For thiscall and fastcall, if the paramter passed
-	     as 64-bit integer or struct, all following integer parameters
-	     will be passed on stack.  */
-	  if ((cabi == FFI_THISCALL || cabi == FFI_FASTCALL)
-	      && (t == FFI_TYPE_SINT64
-		  || t == FFI_TYPE_UINT64
-		  || t == FFI_TYPE_STRUCT))
-	    narg_reg = 2;
+	  if (cabi == FFI_THISCALL || cabi == FFI_FASTCALL)
+	    narg_reg += skipped_regs (ty);
 
 	  if (dir < 0)
 	    {
-- 
2.43.0


From 69420eeda4a3ed9c314eb95eac720216e1502f15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:13 +0000
Subject: [PATCH 19/51] fix: i386: ffi_raw_call read past and misplaced raw
 arguments

With register arguments, the raw argument pointer moved four times too far;
the padding of the stack area was copied from behind the raw arguments; a
result address passed in a register was counted among them; the registers that
64-bit integers use up were ignored; and the stack was not aligned.
---
 src/x86/ffi.c | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/x86/ffi.c b/src/x86/ffi.c
index 4445f98..d1f0155 100644
--- a/src/x86/ffi.c
+++ b/src/x86/ffi.c
@@ -775,8 +775,9 @@ ffi_raw_call(ffi_cif *cif, void (*fn)(void), void *rvalue, ffi_raw *avalue)
 
   bytes = STACK_ALIGN (cif->bytes);
   argp = stack =
-      (void *)((uintptr_t)alloca(bytes + sizeof(*frame) + rsize + 15) & ~16);
+      (void *)(((uintptr_t)alloca(bytes + sizeof(*frame) + rsize + 15) + 15) & ~15);
   frame = (struct call_frame *)(stack + bytes);
+  bytes = cif->bytes;
   if (rsize)
     rvalue = frame + 1;
 
@@ -793,6 +794,7 @@ ffi_raw_call(ffi_cif *cif, void (*fn)(void), void *rvalue, ffi_raw *avalue)
 	{
 	  frame->regs[pabi->regs[0]] = (unsigned)rvalue;
 	  narg_reg = 1;
+	  bytes -= sizeof(void *);
 	  break;
 	}
       /* fallthru */
@@ -818,11 +820,16 @@ ffi_raw_call(ffi_cif *cif, void (*fn)(void), void *rvalue, ffi_raw *avalue)
 	}
       else
 	{
+	  size_t za = FFI_ALIGN (z, FFI_SIZEOF_ARG);
+
+	  if (cabi == FFI_THISCALL || cabi == FFI_FASTCALL)
+	    narg_reg += skipped_regs (ty);
+
 	  memcpy (argp, avalue, z);
-	  z = FFI_ALIGN (z, FFI_SIZEOF_ARG);
+	  z = za;
 	  argp += z;
 	}
-      avalue += z;
+      avalue += z / FFI_SIZEOF_ARG;
       bytes -= z;
     }
   if (i < n)
-- 
2.43.0


From 038b59c5b333972b98563bb8ff76957fd0633098 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:13 +0000
Subject: [PATCH 20/51] fix: i386: raw closures with static trampolines

The parameters of the static trampoline were never set, so that calling the
closure jumped to a null pointer.
---
 src/x86/ffi.c  | 20 ++++++++++++++++++++
 src/x86/sysv.S | 24 ++++++++++++++++++++++++
 2 files changed, 44 insertions(+)

diff --git a/src/x86/ffi.c b/src/x86/ffi.c
index d1f0155..d184b2e 100644
--- a/src/x86/ffi.c
+++ b/src/x86/ffi.c
@@ -687,6 +687,10 @@ ffi_prep_go_closure (ffi_go_closure* closure, ffi_cif* cif,
 
 void FFI_HIDDEN ffi_closure_raw_SYSV(void);
 void FFI_HIDDEN ffi_closure_raw_THISCALL(void);
+#if defined(FFI_EXEC_STATIC_TRAMP)
+void FFI_HIDDEN ffi_closure_raw_SYSV_alt(void);
+void FFI_HIDDEN ffi_closure_raw_THISCALL_alt(void);
+#endif
 
 ffi_status
 ffi_prep_raw_closure_loc (ffi_raw_closure *closure,
@@ -723,6 +727,19 @@ ffi_prep_raw_closure_loc (ffi_raw_closure *closure,
       return FFI_BAD_ABI;
     }
 
+#if defined(FFI_EXEC_STATIC_TRAMP)
+  if (ffi_tramp_is_present(closure))
+    {
+      /* Initialize the static trampoline's parameters. */
+      if (dest == ffi_closure_raw_SYSV)
+        dest = ffi_closure_raw_SYSV_alt;
+      else
+        dest = ffi_closure_raw_THISCALL_alt;
+      ffi_tramp_set_parms (((ffi_closure *)closure)->ftramp, dest, closure);
+      goto out;
+    }
+#endif
+
   /* movl imm, %eax.  */
   tramp[0] = 0xb8;
   *(void **)(tramp + 1) = codeloc;
@@ -731,6 +748,9 @@ ffi_prep_raw_closure_loc (ffi_raw_closure *closure,
   tramp[5] = 0xe9;
   *(unsigned *)(tramp + 6) = (unsigned)dest - ((unsigned)codeloc + 10);
 
+#if defined(FFI_EXEC_STATIC_TRAMP)
+out:
+#endif
   closure->cif = cif;
   closure->fun = fun;
   closure->user_data = user_data;
diff --git a/src/x86/sysv.S b/src/x86/sysv.S
index b44212e..a4a73ee 100644
--- a/src/x86/sysv.S
+++ b/src/x86/sysv.S
@@ -885,6 +885,30 @@ L(UW52):
 	# cfi_endproc
 ENDF(C(ffi_closure_raw_THISCALL))
 
+#if defined(FFI_EXEC_STATIC_TRAMP)
+	.balign	16
+	.globl	C(ffi_closure_raw_SYSV_alt)
+	FFI_HIDDEN(C(ffi_closure_raw_SYSV_alt))
+C(ffi_closure_raw_SYSV_alt):
+	/* See the comments above trampoline_code_table. */
+	_CET_ENDBR
+	movl	4(%esp), %eax			/* Load closure in eax */
+	add	$8, %esp			/* Restore the stack */
+	jmp	C(ffi_closure_raw_SYSV)
+ENDF(C(ffi_closure_raw_SYSV_alt))
+
+	.balign	16
+	.globl	C(ffi_closure_raw_THISCALL_alt)
+	FFI_HIDDEN(C(ffi_closure_raw_THISCALL_alt))
+C(ffi_closure_raw_THISCALL_alt):
+	/* See the comments above trampoline_code_table. */
+	_CET_ENDBR
+	movl	4(%esp), %eax			/* Load closure in eax */
+	add	$8, %esp			/* Restore the stack */
+	jmp	C(ffi_closure_raw_THISCALL)
+ENDF(C(ffi_closure_raw_THISCALL_alt))
+#endif /* FFI_EXEC_STATIC_TRAMP */
+
 #endif /* !FFI_NO_RAW_API */
 
 #ifdef X86_DARWIN
-- 
2.43.0


From 02275e7a798316557f553ac31c8f423331b61f7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:13 +0000
Subject: [PATCH 21/51] fix: i386: raw closures that return structures

The result went to a small area on the stack instead of the caller's memory,
and the hidden argument was handed over as the first raw argument.
---
 src/x86/sysv.S | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/x86/sysv.S b/src/x86/sysv.S
index a4a73ee..34651a5 100644
--- a/src/x86/sysv.S
+++ b/src/x86/sysv.S
@@ -687,6 +687,16 @@ L(UW34):
 	movl	%edx, 4(%esp)
 	movl	FFI_TRAMPOLINE_SIZE(%eax), %ebx		/* load cl->cif */
 	movl	%ebx, (%esp)
+
+	movl	20(%ebx), %edx				/* load cif->flags */
+	andl	$X86_RET_TYPE_MASK, %edx
+	cmpl	$X86_RET_STRUCTPOP, %edx
+	jne	1f
+	movl	raw_closure_S_FS+4(%esp), %edx		/* load struct address */
+	movl	%edx, 4(%esp)				/* store there ... */
+	movl	%edx, 16(%esp)				/* ... and return it */
+	addl	$4, 8(%esp)				/* raw_args follow it */
+1:
 	call	*FFI_TRAMPOLINE_SIZE+4(%eax)		/* call cl->fun */
 
 	movl	20(%ebx), %eax				/* load cif->flags */
-- 
2.43.0


From 5c3a8644be42d578e5d7755c4fb37e2d06a8b427 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:00 +0000
Subject: [PATCH 22/51] fix: closures took padding of over-aligned structures
 for an argument register

An eightbyte that consists of padding only has no class and is not passed;
ffi_call already leaves it out.  Such a structure is also given to the handler
with its alignment.
---
 src/x86/ffi64.c | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/x86/ffi64.c b/src/x86/ffi64.c
index 759d0fa..e86e121 100644
--- a/src/x86/ffi64.c
+++ b/src/x86/ffi64.c
@@ -853,9 +853,7 @@ ffi_closure_unix64_inner(ffi_cif *cif,
 	}
       /* If the argument is in a single register, or two consecutive
 	 integer registers, then we can use that address directly.  */
-      else if (n == 1
-	       || (n == 2 && !(SSE_CLASS_P (classes[0])
-			       || SSE_CLASS_P (classes[1]))))
+      else if (n == 1 || (ngpr == 2 && arg_types[i]->alignment <= 8))
 	{
 	  /* The argument is in a single register.  */
 	  if (SSE_CLASS_P (classes[0]))
@@ -866,7 +864,7 @@ ffi_closure_unix64_inner(ffi_cif *cif,
 	  else
 	    {
 	      avalue[i] = &reg_args->gpr[gprcount];
-	      gprcount += n;
+	      gprcount += ngpr;
 	    }
 	}
       /* Otherwise, allocate space to make them consecutive.  */
@@ -880,7 +878,8 @@ ffi_closure_unix64_inner(ffi_cif *cif,
 	    {
 	      if (SSE_CLASS_P (classes[j]))
 		memcpy (a, &reg_args->sse[ssecount++], 8);
-	      else
+	      /* Padding takes no register.  */
+	      else if (classes[j] != X86_64_NO_CLASS)
 		memcpy (a, &reg_args->gpr[gprcount++], 8);
 	    }
 	}
-- 
2.43.0


From 38c26b95e3c0e2019f73bb94e33449d0b3739af2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:39 +0000
Subject: [PATCH 23/51] fix: i386: untracked dispatch jumps in the raw closure
 entry points

With -fcf-protection the dispatch jumps of ffi_closure_raw_SYSV and
ffi_closure_raw_THISCALL reach table entries that are no landing pads.
---
 src/x86/sysv.S | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/x86/sysv.S b/src/x86/sysv.S
index 34651a5..956bab6 100644
--- a/src/x86/sysv.S
+++ b/src/x86/sysv.S
@@ -712,7 +712,7 @@ L(pc4):
 L(UW35):
 	# cfi_restore(%ebx)
 	movl	16(%esp), %eax				/* Optimistic load */
-	jmp	*%ecx
+	_CET_NOTRACK jmp *%ecx
 
 	.balign	8
 L(load_table4):
@@ -829,7 +829,7 @@ L(pc5):
 L(UW47):
 	# cfi_restore(%ebx)
 	movl	16(%esp), %eax				/* Optimistic load */
-	jmp	*%ecx
+	_CET_NOTRACK jmp *%ecx
 
 	.balign	8
 L(load_table5):
-- 
2.43.0


From 7e9c9993b811854e6b167b73cf7900012d9a7874 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:39 +0000
Subject: [PATCH 24/51] fix: i386: dynamic raw closures start with endbr32

They are called indirectly, like the other closures, whose trampolines
already start with the landing pad.
---
 src/x86/ffi.c | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/x86/ffi.c b/src/x86/ffi.c
index d184b2e..5ef7c82 100644
--- a/src/x86/ffi.c
+++ b/src/x86/ffi.c
@@ -740,13 +740,16 @@ ffi_prep_raw_closure_loc (ffi_raw_closure *closure,
     }
 #endif
 
+  /* endbr32.  */
+  *(UINT32 *) tramp = 0xfb1e0ff3;
+
   /* movl imm, %eax.  */
-  tramp[0] = 0xb8;
-  *(void **)(tramp + 1) = codeloc;
+  tramp[4] = 0xb8;
+  *(void **)(tramp + 5) = codeloc;
 
   /* jmp dest */
-  tramp[5] = 0xe9;
-  *(unsigned *)(tramp + 6) = (unsigned)dest - ((unsigned)codeloc + 10);
+  tramp[9] = 0xe9;
+  *(unsigned *)(tramp + 10) = (unsigned)dest - ((unsigned)codeloc + 14);
 
 #if defined(FFI_EXEC_STATIC_TRAMP)
 out:
-- 
2.43.0


From 26d26c6b835c76dd6ec2699115dce5bd1709a32f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:47 +0000
Subject: [PATCH 25/51] fix: riscv floats keep their representation also when
 compiled with clang

---
 src/riscv/ffi.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/riscv/ffi.c b/src/riscv/ffi.c
index b455b12..bca8571 100644
--- a/src/riscv/ffi.c
+++ b/src/riscv/ffi.c
@@ -36,9 +36,13 @@
 #if __riscv_float_abi_double
 #define ABI_FLEN 64
 #define ABI_FLOAT double
+#define FLARG "fld"
+#define FSARG "fsd"
 #elif __riscv_float_abi_single
 #define ABI_FLEN 32
 #define ABI_FLOAT float
+#define FLARG "flw"
+#define FSARG "fsw"
 #endif
 
 #define NARGREG 8
@@ -147,11 +151,11 @@ static void marshal_atom(call_builder *cb, int type, void *data) {
         case FFI_TYPE_POINTER: value = *(size_t *)data; break;
 
         /* float values may be recoded in an implementation-defined way
-           by hardware conforming to 2.1 or earlier, so use asm to
-           reinterpret floats as doubles */
+           by hardware conforming to 2.1 or earlier, so let it store
+           (and load) the whole register */
 #if ABI_FLEN >= 32
         case FFI_TYPE_FLOAT:
-            asm("" : "=f"(cb->aregs->fa[cb->used_float++]) : "0"(*(float *)data));
+            asm(FSARG " %1, %0" : "=m"(cb->aregs->fa[cb->used_float++]) : "f"(*(float *)data));
             return;
 #endif
 #if ABI_FLEN >= 64
@@ -174,7 +178,7 @@ static void unmarshal_atom(call_builder *cb, int type, void *data) {
     switch (type) {
 #if ABI_FLEN >= 32
         case FFI_TYPE_FLOAT:
-            asm("" : "=f"(*(float *)data) : "0"(cb->aregs->fa[cb->used_float++]));
+            asm(FLARG " %0, %1" : "=f"(*(float *)data) : "m"(cb->aregs->fa[cb->used_float++]));
             return;
 #endif
 #if ABI_FLEN >= 64
-- 
2.43.0


From ea46008d4380933d07002330a2a16ff450f81149 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:47 +0000
Subject: [PATCH 26/51] fix: riscv calls of void functions leave the result
 alone

---
 src/riscv/ffi.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/riscv/ffi.c b/src/riscv/ffi.c
index bca8571..1e5979f 100644
--- a/src/riscv/ffi.c
+++ b/src/riscv/ffi.c
@@ -382,7 +382,7 @@ ffi_call_int (ffi_cif *cif, void (*fn) (void), void *rvalue, void **avalue,
     ffi_call_asm ((void *) alloc_base, cb.aregs, fn, closure);
 
     cb.used_float = cb.used_integer = 0;
-    if (!return_by_ref && rvalue)
+    if (!return_by_ref && rvalue && cif->rtype->type != FFI_TYPE_VOID)
       {
 	if (IS_INT(cif->rtype->type)
 	    && cif->rtype->size < sizeof (ffi_arg))
-- 
2.43.0


From 2794fc2b82bb09642a8d30f6280732d68ffb03ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:17 +0000
Subject: [PATCH 27/51] fix: riscv64 ffi_call zero-extends results of type
 uint32

---
 src/riscv/ffi.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/riscv/ffi.c b/src/riscv/ffi.c
index 1e5979f..b9b52b7 100644
--- a/src/riscv/ffi.c
+++ b/src/riscv/ffi.c
@@ -399,11 +399,14 @@ ffi_call_int (ffi_cif *cif, void (*fn) (void), void *rvalue, void **avalue,
 		break;
 	      case FFI_TYPE_UINT8:
 	      case FFI_TYPE_UINT16:
-	      case FFI_TYPE_UINT32:
 		unmarshal_atom (&cb, (sizeof (ffi_arg) > 4
 				      ? FFI_TYPE_UINT64 : FFI_TYPE_UINT32),
 				rvalue);
 		break;
+	      case FFI_TYPE_UINT32:
+		/* In registers, 32-bit quantities are sign-extended.  */
+		*(ffi_arg *) rvalue = (uint32_t) cb.aregs->a[cb.used_integer];
+		break;
 	      }
 	  }
 	else
-- 
2.43.0


From 18a6808b726bfd2b8816b99b4b59c1e2c390c2dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:55 +0000
Subject: [PATCH 28/51] fix: riscv structures of one float go to memory when no
 register is left

---
 src/riscv/ffi.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/riscv/ffi.c b/src/riscv/ffi.c
index b9b52b7..65f74ee 100644
--- a/src/riscv/ffi.c
+++ b/src/riscv/ffi.c
@@ -109,7 +109,7 @@ static float_struct_info struct_passed_as_elements(call_builder *cb, ffi_type *t
     int num_fields = flatten_struct(top, fields, fields + 3) - fields;
 
     if (num_fields == 1) {
-        if (IS_FLOAT(fields[0]->type)) {
+        if (IS_FLOAT(fields[0]->type) && cb->used_float < NARGREG) {
             ret.as_elements = 1;
             ret.type1 = fields[0]->type;
         }
-- 
2.43.0


From c38ebcc5ea15626a7b52f5783b536e3bc3af1f2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:40 +0000
Subject: [PATCH 29/51] fix: riscv calls without a return address do not write
 to deallocated stack

---
 src/riscv/ffi.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/riscv/ffi.c b/src/riscv/ffi.c
index 65f74ee..823e94b 100644
--- a/src/riscv/ffi.c
+++ b/src/riscv/ffi.c
@@ -382,7 +382,10 @@ ffi_call_int (ffi_cif *cif, void (*fn) (void), void *rvalue, void **avalue,
     ffi_call_asm ((void *) alloc_base, cb.aregs, fn, closure);
 
     cb.used_float = cb.used_integer = 0;
-    if (!return_by_ref && rvalue && cif->rtype->type != FFI_TYPE_VOID)
+    /* A return value of our own is only there to be passed by reference;
+       by now it has been deallocated.  */
+    if (!return_by_ref && rvalue && !rval_bytes
+	&& cif->rtype->type != FFI_TYPE_VOID)
       {
 	if (IS_INT(cif->rtype->type)
 	    && cif->rtype->size < sizeof (ffi_arg))
-- 
2.43.0


From 12a3016cb4c00296dd488e127bc8ce261ba91013 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:16 +0000
Subject: [PATCH 30/51] fix: aarch64 pointers to large structures are not
 aligned like the structures

---
 src/aarch64/ffi.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/aarch64/ffi.c b/src/aarch64/ffi.c
index 94c643b..6d0e981 100644
--- a/src/aarch64/ffi.c
+++ b/src/aarch64/ffi.c
@@ -727,7 +727,7 @@ ffi_call_int (ffi_cif *cif, void (*fn)(void), void *orig_rvalue,
 	      context->x[state.ngrn++] = ext;
 	    else
 	      {
-		void *d = allocate_to_stack (&state, stack, ty->alignment, s);
+		void *d = allocate_to_stack (&state, stack, s, s);
 		state.ngrn = N_X_ARG_REG;
 		/* Note that the default abi extends each argument
 		   to a full 64-bit slot, while the iOS abi allocates
-- 
2.43.0


From 4e2b9858345ad57dfb91116c57401686007a7377 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:18 +0000
Subject: [PATCH 31/51] fix: aarch64 stacked pointers to large structures do
 not overlap the copies

---
 src/aarch64/ffi.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/aarch64/ffi.c b/src/aarch64/ffi.c
index 6d0e981..8fcff37 100644
--- a/src/aarch64/ffi.c
+++ b/src/aarch64/ffi.c
@@ -605,10 +605,11 @@ ffi_prep_cif_machdep (ffi_cif *cif)
 
   for (i = 0, n = cif->nargs; i < n; i++)
     if (is_vfp_type (cif->arg_types[i]))
-      {
-	flags |= AARCH64_FLAG_ARG_V;
-	break;
-      }
+      flags |= AARCH64_FLAG_ARG_V;
+    else if (cif->arg_types[i]->size > 16)
+      /* Passed by reference: the pointer needs a stack slot of its own,
+	 in addition to the room for the copy.  */
+      bytes += 8;
 
   /* Round the stack up to a multiple of the stack alignment requirement. */
   cif->bytes = (unsigned) FFI_ALIGN(bytes, 16);
-- 
2.43.0


From 074c25f8dd959e95532e12954ea195fe1b5e07a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:07 +0000
Subject: [PATCH 32/51] fix: aarch64 Go closures with vector arguments sign
 their return address

---
 src/aarch64/sysv.S | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/aarch64/sysv.S b/src/aarch64/sysv.S
index 81d33f2..60ff098 100644
--- a/src/aarch64/sysv.S
+++ b/src/aarch64/sysv.S
@@ -626,6 +626,8 @@ CNAME(ffi_closure_trampoline_table_page):
 CNAME(ffi_go_closure_SYSV_V):
 	cfi_startproc
 	BTI_C
+	SIGN_LR_LINUX_ONLY
+	PAC_CFI_WINDOW_SAVE
 	stp     x29, x30, [sp, #-ffi_closure_SYSV_FS]!
 	cfi_adjust_cfa_offset (ffi_closure_SYSV_FS)
 	cfi_rel_offset (x29, 0)
-- 
2.43.0


From 539463d42d630fbe05be74d81ff15f3c56b4a31a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:33 +0000
Subject: [PATCH 33/51] fix: riscv copies of structures passed by reference are
 aligned

---
 src/riscv/ffi.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/riscv/ffi.c b/src/riscv/ffi.c
index 823e94b..33bd6b8 100644
--- a/src/riscv/ffi.c
+++ b/src/riscv/ffi.c
@@ -233,6 +233,7 @@ static void marshal(call_builder *cb, ffi_type *type, int var, void *data) {
 
     if (type->size > 2 * __SIZEOF_POINTER__) {
         /* copy to stack and pass by reference */
+        cb->struct_stack = (void *) FFI_ALIGN (cb->struct_stack, type->alignment);
         data = memcpy (cb->struct_stack, data, type->size);
         cb->struct_stack = (size_t *) FFI_ALIGN ((char *) cb->struct_stack + type->size, __SIZEOF_POINTER__);
         marshal_atom(cb, FFI_TYPE_POINTER, &data);
-- 
2.43.0


From 5eb91b0dd25ac2132c7cb61d78891a72376e1375 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:33 +0000
Subject: [PATCH 34/51] fix: aarch64 argument area has room for the arguments
 and the copies

---
 src/aarch64/ffi.c | 30 ++++++++++++++++++------------
 1 file changed, 18 insertions(+), 12 deletions(-)

diff --git a/src/aarch64/ffi.c b/src/aarch64/ffi.c
index 8fcff37..28948b7 100644
--- a/src/aarch64/ffi.c
+++ b/src/aarch64/ffi.c
@@ -541,7 +541,7 @@ ffi_status FFI_HIDDEN
 ffi_prep_cif_machdep (ffi_cif *cif)
 {
   ffi_type *rtype = cif->rtype;
-  size_t bytes = cif->bytes;
+  size_t slots = 0, copies = 0;
   int flags, i, n;
 
   switch (rtype->type)
@@ -586,10 +586,7 @@ ffi_prep_cif_machdep (ffi_cif *cif)
 	{
 	  size_t s = rtype->size;
 	  if (s > 16)
-	    {
-	      flags = AARCH64_RET_VOID | AARCH64_RET_IN_MEM;
-	      bytes += 8;
-	    }
+	    flags = AARCH64_RET_VOID | AARCH64_RET_IN_MEM;
 	  else if (s == 16)
 	    flags = AARCH64_RET_INT128;
 	  else if (s == 8)
@@ -603,16 +600,25 @@ ffi_prep_cif_machdep (ffi_cif *cif)
       abort();
     }
 
+  /* What may go to the stack: the arguments or, instead of structures that
+     are passed by reference, pointers, and above them those structures.  */
   for (i = 0, n = cif->nargs; i < n; i++)
-    if (is_vfp_type (cif->arg_types[i]))
-      flags |= AARCH64_FLAG_ARG_V;
-    else if (cif->arg_types[i]->size > 16)
-      /* Passed by reference: the pointer needs a stack slot of its own,
-	 in addition to the room for the copy.  */
-      bytes += 8;
+    {
+      ffi_type *ty = cif->arg_types[i];
+      size_t size = ty->size, align = ty->alignment;
+
+      if (is_vfp_type (ty))
+	flags |= AARCH64_FLAG_ARG_V;
+      else if (size > 16)
+	{
+	  copies = FFI_ALIGN (copies + size, align);
+	  size = align = 8;
+	}
+      slots = FFI_ALIGN (slots, align < 8 ? 8 : align) + FFI_ALIGN (size, 8);
+    }
 
   /* Round the stack up to a multiple of the stack alignment requirement. */
-  cif->bytes = (unsigned) FFI_ALIGN(bytes, 16);
+  cif->bytes = (unsigned) (FFI_ALIGN (slots, 16) + FFI_ALIGN (copies, 16));
   cif->flags = flags;
 #if defined (__APPLE__)
   cif->aarch64_nfixedargs = 0;
-- 
2.43.0


From 86ba8b4f60196abfdc03663c5fc6b5989fe3daf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:33 +0000
Subject: [PATCH 35/51] fix: loongarch64 argument area is aligned and has room
 for the copies

---
 src/loongarch64/ffi.c | 30 ++++++++++++++++++++++++++++--
 1 file changed, 28 insertions(+), 2 deletions(-)

diff --git a/src/loongarch64/ffi.c b/src/loongarch64/ffi.c
index 93c3377..46f9c49 100644
--- a/src/loongarch64/ffi.c
+++ b/src/loongarch64/ffi.c
@@ -424,11 +424,38 @@ passed_by_ref (call_builder *cb, ffi_type *type, int var)
   return type->size > 2 * __SIZEOF_POINTER__;
 }
 
+/* Computes the size of the argument region.  At worst, nothing is passed in
+   registers; of large arguments there are pointers and, above them, the
+   copies they point to.  */
+static void
+set_arg_bytes (ffi_cif *cif)
+{
+  size_t slots = 0, copies = 0;
+  int i;
+
+  for (i = 0; i < cif->nargs; i++)
+    {
+      ffi_type *type = cif->arg_types[i];
+      size_t size = type->size, alignment = type->alignment;
+
+      if (size > 2 * __SIZEOF_POINTER__)
+	{
+	  copies = FFI_ALIGN (copies + size, alignment);
+	  size = alignment = __SIZEOF_POINTER__;
+	}
+      if (alignment > __SIZEOF_POINTER__)
+	slots = FFI_ALIGN (slots, 2 * __SIZEOF_POINTER__);
+      slots += FFI_ALIGN (size, __SIZEOF_POINTER__);
+    }
+  cif->bytes = FFI_ALIGN (slots, STKALIGN) + FFI_ALIGN (copies, STKALIGN);
+}
+
 /* Perform machine dependent cif processing.  */
 ffi_status
 ffi_prep_cif_machdep (ffi_cif *cif)
 {
   cif->loongarch_nfixedargs = cif->nargs;
+  set_arg_bytes (cif);
   return FFI_OK;
 }
 
@@ -439,6 +466,7 @@ ffi_prep_cif_machdep_var (ffi_cif *cif, unsigned int nfixedargs,
 			  unsigned int ntotalargs)
 {
   cif->loongarch_nfixedargs = nfixedargs;
+  set_arg_bytes (cif);
   return FFI_OK;
 }
 
@@ -450,8 +478,6 @@ static void
 ffi_call_int (ffi_cif *cif, void (*fn) (void), void *rvalue, void **avalue,
 	      void *closure)
 {
-  /* This is a conservative estimate, assuming a complex return value and
-     that all remaining arguments are long long / __int128 */
   size_t arg_bytes = cif->bytes;
   size_t rval_bytes = 0;
   if (rvalue == NULL && cif->rtype->size > 2 * __SIZEOF_POINTER__)
-- 
2.43.0


From cc50e645615e8ad0d2ca180dad8946ee8f1227f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:51 +0000
Subject: [PATCH 36/51] fix: loongarch64 small members of structures do not
 overwrite what follows

---
 src/loongarch64/ffi.c | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/loongarch64/ffi.c b/src/loongarch64/ffi.c
index 46f9c49..19a8fac 100644
--- a/src/loongarch64/ffi.c
+++ b/src/loongarch64/ffi.c
@@ -240,16 +240,24 @@ unmarshal_atom (call_builder *cb, int type, void *data)
     {
     case FFI_TYPE_UINT8:
     case FFI_TYPE_SINT8:
+      *(uint8_t *) data = value;
+      break;
     case FFI_TYPE_UINT16:
     case FFI_TYPE_SINT16:
+      *(uint16_t *) data = value;
+      break;
     case FFI_TYPE_UINT32:
     case FFI_TYPE_SINT32:
+      *(uint32_t *) data = value;
+      break;
 #if __SIZEOF_POINTER__ == 8
     case FFI_TYPE_UINT64:
     case FFI_TYPE_SINT64:
+      *(uint64_t *) data = value;
+      break;
 #endif
     case FFI_TYPE_POINTER:
-      *(ffi_arg *)data = value;
+      *(size_t *) data = value;
       break;
     default:
       FFI_ASSERT (0);
@@ -519,7 +527,13 @@ ffi_call_int (ffi_cif *cif, void (*fn) (void), void *rvalue, void **avalue,
 
   cb.used_float = cb.used_integer = 0;
   if (!return_by_ref && rvalue)
-    unmarshal (&cb, cif->rtype, 0, rvalue);
+    {
+      /* Integers are extended to a ffi_arg, as they are in the register.  */
+      if (IS_INT (cif->rtype->type))
+	*(ffi_arg *) rvalue = cb.aregs->a[0];
+      else
+	unmarshal (&cb, cif->rtype, 0, rvalue);
+    }
 }
 
 void
-- 
2.43.0


From 5a88d74b31bb40c61f659b5bbb833c637042e57d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:51 +0000
Subject: [PATCH 37/51] fix: loongarch64 calls of void functions leave the
 result alone

---
 src/loongarch64/ffi.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/loongarch64/ffi.c b/src/loongarch64/ffi.c
index 19a8fac..6c59689 100644
--- a/src/loongarch64/ffi.c
+++ b/src/loongarch64/ffi.c
@@ -526,7 +526,7 @@ ffi_call_int (ffi_cif *cif, void (*fn) (void), void *rvalue, void **avalue,
   ffi_call_asm ((void *) alloc_base, cb.aregs, fn, closure);
 
   cb.used_float = cb.used_integer = 0;
-  if (!return_by_ref && rvalue)
+  if (!return_by_ref && rvalue && cif->rtype->type != FFI_TYPE_VOID)
     {
       /* Integers are extended to a ffi_arg, as they are in the register.  */
       if (IS_INT (cif->rtype->type))
-- 
2.43.0


From d703c9eb9663446d7a552040c66790301f6ecfb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:51 +0000
Subject: [PATCH 38/51] fix: loongarch64 ffi_call zero-extends results of type
 uint32

---
 src/loongarch64/ffi.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/loongarch64/ffi.c b/src/loongarch64/ffi.c
index 6c59689..4a7c6f9 100644
--- a/src/loongarch64/ffi.c
+++ b/src/loongarch64/ffi.c
@@ -528,8 +528,11 @@ ffi_call_int (ffi_cif *cif, void (*fn) (void), void *rvalue, void **avalue,
   cb.used_float = cb.used_integer = 0;
   if (!return_by_ref && rvalue && cif->rtype->type != FFI_TYPE_VOID)
     {
-      /* Integers are extended to a ffi_arg, as they are in the register.  */
-      if (IS_INT (cif->rtype->type))
+      /* Integers are extended to a ffi_arg, as they are in the register
+	 with the exception of uint32, which is sign-extended there.  */
+      if (cif->rtype->type == FFI_TYPE_UINT32)
+	*(ffi_arg *) rvalue = (uint32_t) cb.aregs->a[0];
+      else if (IS_INT (cif->rtype->type))
 	*(ffi_arg *) rvalue = cb.aregs->a[0];
       else
 	unmarshal (&cb, cif->rtype, 0, rvalue);
-- 
2.43.0


From 9b92a267733239137a3e9f31e97efc9d78254317 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:51 +0000
Subject: [PATCH 39/51] fix: loongarch64 structures of one float go to memory
 when no register is left

---
 src/loongarch64/ffi.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/loongarch64/ffi.c b/src/loongarch64/ffi.c
index 4a7c6f9..5f24996 100644
--- a/src/loongarch64/ffi.c
+++ b/src/loongarch64/ffi.c
@@ -126,7 +126,7 @@ struct_passed_as_elements (call_builder *cb, ffi_type *top)
 
   if (num_fields == 1)
     {
-      if (IS_FLOAT (fields[0]->type))
+      if (IS_FLOAT (fields[0]->type) && cb->used_float < NARGREG)
 	{
 	  ret.as_elements = 1;
 	  ret.type1 = fields[0]->type;
-- 
2.43.0


From 2f8f66053061d42eec277bc86ab6a36bc7c86f3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:04 +0000
Subject: [PATCH 40/51] fix: loongarch64 assembly for the single-float ABI
 assembles

---
 src/loongarch64/sysv.S | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/loongarch64/sysv.S b/src/loongarch64/sysv.S
index aa7bde2..854c9cb 100644
--- a/src/loongarch64/sysv.S
+++ b/src/loongarch64/sysv.S
@@ -43,8 +43,8 @@
 
 #if defined(__loongarch_single_float)
 # define FLTS 4
-# define FLD fld.w
-# define FST fst.w
+# define FLARG fld.s
+# define FSARG fst.s
 #elif defined(__loongarch_double_float)
 # define FLTS 8
 # define FLARG fld.d
-- 
2.43.0


From 1fd0e97b7e83a04382f68cf346b9084d5cfdf6f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:18 +0000
Subject: [PATCH 41/51] fix: arm no argument goes to the core registers after
 one that did not fit

Under the VFP convention an argument that does not fit in the remaining
core registers goes to the stack, and uses the registers up (AAPCS C.6).
When arguments were on the stack already, ffi_call and closures still
took later, smaller arguments to be in the remaining registers.
---
 src/arm/ffi.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/arm/ffi.c b/src/arm/ffi.c
index cfd3e9d..ac401cb 100644
--- a/src/arm/ffi.c
+++ b/src/arm/ffi.c
@@ -234,6 +234,9 @@ ffi_prep_args_VFP (ffi_cif *cif, int flags, void *rvalue,
 	      FFI_ASSERT (eo_regp < argp);
 	      continue;
 	    }
+	  /* Once an argument did not fit, no other one goes into the
+	     core registers.  */
+	  done_with_regs = 1;
 	}
       /* Base case, arguments are passed on the stack */
       stack_used = 1;
@@ -533,6 +536,9 @@ ffi_prep_incoming_args_VFP (ffi_cif *cif, void *rvalue, char *stack,
 		}
 	      continue;
 	    }
+	  /* Once an argument did not fit, no other one comes in the
+	     core registers.  */
+	  done_with_regs = 1;
 	}
 
       stack_used = 1;
-- 
2.43.0


From 47855e49a0308621d67372fc991828546b007afa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:03 +0000
Subject: [PATCH 42/51] fix: arm argument area has room for the address of
 complex results

The address a complex result in memory goes to shifts the arguments; with
8-byte aligned ones, they took up to 8 bytes more than were allocated.
---
 src/arm/ffi.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/arm/ffi.c b/src/arm/ffi.c
index ac401cb..e3f78e9 100644
--- a/src/arm/ffi.c
+++ b/src/arm/ffi.c
@@ -313,7 +313,9 @@ ffi_prep_cif_machdep (ffi_cif *cif)
       else
 	{
 	  flags = ARM_TYPE_STRUCT;
-	  bytes += 4;
+	  /* The address, and padding for the 8-byte aligned arguments it
+	     shifts.  */
+	  bytes += 8;
 	}
       break;
 
-- 
2.43.0


From 9091807c8024d769f987e3e3d34bc8ee8349bd7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:29 +0000
Subject: [PATCH 43/51] fix: arm small complex results are not written past
 their end

A _Complex char result comes in r0 like a structure of the same size, and
like one must go through a buffer rather than be stored as a whole word.
---
 src/arm/ffi.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/arm/ffi.c b/src/arm/ffi.c
index e3f78e9..e117e26 100644
--- a/src/arm/ffi.c
+++ b/src/arm/ffi.c
@@ -392,7 +392,9 @@ ffi_call_int (ffi_cif * cif, void (*fn) (void), void *rvalue,
       /* Largest case is double x 4. */
       rsize = 32;
     }
-  else if (flags == ARM_TYPE_INT && rtype->type == FFI_TYPE_STRUCT)
+  else if (flags == ARM_TYPE_INT
+	   && (rtype->type == FFI_TYPE_STRUCT
+	       || rtype->type == FFI_TYPE_COMPLEX))
     rsize = 4;
 
   /* Largest case.  */
-- 
2.43.0


From 754144c741b213c0a5fba37eb40310863c170b65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:15 +0000
Subject: [PATCH 44/51] fix: aarch64 structures returned without a result
 address are aligned

ffi_call had functions that return a structure in memory store it at an
address that is 8 modulo 16 when there is no result address.
---
 src/aarch64/ffi.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/aarch64/ffi.c b/src/aarch64/ffi.c
index 28948b7..6cca42b 100644
--- a/src/aarch64/ffi.c
+++ b/src/aarch64/ffi.c
@@ -693,11 +693,12 @@ ffi_call_int (ffi_cif *cif, void (*fn)(void), void *orig_rvalue,
     rsize = 16;
 
   /* Allocate consecutive stack for everything we'll need.
-     The frame uses 40 bytes for: lr, fp, rvalue, flags, sp */
-  context = alloca (sizeof(struct call_context) + stack_bytes + 40 + rsize);
+     The frame uses 40 bytes for: lr, fp, rvalue, flags, sp, and is
+     padded so that what follows is 16-byte aligned.  */
+  context = alloca (sizeof(struct call_context) + stack_bytes + 48 + rsize);
   stack = context + 1;
   frame = (void*)((uintptr_t)stack + (uintptr_t)stack_bytes);
-  rvalue = (rsize ? (void*)((uintptr_t)frame + 40) : orig_rvalue);
+  rvalue = (rsize ? (void*)((uintptr_t)frame + 48) : orig_rvalue);
 
   arg_init (&state, stack_bytes);
   for (i = 0, nargs = cif->nargs; i < nargs; i++)
-- 
2.43.0


From 265e7bab5a110881d1a1a6213b42b177b5873238 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:15 +0000
Subject: [PATCH 45/51] fix: arm structures returned without a result address
 are aligned

ffi_call had functions that return a structure in memory store it at an
address that is 4 modulo 8 when there is no result address.
---
 src/arm/ffi.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/arm/ffi.c b/src/arm/ffi.c
index e117e26..b1e3c38 100644
--- a/src/arm/ffi.c
+++ b/src/arm/ffi.c
@@ -401,7 +401,7 @@ ffi_call_int (ffi_cif * cif, void (*fn) (void), void *rvalue,
   vfp_size = (cif->abi == FFI_VFP && cif->vfp_used ? 8*8: 0);
 
   bytes = cif->bytes;
-  stack = alloca (vfp_size + bytes + sizeof(struct call_frame) + rsize);
+  stack = alloca (vfp_size + bytes + sizeof(struct call_frame) + 4 + rsize);
 
   vfp_space = NULL;
   if (vfp_size)
@@ -414,7 +414,7 @@ ffi_call_int (ffi_cif * cif, void (*fn) (void), void *rvalue,
 
   new_rvalue = rvalue;
   if (rsize)
-    new_rvalue = (void *)(frame + 1);
+    new_rvalue = (void *) FFI_ALIGN ((char *)(frame + 1), 8);
 
   frame->rvalue = new_rvalue;
   frame->flags = flags;
-- 
2.43.0


From 11e412babb86c76a901acd6cfdb4daedd06ff2df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:02 +0000
Subject: [PATCH 46/51] fix: powerpc64 closures taking a long double as their
 last fixed argument

---
 src/powerpc/ffi_linux64.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/powerpc/ffi_linux64.c b/src/powerpc/ffi_linux64.c
index 90100a4..68380d7 100644
--- a/src/powerpc/ffi_linux64.c
+++ b/src/powerpc/ffi_linux64.c
@@ -1071,7 +1071,7 @@ ffi_closure_helper_LINUX64 (ffi_cif *cif,
             }
           else if ((cif->abi & FFI_LINUX_LONG_DOUBLE_128) != 0)
 	    {
-	      if (pfr + 1 < end_pfr && i + 1 < nfixedargs)
+	      if (pfr + 1 < end_pfr && i < nfixedargs)
 		{
 		  avalue[i] = pfr;
 		  pfr += 2;
-- 
2.43.0


From 5db180de345e09d9789adb16c4dda6bd75ba5960 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:16 +0000
Subject: [PATCH 47/51] fix: powerpc64 homogeneous aggregates of long doubles
 are not aligned in the parameter area

---
 src/powerpc/ffi_linux64.c | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/src/powerpc/ffi_linux64.c b/src/powerpc/ffi_linux64.c
index 68380d7..0b18de7 100644
--- a/src/powerpc/ffi_linux64.c
+++ b/src/powerpc/ffi_linux64.c
@@ -127,6 +127,18 @@ discover_homogeneous_aggregate (ffi_abi abi,
 }
 
 
+/* Whether a structure is passed in a parameter slot aligned as the
+   structure is.  Homogeneous floating-point aggregates, of elements ELT,
+   are not, except for those of IEEE quad precision.  */
+static int
+needs_struct_align (ffi_abi abi, unsigned int elt)
+{
+  return ((abi & FFI_LINUX_STRUCT_ALIGN) != 0
+	  && (elt == 0
+	      || (elt == FFI_TYPE_LONGDOUBLE
+		  && (abi & FFI_LINUX_LONG_DOUBLE_IEEE128) != 0)));
+}
+
 /* Perform machine dependent cif processing */
 static ffi_status
 ffi_prep_cif_linux64_core (ffi_cif *cif)
@@ -264,7 +276,8 @@ homogeneous:
 	  break;
 
 	case FFI_TYPE_STRUCT:
-	  if ((cif->abi & FFI_LINUX_STRUCT_ALIGN) != 0)
+	  elt = discover_homogeneous_aggregate (cif->abi, *ptr, &elnum);
+	  if (needs_struct_align (cif->abi, elt))
 	    {
 	      align = (*ptr)->alignment;
 	      if (align > 16)
@@ -274,7 +287,6 @@ homogeneous:
 		intarg_count = FFI_ALIGN (intarg_count, align);
 	    }
 	  intarg_count += ((*ptr)->size + 7) / 8;
-	  elt = discover_homogeneous_aggregate (cif->abi, *ptr, &elnum);
 #if FFI_TYPE_LONGDOUBLE != FFI_TYPE_DOUBLE
           if (elt == FFI_TYPE_LONGDOUBLE &&
               (cif->abi & FFI_LINUX_LONG_DOUBLE_IEEE128) != 0)
@@ -649,7 +661,8 @@ ffi_prep_args64 (extended_cif *ecif, unsigned long *const stack)
 	  break;
 
 	case FFI_TYPE_STRUCT:
-	  if ((ecif->cif->abi & FFI_LINUX_STRUCT_ALIGN) != 0)
+	  elt = discover_homogeneous_aggregate (ecif->cif->abi, *ptr, &elnum);
+	  if (needs_struct_align (ecif->cif->abi, elt))
 	    {
 	      align = (*ptr)->alignment;
 	      if (align > 16)
@@ -661,7 +674,6 @@ ffi_prep_args64 (extended_cif *ecif, unsigned long *const stack)
                     next_arg.ul = rest.ul;
                 }
 	    }
-	  elt = discover_homogeneous_aggregate (ecif->cif->abi, *ptr, &elnum);
 	  if (elt)
 	    {
 #if _CALL_ELF == 2
@@ -943,7 +955,8 @@ ffi_closure_helper_LINUX64 (ffi_cif *cif,
 	  break;
 
 	case FFI_TYPE_STRUCT:
-	  if ((cif->abi & FFI_LINUX_STRUCT_ALIGN) != 0)
+	  elt = discover_homogeneous_aggregate (cif->abi, arg_types[i], &elnum);
+	  if (needs_struct_align (cif->abi, elt))
 	    {
 	      align = arg_types[i]->alignment;
 	      if (align > 16)
@@ -951,7 +964,6 @@ ffi_closure_helper_LINUX64 (ffi_cif *cif,
 	      if (align > 1)
 		pst = (unsigned long *) FFI_ALIGN ((size_t) pst, align);
 	    }
-	  elt = discover_homogeneous_aggregate (cif->abi, arg_types[i], &elnum);
 	  if (elt)
 	    {
 #if _CALL_ELF == 2
-- 
2.43.0


From 6c4a9c2bd4e48fcf9004710dc063795019d9c620 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:16 +0000
Subject: [PATCH 48/51] fix: powerpc64 closures taking several homogeneous
 aggregates as variable arguments

---
 src/powerpc/ffi_linux64.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/powerpc/ffi_linux64.c b/src/powerpc/ffi_linux64.c
index 0b18de7..39b8ae6 100644
--- a/src/powerpc/ffi_linux64.c
+++ b/src/powerpc/ffi_linux64.c
@@ -984,14 +984,14 @@ ffi_closure_helper_LINUX64 (ffi_cif *cif,
               if (elt == FFI_TYPE_LONGDOUBLE &&
                   (cif->abi & FFI_LINUX_LONG_DOUBLE_IEEE128) != 0)
                 {
-                  if (pvec + elnum <= end_pvec)
+                  if (i < nfixedargs && pvec + elnum <= end_pvec)
                     to.v = pvec;
                   else
                     to.v = pst;
                 }
               else
 #endif
-	      if (pfr + elnum <= end_pfr)
+	      if (i < nfixedargs && pfr + elnum <= end_pfr)
 		to.v = pfr;
 	      else
 		to.v = pst;
-- 
2.43.0


From 29f3fae8d400c682f07dfa97a0ffcd00849aa38c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:22 +0000
Subject: [PATCH 49/51] fix: powerpc64 big-endian ELFv2 structures of a single
 float on the stack

---
 src/powerpc/ffi_linux64.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/powerpc/ffi_linux64.c b/src/powerpc/ffi_linux64.c
index 39b8ae6..cc40fbd 100644
--- a/src/powerpc/ffi_linux64.c
+++ b/src/powerpc/ffi_linux64.c
@@ -706,6 +706,12 @@ ffi_prep_args64 (extended_cif *ecif, unsigned long *const stack)
 #endif
 	      if (elt == FFI_TYPE_FLOAT)
 		{
+#ifndef __LITTLE_ENDIAN__
+		  /* Structures with size less than eight bytes are passed
+		     left-padded.  */
+		  if (elnum == 1)
+		    next_arg.f++;
+#endif
 		  do
 		    {
 		      double_tmp = *arg.f++;
@@ -1017,6 +1023,12 @@ ffi_closure_helper_LINUX64 (ffi_cif *cif,
 #endif
 	      if (elt == FFI_TYPE_FLOAT)
 		{
+#ifndef __LITTLE_ENDIAN__
+		  /* Structures with size less than eight bytes are passed
+		     left-padded.  */
+		  if (elnum == 1)
+		    from.f++;
+#endif
 		  do
 		    {
 		      if (pfr < end_pfr && i < nfixedargs)
-- 
2.43.0


From 37c328eae2006275c05bd801e7cf463f5fbebb4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:49 +0000
Subject: [PATCH 50/51] fix: powerpc sysv copies of structures are 16-byte
 aligned

---
 src/powerpc/ffi_sysv.c |  4 +++-
 src/powerpc/sysv.S     | 32 ++++++++++++++++----------------
 2 files changed, 19 insertions(+), 17 deletions(-)

diff --git a/src/powerpc/ffi_sysv.c b/src/powerpc/ffi_sysv.c
index 5d7c5c8..cdc38a6 100644
--- a/src/powerpc/ffi_sysv.c
+++ b/src/powerpc/ffi_sysv.c
@@ -37,7 +37,9 @@
 
 
 /* About the SYSV ABI.  */
-#define ASM_NEEDS_REGISTERS 6
+/* The assembly routine saves fewer, but an even number of doublewords
+   keeps the space for copied structures 16-byte aligned.  */
+#define ASM_NEEDS_REGISTERS 8
 #define NUM_GPR_ARG_REGISTERS 8
 #define NUM_FPR_ARG_REGISTERS 8
 
diff --git a/src/powerpc/sysv.S b/src/powerpc/sysv.S
index df97734..04055d5 100644
--- a/src/powerpc/sysv.S
+++ b/src/powerpc/sysv.S
@@ -71,31 +71,31 @@ ENTRY(ffi_call_SYSV)
 	/* Get the address to call into CTR.  */
 	mtctr	%r29
 	/* Load all those argument registers.  */
-	lwz	%r3,-24-(8*4)(%r28)
-	lwz	%r4,-24-(7*4)(%r28)
-	lwz	%r5,-24-(6*4)(%r28)
-	lwz	%r6,-24-(5*4)(%r28)
+	lwz	%r3,-32-(8*4)(%r28)
+	lwz	%r4,-32-(7*4)(%r28)
+	lwz	%r5,-32-(6*4)(%r28)
+	lwz	%r6,-32-(5*4)(%r28)
 	bf-	5,1f
 	nop
-	lwz	%r7,-24-(4*4)(%r28)
-	lwz	%r8,-24-(3*4)(%r28)
-	lwz	%r9,-24-(2*4)(%r28)
-	lwz	%r10,-24-(1*4)(%r28)
+	lwz	%r7,-32-(4*4)(%r28)
+	lwz	%r8,-32-(3*4)(%r28)
+	lwz	%r9,-32-(2*4)(%r28)
+	lwz	%r10,-32-(1*4)(%r28)
 	nop
 1:
 
 #ifndef __NO_FPRS__
 	/* Load all the FP registers.  */
 	bf-	6,2f
-	lfd	%f1,-24-(8*4)-(8*8)(%r28)
-	lfd	%f2,-24-(8*4)-(7*8)(%r28)
-	lfd	%f3,-24-(8*4)-(6*8)(%r28)
-	lfd	%f4,-24-(8*4)-(5*8)(%r28)
+	lfd	%f1,-32-(8*4)-(8*8)(%r28)
+	lfd	%f2,-32-(8*4)-(7*8)(%r28)
+	lfd	%f3,-32-(8*4)-(6*8)(%r28)
+	lfd	%f4,-32-(8*4)-(5*8)(%r28)
 	nop
-	lfd	%f5,-24-(8*4)-(4*8)(%r28)
-	lfd	%f6,-24-(8*4)-(3*8)(%r28)
-	lfd	%f7,-24-(8*4)-(2*8)(%r28)
-	lfd	%f8,-24-(8*4)-(1*8)(%r28)
+	lfd	%f5,-32-(8*4)-(4*8)(%r28)
+	lfd	%f6,-32-(8*4)-(3*8)(%r28)
+	lfd	%f7,-32-(8*4)-(2*8)(%r28)
+	lfd	%f8,-32-(8*4)-(1*8)(%r28)
 #endif
 2:
 
-- 
2.43.0


From 06a84bd32e37eede920aec9d322a821b6464f936 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:26:56 +0000
Subject: [PATCH 51/51] fix: s390 closures restored an argument register from
 memory the handler may change

Register 6 carries an argument and belongs to the caller. Its value was
restored from the slot that the handler sees as its fifth argument.
---
 src/s390/sysv.S | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/s390/sysv.S b/src/s390/sysv.S
index d603218..c72f285 100644
--- a/src/s390/sysv.S
+++ b/src/s390/sysv.S
@@ -155,6 +155,8 @@ ffi_closure_SYSV:
 #endif
 	ahi	%r15,-96-8			# Set up stack frame
 	st	%r12,0(%r15)			# Set up back chain
+	st	%r6,100(%r15)			# The handler may modify the argument
+	.cfi_rel_offset r6, -4
 
 	std	%f0,64(%r12)			# Save fp arguments
 	std	%f2,72(%r12)
@@ -169,10 +171,11 @@ ffi_closure_SYSV:
 	bas	%r14,0(%r1,%r13)		# Call helper
 #endif
 
+	l	%r6,100(%r15)			# Restore saved registers
+	.cfi_restore r6
 	lr	%r15,%r12
 	.cfi_def_cfa_register r15
-	lm	%r12,%r14,48(%r12)		# Restore saved registers
-	l	%r6,24(%r15)
+	lm	%r12,%r14,48(%r12)
 	ld	%f0,64(%r15)			# Load return registers
 	lm	%r2,%r3,8(%r15)
 	br	%r14
@@ -299,6 +302,8 @@ ffi_closure_SYSV:
 	.cfi_rel_offset r15, 120
 	aghi	%r15,-160-16			# Set up stack frame
 	stg	%r13,0(%r15)			# Set up back chain
+	stg	%r6,168(%r15)			# The handler may modify the argument
+	.cfi_rel_offset r6, -8
 
 	std	%f0,128(%r13)			# Save fp arguments
 	std	%f2,136(%r13)
@@ -310,10 +315,11 @@ ffi_closure_SYSV:
 	la	%r5,16(%r13)			# GPRs
 	brasl	%r14,ffi_closure_helper_SYSV	# Call helper
 
+	lg	%r6,168(%r15)			# Restore saved registers
+	.cfi_restore r6
 	lgr	%r15,%r13
 	.cfi_def_cfa_register r15
-	lmg	%r13,%r14,104(%r13)		# Restore saved registers
-	lg	%r6,48(%r15)
+	lmg	%r13,%r14,104(%r13)
 	ld	%f0,128(%r15)			# Load return registers
 	lg	%r2,16(%r15)
 	br	%r14
-- 
2.43.0

