// Functions of the guest's C library (and the closure handlers) that this process carries out. Also read by lib/emu.py.
H(handler) H(rawhandler) H(abort) H(__clear_cache) H(__riscv_flush_icache) H(malloc) H(calloc) H(free) H(mmap) H(munmap) H(mprotect) H(access) H(close) H(fclose) H(fcntl) H(feof) H(fgets) H(fopen) H(ftruncate) H(getenv) H(getmntent_r) H(setmntent) H(endmntent)
H(hasmntopt) H(getpid) H(lseek) H(memfd_create) H(mkstemp) H(open) H(pread) H(read) H(snprintf) H(__isoc23_sscanf) H(__isoc99_sscanf) H(sscanf) H(statfs) H(sysconf) H(unlink) H(write) H(getpagesize) H(syscall) H(__getdelim) H(getline) H(printf) H(fprintf) H(puts) H(putchar)
