#define __WORDSIZE (__SIZEOF_POINTER__ * 8)
#define __SYSCALL_WORDSIZE __WORDSIZE
