// The ThreadSanitizer instrumentation ABI, implemented by the simulator: every memory access and atomic operation of
// the code under test is a point where the simulated scheduler may switch tasks and where the access is checked.
#include "simrt.h"
#include <string.h>
typedef unsigned __int128 u128;
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void *) {}
void __tsan_func_exit() {}
#define RW(n) \
 void __tsan_read##n(void *a) { sim_access(a, n, 0); } \
 void __tsan_write##n(void *a) { sim_access(a, n, 1); } \
 void __tsan_read##n##_pc(void *a, void *) { sim_access(a, n, 0); } \
 void __tsan_write##n##_pc(void *a, void *) { sim_access(a, n, 1); } \
 void __tsan_unaligned_read##n(void *a) { sim_access(a, n, 0); } \
 void __tsan_unaligned_write##n(void *a) { sim_access(a, n, 1); } \
 void __tsan_volatile_read##n(void *a) { sim_access(a, n, 0); } \
 void __tsan_volatile_write##n(void *a) { sim_access(a, n, 1); } \
 void __tsan_unaligned_volatile_read##n(void *a) { sim_access(a, n, 0); } \
 void __tsan_unaligned_volatile_write##n(void *a) { sim_access(a, n, 1); } \
 void __tsan_read_write##n(void *a) { sim_access(a, n, 1); } \
 void __tsan_unaligned_read_write##n(void *a) { sim_access(a, n, 1); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_vptr_update(void **p, void *) { sim_access(p, 8, 1); }
void __tsan_vptr_read(void **p) { sim_access(p, 8, 0); }
void __tsan_read_range(void *a, unsigned long n) { sim_access(a, n, 0); }
void __tsan_write_range(void *a, unsigned long n) { sim_access(a, n, 1); }

#define ATOM(bits, T) \
 T __tsan_atomic##bits##_load(const volatile T *a, int) { sim_access((void*)a, sizeof(T), 0); return *a; } \
 void __tsan_atomic##bits##_store(volatile T *a, T v, int) { sim_access((void*)a, sizeof(T), 1); *a = v; } \
 T __tsan_atomic##bits##_exchange(volatile T *a, T v, int) { sim_access((void*)a, sizeof(T), 1); T o = *a; *a = v; return o; } \
 T __tsan_atomic##bits##_fetch_add(volatile T *a, T v, int) { sim_access((void*)a, sizeof(T), 1); T o = *a; *a = o + v; return o; } \
 T __tsan_atomic##bits##_fetch_sub(volatile T *a, T v, int) { sim_access((void*)a, sizeof(T), 1); T o = *a; *a = o - v; return o; } \
 T __tsan_atomic##bits##_fetch_and(volatile T *a, T v, int) { sim_access((void*)a, sizeof(T), 1); T o = *a; *a = o & v; return o; } \
 T __tsan_atomic##bits##_fetch_or(volatile T *a, T v, int) { sim_access((void*)a, sizeof(T), 1); T o = *a; *a = o | v; return o; } \
 T __tsan_atomic##bits##_fetch_xor(volatile T *a, T v, int) { sim_access((void*)a, sizeof(T), 1); T o = *a; *a = o ^ v; return o; } \
 T __tsan_atomic##bits##_fetch_nand(volatile T *a, T v, int) { sim_access((void*)a, sizeof(T), 1); T o = *a; *a = ~(o & v); return o; } \
 int __tsan_atomic##bits##_compare_exchange_strong(volatile T *a, T *c, T v, int, int) { sim_access((void*)a, sizeof(T), 1); \
   if (*a == *c) { *a = v; return 1; } *c = *a; sim::yield_now(); return 0; } \
 int __tsan_atomic##bits##_compare_exchange_weak(volatile T *a, T *c, T v, int, int) { sim_access((void*)a, sizeof(T), 1); \
   if (*a == *c) { *a = v; return 1; } *c = *a; sim::yield_now(); return 0; } \
 T __tsan_atomic##bits##_compare_exchange_val(volatile T *a, T c, T v, int, int) { sim_access((void*)a, sizeof(T), 1); \
   T o = *a; if (o == c) { *a = v; return o; } sim::yield_now(); return o; }
ATOM(8, unsigned char) ATOM(16, unsigned short) ATOM(32, unsigned int) ATOM(64, unsigned long)
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}

// libc memory and string routines as called by the code under test (objects are built with -fno-builtin and renamed
// with objcopy, so ranges handed to libc are checked and are scheduling points too).
#define __real_memcpy memcpy
#define __real_memmove memmove
#define __real_memset memset
#define __real_memcmp memcmp
void *__wrap_memcpy(void *d, const void *s, size_t n) { if (n) { sim_access(s, n, 0); sim_access(d, n, 1); } return __real_memcpy(d, s, n); }
void *__wrap_memmove(void *d, const void *s, size_t n) { if (n) { sim_access(s, n, 0); sim_access(d, n, 1); } return __real_memmove(d, s, n); }
void *__wrap_memset(void *d, int c, size_t n) { if (n) sim_access(d, n, 1); return __real_memset(d, c, n); }
int __wrap_memcmp(const void *a, const void *b, size_t n) { if (n) { sim_access(a, n, 0); sim_access(b, n, 0); } return __real_memcmp(a, b, n); }
size_t __wrap_strlen(const char *s) { size_t i = 0; for (;; i++) { sim_point(s + i, 1, 0); if (!s[i]) break; } return i; }
int __wrap_strcmp(const char *a, const char *b) { for (size_t i = 0;; i++) { sim_point(a + i, 1, 0); sim_point(b + i, 1, 0);
  unsigned char x = a[i], y = b[i]; if (x != y) return x < y ? -1 : 1; if (!x) return 0; } }
int __wrap_strncmp(const char *a, const char *b, size_t n) { for (size_t i = 0; i < n; i++) { sim_point(a + i, 1, 0); sim_point(b + i, 1, 0);
  unsigned char x = a[i], y = b[i]; if (x != y) return x < y ? -1 : 1; if (!x) return 0; } return 0; }
char *__wrap_strcpy(char *d, const char *s) { for (size_t i = 0;; i++) { sim_point(s + i, 1, 0); sim_point(d + i, 1, 1); d[i] = s[i]; if (!s[i]) return d; } }
char *__wrap_strncpy(char *d, const char *s, size_t n) { size_t i = 0; for (; i < n; i++) { sim_point(s + i, 1, 0); sim_point(d + i, 1, 1); d[i] = s[i]; if (!s[i]) break; }
  for (; i < n; i++) { sim_point(d + i, 1, 1); d[i] = 0; } return d; }
char *__wrap_strcat(char *d, const char *s) { return __wrap_strcpy(d + __wrap_strlen(d), s), d; }
char *__wrap_strchr(const char *s, int c) { for (size_t i = 0;; i++) { sim_point(s + i, 1, 0); if (s[i] == (char)c) return (char*)s + i; if (!s[i]) return nullptr; } }
void *__wrap_memchr(const void *s, int c, size_t n) { for (size_t i = 0; i < n; i++) { sim_point((char*)s + i, 1, 0); if (((unsigned char*)s)[i] == (unsigned char)c) return (char*)s + i; } return nullptr; }
}
