// malloc/free interposer: fresh small blocks are filled with a pattern and freed ones poisoned, so that reading
// uninitialised or freed memory misbehaves deterministically (not used in sanitizer builds).
#pragma once
#if !defined(__SANITIZE_ADDRESS__) && !defined(__SANITIZE_THREAD__)
#include <malloc.h>
#include <stddef.h>
#include <string.h>
extern "C" {
void *__libc_malloc(size_t);
void __libc_free(void *);
void *malloc(size_t n) {
  void *p = __libc_malloc(n);
  if (p && n <= 65536) memset(p, 0xA5, n);
  return p;
}
void free(void *p) {
  if (!p) return;
  size_t n = malloc_usable_size(p);
  if (n <= 65536 + 64) memset(p, 0x5B, n);
  __libc_free(p);
}
}
#endif
