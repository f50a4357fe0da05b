/* Allocation monitor. The link wraps the allocation functions for the objects
 * of the tree under test (and of the harness), not for libc or isl. While
 * verif_mem_on is set, each block is recorded with the address that asked for
 * it, and a block can be made to fail. GMP is monitored through its own hooks.
 */
#define _GNU_SOURCE
#include <errno.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include <pthread.h>
#include <gmp.h>
void *__real_malloc(size_t), *__real_calloc(size_t, size_t), *__real_realloc(void *, size_t);
void __real_free(void *);
char *__real_strdup(const char *);
char *__real_strndup(const char *, size_t);
int verif_mem_on;
long verif_mem_allocs, verif_mem_frees, verif_mem_fail_at = -1, verif_mem_failed;
long verif_gmp_allocs, verif_gmp_frees;
struct ent { void *p, *site; size_t n; };
static struct ent *tab; static size_t cap, used;
static pthread_mutex_t mu = PTHREAD_MUTEX_INITIALIZER;
static size_t slot(void *p) { uintptr_t x = (uintptr_t)p; x = (x >> 4) * 0x9E3779B97F4A7C15ull; return (x >> 20) & (cap - 1); }
static void put(void *p, size_t n, void *site);
static void grow(void) {
  struct ent *o = tab; size_t oc = cap, i;
  cap = cap ? cap * 2 : 4096; tab = __real_calloc(cap, sizeof *tab); used = 0;
  for (i = 0; i < oc; ++i) if (o[i].p && o[i].p != (void *)1) put(o[i].p, o[i].n, o[i].site);
  __real_free(o);
}
static void put(void *p, size_t n, void *site) {
  size_t i;
  if (used * 2 >= cap) grow();
  for (i = slot(p); tab[i].p; i = (i + 1) & (cap - 1)) ;
  tab[i].p = p; tab[i].n = n; tab[i].site = site; ++used;
}
static int del(void *p) {
  size_t i;
  if (!cap) return 0;
  for (i = slot(p); tab[i].p; i = (i + 1) & (cap - 1)) if (tab[i].p == p) { tab[i].p = (void *)1; return 1; }
  return 0;
}
static int fails(void) {
  if (verif_mem_fail_at < 0) return 0;
  if (verif_mem_fail_at-- == 0) { ++verif_mem_failed; errno = ENOMEM; return 1; }
  return 0;
}
static void *rec(void *p, size_t n, void *site) {
  if (p && verif_mem_on) { pthread_mutex_lock(&mu); ++verif_mem_allocs; put(p, n, site); pthread_mutex_unlock(&mu); }
  return p;
}
void *__wrap_malloc(size_t n) { if (verif_mem_on && fails()) return NULL; return rec(__real_malloc(n), n, __builtin_return_address(0)); }
void *__wrap_calloc(size_t a, size_t b) { if (verif_mem_on && fails()) return NULL; return rec(__real_calloc(a, b), a * b, __builtin_return_address(0)); }
char *__wrap_strdup(const char *s) { if (verif_mem_on && fails()) return NULL; return rec(__real_strdup(s), 0, __builtin_return_address(0)); }
char *__wrap_strndup(const char *s, size_t n) { if (verif_mem_on && fails()) return NULL; return rec(__real_strndup(s, n), 0, __builtin_return_address(0)); }
void __wrap_free(void *p) {
  if (p && cap) { pthread_mutex_lock(&mu); if (del(p)) ++verif_mem_frees; pthread_mutex_unlock(&mu); }
  __real_free(p);
}
void *__wrap_realloc(void *p, size_t n) {
  void *q;
  if (verif_mem_on && fails()) return NULL;
  if (p && cap) { pthread_mutex_lock(&mu); if (del(p)) ++verif_mem_frees; pthread_mutex_unlock(&mu); }
  q = __real_realloc(p, n);
  return rec(q, n, __builtin_return_address(0));
}
/* Calls f for every block still held. */
long verif_mem_live(void (*f)(void *p, size_t n, void *site, void *u), void *u) {
  size_t i; long k = 0;
  for (i = 0; i < cap; ++i) if (tab[i].p && tab[i].p != (void *)1) { ++k; if (f) f(tab[i].p, tab[i].n, tab[i].site, u); }
  return k;
}
/* Big integers initialised and cleared by the wrapped objects. */
void __real___gmpz_init(mpz_ptr), __real___gmpz_clear(mpz_ptr), __real___gmpz_init_set(mpz_ptr, mpz_srcptr), __real___gmpz_init_set_si(mpz_ptr, long);
void __wrap___gmpz_init(mpz_ptr z) { if (verif_mem_on) __atomic_add_fetch(&verif_gmp_allocs, 1, __ATOMIC_RELAXED); __real___gmpz_init(z); }
void __wrap___gmpz_init_set(mpz_ptr z, mpz_srcptr x) { if (verif_mem_on) __atomic_add_fetch(&verif_gmp_allocs, 1, __ATOMIC_RELAXED); __real___gmpz_init_set(z, x); }
void __wrap___gmpz_init_set_si(mpz_ptr z, long x) { if (verif_mem_on) __atomic_add_fetch(&verif_gmp_allocs, 1, __ATOMIC_RELAXED); __real___gmpz_init_set_si(z, x); }
void __wrap___gmpz_clear(mpz_ptr z) { if (verif_mem_on) __atomic_add_fetch(&verif_gmp_frees, 1, __ATOMIC_RELAXED); __real___gmpz_clear(z); }
#if !defined(__SANITIZE_ADDRESS__) && !defined(__SANITIZE_THREAD__)
#if defined(__has_feature)
#if __has_feature(address_sanitizer) || __has_feature(thread_sanitizer) || __has_feature(memory_sanitizer)
#define VERIF_NO_COUNT
#endif
#endif
#else
#define VERIF_NO_COUNT
#endif
/* Number of blocks held by the whole process, isl included. */
long verif_proc_live;
#ifdef VERIF_NO_COUNT
size_t __sanitizer_get_current_allocated_bytes(void) __attribute__((weak));
long verif_proc_held(void) { return __sanitizer_get_current_allocated_bytes ? (long)__sanitizer_get_current_allocated_bytes() : 0; }
#else
extern void *__libc_malloc(size_t), *__libc_calloc(size_t, size_t), *__libc_realloc(void *, size_t);
extern void __libc_free(void *);
void *malloc(size_t n) { void *p = __libc_malloc(n); if (p) __atomic_add_fetch(&verif_proc_live, 1, __ATOMIC_RELAXED); return p; }
void *calloc(size_t a, size_t b) { void *p = __libc_calloc(a, b); if (p) __atomic_add_fetch(&verif_proc_live, 1, __ATOMIC_RELAXED); return p; }
void *realloc(void *q, size_t n) { void *p = __libc_realloc(q, n); if (p && !q) __atomic_add_fetch(&verif_proc_live, 1, __ATOMIC_RELAXED); if (!p && q && !n) __atomic_sub_fetch(&verif_proc_live, 1, __ATOMIC_RELAXED); return p; }
void free(void *p) { if (p) __atomic_sub_fetch(&verif_proc_live, 1, __ATOMIC_RELAXED); __libc_free(p); }
long verif_proc_held(void) { return verif_proc_live; }
#endif
