// simenv: LD_PRELOADed seam for memory layout, fresh-memory contents, allocation failure and clocks.
// SIM_LAYOUT=<seed>: heap base, padding, reuse policy and fill pattern are drawn from the seed.
// SIM_ALLOC_FAIL=<n>: the n-th allocation and all following ones return NULL (0: never).
// SIM_CLOCK=<seed>: wall and monotonic clocks are virtual.
#define _GNU_SOURCE
#include <errno.h>
#include <stddef.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>
extern char** environ;
static uint64_t S; static int inited; static char* cur; static char* lim; static uint64_t clk;
static uint64_t nalloc, failat; static unsigned char fillb; static unsigned reuse_pct, pad_max;
struct hdr { uint64_t size; uint32_t cls; uint32_t off; };
#define NCLS 48
static void* freel[NCLS]; static int busy;
static uint64_t rnd(void) { uint64_t z = (S += 0x9e3779b97f4a7c15ull); z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; return z ^ (z >> 31); }
static uint64_t envnum(const char* k, uint64_t d) {
  size_t n = strlen(k);
  for (char** e = environ; e && *e; e++) if (!strncmp(*e, k, n) && (*e)[n] == '=') { uint64_t v = 0; for (char* p = *e + n + 1; *p >= '0' && *p <= '9'; p++) v = v * 10 + (*p - '0'); return v; }
  return d;
}
static void lock(void) { while (__atomic_exchange_n(&busy, 1, __ATOMIC_ACQUIRE)) {} }
static void unlock(void) { __atomic_store_n(&busy, 0, __ATOMIC_RELEASE); }
static void region(size_t need) {
  size_t sz = (size_t)64 << 20; if (need + (1 << 20) > sz) sz = need + (1 << 20);
  // a fresh region at a seeded place, so later allocations are not simply above earlier ones
  uintptr_t base = 0x100000000000ull + ((rnd() % 0x200000ull) << 24);
  void* p = mmap((void*)base, sz, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (p == MAP_FAILED) _exit(97);
  cur = (char*)p + (rnd() % 256) * 16; lim = (char*)p + sz;
}
static void init(void) {
  inited = 1; S = envnum("SIM_LAYOUT", 1) * 0x9e3779b97f4a7c15ull + 77; failat = envnum("SIM_ALLOC_FAIL", 0);
  clk = 1600000000ull + envnum("SIM_CLOCK", 1) * 86413ull;
  fillb = (unsigned char)rnd(); reuse_pct = (unsigned)(rnd() % 101); pad_max = (unsigned)(rnd() % 3 ? rnd() % 32 : 0);
}
static int cls_of(size_t n) { int c = 0; size_t s = 16; while (s < n) { s <<= 1; c++; } return c; }
static void* alloc(size_t n, size_t al, int fill) {
  lock();
  if (!inited) init();
  nalloc++;
  if (failat && nalloc >= failat) { unlock(); errno = ENOMEM; return NULL; }
  if (al < 16) al = 16;
  if (n > ((size_t)1 << 46)) { unlock(); errno = ENOMEM; return NULL; }
  char* p = NULL;
  if (n > (1 << 20)) {
    size_t sz = (n + al + 8192) & ~(size_t)4095; uintptr_t base = 0x300000000000ull + ((rnd() % 0x200000ull) << 24);
    void* m = mmap((void*)base, sz, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (m == MAP_FAILED) { unlock(); errno = ENOMEM; return NULL; }
    uintptr_t q = ((uintptr_t)m + 64 + al - 1) & ~(al - 1); struct hdr* h = (struct hdr*)(q - 16); h->size = n; h->cls = 1000; h->off = (uint32_t)(q - (uintptr_t)m);
    *(size_t*)(q - 32) = sz;
    unlock(); return (void*)q;
  }
  int c = cls_of(n);
  if (al == 16 && freel[c] && rnd() % 100 < reuse_pct) { p = freel[c]; freel[c] = *(void**)p; }
  else {
    size_t s = (size_t)16 << c; size_t pad = pad_max ? (rnd() % pad_max) * 16 : 0;
    // occasionally move to another region so that relative order of allocations varies
    if (!cur || cur + pad + s + al + 64 > lim || rnd() % 64 == 0) {
      static char *sc[16], *sl[16]; static int ns;
      if (cur && ns < 16) { sc[ns] = cur; sl[ns] = lim; ns++; cur = NULL; region(s + al + 4096); }
      else if (cur) { int k = (int)(rnd() % 16); char* tc = sc[k]; char* tl = sl[k]; sc[k] = cur; sl[k] = lim; cur = tc; lim = tl; if (cur + pad + s + al + 64 > lim) region(s + al + 4096); }
      else region(s + al + 4096);
    }
    uintptr_t q = ((uintptr_t)cur + pad + 16 + al - 1) & ~(uintptr_t)(al - 1); cur = (char*)q + s; p = (char*)q;
    ((struct hdr*)(p - 16))->cls = (uint32_t)c;
  }
  ((struct hdr*)(p - 16))->size = n;
  unlock();
  if (fill) memset(p, fillb, n < 8192 ? n : 8192);
  return p;
}
void* malloc(size_t n) { return alloc(n, 16, 1); }
void free(void* p) {
  if (!p) return;
  struct hdr* h = (struct hdr*)((char*)p - 16);
  if (h->cls == 1000) { munmap((char*)p - h->off, *(size_t*)((char*)p - 32)); return; }
  lock(); memset(p, fillb ^ 0x5a, h->size < 4096 ? h->size : 4096); *(void**)p = freel[h->cls]; freel[h->cls] = p; unlock();
}
void* calloc(size_t a, size_t b) { size_t n; if (__builtin_mul_overflow(a, b, &n)) { errno = ENOMEM; return NULL; } void* p = alloc(n, 16, 0); if (p) memset(p, 0, n); return p; }
void* realloc(void* p, size_t n) { if (!p) return malloc(n); if (!n) { free(p); return NULL; } size_t o = ((struct hdr*)((char*)p - 16))->size; void* q = malloc(n); if (!q) return NULL; memcpy(q, p, o < n ? o : n); free(p); return q; }
void* memalign(size_t al, size_t n) { return alloc(n, al, 1); }
void* aligned_alloc(size_t al, size_t n) { return alloc(n, al, 1); }
int posix_memalign(void** r, size_t al, size_t n) { void* p = alloc(n, al, 1); if (!p) return ENOMEM; *r = p; return 0; }
void* valloc(size_t n) { return alloc(n, 4096, 1); }
size_t malloc_usable_size(void* p) { return p ? ((struct hdr*)((char*)p - 16))->size : 0; }
time_t time(time_t* t) { if (!inited) init(); time_t v = (time_t)clk; clk += 1; if (t) *t = v; return v; }
int gettimeofday(struct timeval* tv, void* z) { (void)z; if (!inited) init(); if (tv) { tv->tv_sec = (time_t)clk; tv->tv_usec = 0; } return 0; }
int clock_gettime(clockid_t c, struct timespec* ts) { (void)c; if (!inited) init(); ts->tv_sec = (time_t)clk; ts->tv_nsec = (long)(clk * 7919 % 1000000000); return 0; }
