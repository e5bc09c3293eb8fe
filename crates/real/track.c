// Preloaded: an allocator that remembers its blocks, poisons what is freed, and can tell what an address is.
#define _GNU_SOURCE
#include <stddef.h>
#include <stdint.h>
#include <string.h>
#include <errno.h>
extern void* __libc_malloc(size_t);
extern void __libc_free(void*);
#define LIVE 0x4c4956454c495645ull
#define FREED 0x4652454546524545ull
#define GUARD 32
#define KEEP (64u << 20)
typedef struct head { uint64_t state; size_t size; void* base; struct head *next, *prev; uint64_t pad; } head;
static head live = {0, 0, 0, &live, &live, 0}, old = {0, 0, 0, &old, &old, 0}, freed = {0, 0, 0, &freed, &freed, 0};
static size_t kept;
static volatile int lock;
static long fail_in = -1; // fail the n-th allocation from now
static unsigned long allocations;
static int on;
static void take(void) { while (__sync_lock_test_and_set(&lock, 1)) ; }
static void give(void) { __sync_lock_release(&lock); }
static void link_(head* l, head* h) { h->next = l; h->prev = l->prev; l->prev->next = h; l->prev = h; }
static void unlink_(head* h) { h->prev->next = h->next; h->next->prev = h->prev; }
static void* get(size_t align, size_t n) {
  if (on) { allocations++; if (fail_in >= 0 && fail_in-- == 0) { errno = ENOMEM; return NULL; } }
  if (align < 16) align = 16;
  if (n > ((size_t)1 << 46)) { errno = ENOMEM; return NULL; }
  char* b = __libc_malloc(n + sizeof(head) + align + GUARD);
  if (!b) return NULL;
  uintptr_t p = ((uintptr_t)b + sizeof(head) + align - 1) & ~(uintptr_t)(align - 1);
  head* h = (head*)(p - sizeof(head));
  h->state = LIVE; h->size = n; h->base = b;
  memset((void*)p, 0xa5, n);
  memset((char*)p + n, 0xfb, GUARD);
  take(); link_(&live, h); give();
  return (void*)p;
}
static head* of(void* p) { return (head*)((char*)p - sizeof(head)); }
static int guard_ok(head* h) {
  unsigned char* g = (unsigned char*)(h + 1) + h->size;
  for (int i = 0; i < GUARD; i++) if (g[i] != 0xfb) return 0;
  return 1;
}
static unsigned long damage;
void* malloc(size_t n) { return get(16, n); }
void* calloc(size_t a, size_t b) { size_t n; if (__builtin_mul_overflow(a, b, &n)) { errno = ENOMEM; return NULL; } void* p = get(16, n); if (p) memset(p, 0, n); return p; }
void free(void* p) {
  if (!p) return;
  head* h = of(p);
  if (h->state != LIVE) { damage++; return; } // freed twice, or never ours
  if (!guard_ok(h)) damage++;
  take();
  unlink_(h);
  h->state = FREED;
  memset(p, 0xdd, h->size);
  if (on) {
    link_(&freed, h); kept += h->size;
    while (kept > KEEP) { head* o = freed.next; unlink_(o); kept -= o->size; __libc_free(o->base); }
    give();
  } else { give(); __libc_free(h->base); }
}
void* realloc(void* p, size_t n) {
  if (!p) return malloc(n);
  if (n == 0) { free(p); return NULL; }
  void* q = malloc(n);
  if (!q) return NULL;
  size_t o = of(p)->size;
  memcpy(q, p, o < n ? o : n);
  free(p);
  return q;
}
void* memalign(size_t a, size_t n) { return get(a, n); }
void* aligned_alloc(size_t a, size_t n) { return get(a, n); }
void* valloc(size_t n) { return get(4096, n); }
int posix_memalign(void** r, size_t a, size_t n) { void* p = get(a, n); if (!p) return ENOMEM; *r = p; return 0; }
size_t malloc_usable_size(void* p) { return p ? of(p)->size : 0; }
void track_on(int v) { on = v; }
void track_fail(long n) { fail_in = n; }
unsigned long track_allocations(void) { return allocations; }
size_t track_size(void* p) {
  for (head* h = live.next; h != &live; h = h->next) if ((void*)(h + 1) == p) return h->size;
  return (size_t)-1;
}
// the block with p in it is no longer looked at (it stays allocated)
void track_forget(const void* p) {
  uintptr_t a = (uintptr_t)p;
  for (head* h = live.prev; h != &live; h = h->prev) {
    uintptr_t b = (uintptr_t)(h + 1);
    if (a >= b && a < b + h->size) { take(); unlink_(h); link_(&old, h); give(); return; }
  }
}
// 0: not known here, 1: inside a live block, 2: touches a freed block, 3: reaches beyond its live block
int track_query(const void* p, size_t n) {
  uintptr_t a = (uintptr_t)p, e = a + n;
  int r = 0;
  for (head* h = live.prev; h != &live; h = h->prev) {
    uintptr_t b = (uintptr_t)(h + 1), c = b + h->size;
    if (a >= b && e <= c) return 1;
    if (a < c + GUARD && e > b - sizeof(head)) { r = 3; }
  }
  for (head* h = freed.next; h != &freed; h = h->next) {
    uintptr_t b = (uintptr_t)(h + 1), c = b + h->size;
    if (a < c && e > b) return 2;
  }
  return r;
}
// how much has been written where nothing should be
unsigned long track_damage(int deep) {
  unsigned long r = damage;
  for (head* h = live.next; h != &live; h = h->next) if (!guard_ok(h)) r++;
  if (deep) for (head* h = freed.next; h != &freed; h = h->next) {
    unsigned char* b = (unsigned char*)(h + 1);
    for (size_t i = 0; i < h->size; i++) if (b[i] != 0xdd) { r++; break; }
  }
  return r;
}
