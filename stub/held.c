/* what the package's native code holds, for the replays: live bytes from operator new, and from malloc as called by the modules named by held_watch */
#define _GNU_SOURCE
#include <stddef.h>
#include <stdint.h>
#include <stdlib.h>

extern void *__libc_malloc(size_t);
extern void *__libc_calloc(size_t, size_t);
extern void *__libc_realloc(void *, size_t);
extern void __libc_free(void *);

#define SLOTS (1u << 21)
static struct { uintptr_t p; size_t n; } tab[SLOTS];    /* open addressing; p = 1 marks a slot given up */
static long held;
static uintptr_t lo[64], hi[64];
static int nranges;

static unsigned at(uintptr_t p) { return (unsigned) ((p * 0x9E3779B97F4A7C15ull) >> 43); }

static void *note(void *q, size_t n)
{
    uintptr_t p = (uintptr_t) q;
    unsigned i;
    if (!p) return q;
    for (i = at(p); tab[i].p > 1; i = (i + 1) % SLOTS);
    tab[i].p = p;
    tab[i].n = n;
    held += n ? n : 1;
    return q;
}

static void drop(void *q)
{
    uintptr_t p = (uintptr_t) q;
    unsigned i;
    if (!p) return;
    for (i = at(p); tab[i].p; i = (i + 1) % SLOTS)
        if (tab[i].p == p) {
            held -= tab[i].n ? tab[i].n : 1;
            tab[i].p = 1;
            return;
        }
}

static int ours(void *ret)
{
    int i;
    for (i = 0; i < nranges; i++)
        if ((uintptr_t) ret >= lo[i] && (uintptr_t) ret < hi[i]) return 1;
    return 0;
}

long held_bytes(void) { return held; }
void held_watch(uintptr_t a, uintptr_t b) { if (nranges < 64) { lo[nranges] = a; hi[nranges++] = b; } }

void *malloc(size_t n) { void *p = __libc_malloc(n); return nranges && ours(__builtin_return_address(0)) ? note(p, n) : p; }
void *calloc(size_t n, size_t m) { void *p = __libc_calloc(n, m); return nranges && ours(__builtin_return_address(0)) ? note(p, n * m) : p; }
void *realloc(void *q, size_t n)
{
    void *p;
    if (nranges) drop(q);
    p = __libc_realloc(q, n);
    return nranges && ours(__builtin_return_address(0)) ? note(p, n) : p;
}
void free(void *p) { if (nranges) drop(p); __libc_free(p); }

static void *get(size_t n)
{
    void *p = __libc_malloc(n ? n : 1);
    if (!p) abort();
    return note(p, n);
}
void *_Znwm(size_t n) { return get(n); }
void *_Znam(size_t n) { return get(n); }
void *_ZnwmRKSt9nothrow_t(size_t n, void *t) { (void) t; return get(n); }
void *_ZnamRKSt9nothrow_t(size_t n, void *t) { (void) t; return get(n); }
static void put(void *p) { drop(p); __libc_free(p); }
void _ZdlPv(void *p) { put(p); }
void _ZdaPv(void *p) { put(p); }
void _ZdlPvm(void *p, size_t n) { (void) n; put(p); }
void _ZdaPvm(void *p, size_t n) { (void) n; put(p); }
