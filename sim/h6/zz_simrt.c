/* The C side of the simulator, laid over the package by the build overlay:
 * simulated heap (never reuses memory, knows every live byte), and a
 * scheduling point at every load and store of the package's C code. */
#include "simhooks.h"
/* the hooks are included ahead of every file, this one too */
#undef malloc
#undef calloc
#undef realloc
#undef free
#undef strdup
#undef strndup
#undef strlen
#undef strnlen
#undef strcpy
#undef strncpy
#undef strcat
#undef strstr
#undef strchr
#undef strrchr
#undef strcmp
#undef strncmp
#undef memcpy
#undef memmove
#undef memset
#undef memcmp
#undef strtod
#undef strtol
#undef vasprintf
#undef snprintf
#undef vsnprintf
#undef sprintf
#undef reallocarray
#undef memchr
#undef stpcpy
#undef strncat
#undef strpbrk
#undef strspn
#undef strcspn
#undef strcasecmp
#undef strncasecmp
#undef strtoll
#undef strtoul
#undef strtoull
#undef asprintf
#include <sys/mman.h>
#include <unistd.h>
#include <stdint.h>
#include <limits.h>

#define NOSAN __attribute__((no_sanitize("kernel-address"), no_sanitize("address"), no_sanitize("thread")))

extern void simYieldFromC(void); /* exported by zz_simrt.go */

#define ARENA ((size_t)1 << 30)
static unsigned char *arena, *shadow, *top, *lim; /* shadow: one byte per arena byte group of 8 */
static int64_t dummy = (int64_t)1 << 60;
static int64_t *cd = &dummy;
static int32_t nobody = -1;
static int32_t *curp = &nobody;
#define sim_cur (*curp)

int64_t sim_live_blocks, sim_live_bytes, sim_allocs, sim_frees, sim_accesses, sim_failed;
static int64_t fail_at[16];
static int nfail;
static int64_t fail_base;
static int sim_on = 1;

struct hdr { size_t size; int64_t ord; uint32_t state; int32_t task; uint64_t pad; };
#define LIVE 0x4c495645u
#define DEAD 0x44454144u

NOSAN static void viol(const char *kind, const void *p, size_t n, void *pc) {
    char buf[256];
    int k = snprintf(buf, sizeof buf, "\nHEAPVIOL kind=%s size=%zu task=%d off=%ld pc=%p\n",
                     kind, n, (int)sim_cur, (long)((const unsigned char *)p - arena), pc);
    if (write(2, buf, k) < 0) {}
    _exit(99);
}

/* Happens-before race detection over the memory C code shares (the heap and
 * the C globals): per byte the last write and up to two reads, each an epoch
 * (task, how far it was). The relation itself is kept by the Go side. */
#define HBT 32
static int32_t hb_never, *hb_on = &hb_never;
static uint32_t (*hb_vc)[HBT];
struct cell { uint32_t w, r0, r1; };
static struct cell *hb_heap, *hb_data;
int64_t sim_hb_checked;
extern char __data_start[], _end[];
#define EP(t) ((uint32_t)(t) << 27 | (hb_vc[t][t] & 0x7ffffff))
#define BEFORE(e, t) (!(e) || (e) >> 27 == (uint32_t)(t) || ((e) & 0x7ffffff) <= hb_vc[t][(e) >> 27])

NOSAN static void race(const char *what, const void *p, size_t n, uint32_t e, void *pc) {
    char buf[256];
    int k = snprintf(buf, sizeof buf, "\nCRACE kind=%s size=%zu task=%d other=%d pc=%p\n",
                     what, n, (int)sim_cur, (int)(e >> 27), pc);
    if (write(2, buf, k) < 0) {}
    _exit(99);
}

NOSAN static inline struct cell *cells(uintptr_t a) {
    if (a - (uintptr_t)arena < ARENA) return hb_heap + (a - (uintptr_t)arena);
    if (a >= (uintptr_t)__data_start && a < (uintptr_t)_end) return hb_data + (a - (uintptr_t)__data_start);
    return NULL;
}

NOSAN static void hb(const void *p, size_t n, int is_write, void *pc) {
    if (!*hb_on || sim_cur < 0 || !arena) return;
    struct cell *c = cells((uintptr_t)p);
    if (!c) return;
    int t = sim_cur;
    uint32_t me = EP(t);
    sim_hb_checked++;
    for (size_t i = 0; i < n; i++, c++) {
        if (is_write) {
            if (!BEFORE(c->w, t)) race("write-after-write", p, n, c->w, pc);
            if (!BEFORE(c->r0, t)) race("write-after-read", p, n, c->r0, pc);
            if (!BEFORE(c->r1, t)) race("write-after-read", p, n, c->r1, pc);
            c->w = me; c->r0 = c->r1 = 0;
        } else {
            if (!BEFORE(c->w, t)) race("read-after-write", p, n, c->w, pc);
            if (BEFORE(c->r0, t)) c->r0 = me;
            else c->r1 = me;
        }
    }
}

NOSAN static void init(void) {
    arena = mmap(NULL, ARENA, PROT_READ | PROT_WRITE,
                 MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    shadow = mmap(NULL, ARENA / 8, PROT_READ | PROT_WRITE,
                  MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    hb_heap = mmap(NULL, ARENA * sizeof(struct cell), PROT_READ | PROT_WRITE,
                   MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    hb_data = mmap(NULL, (_end - __data_start) * sizeof(struct cell), PROT_READ | PROT_WRITE,
                   MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (arena == MAP_FAILED || shadow == MAP_FAILED || hb_heap == MAP_FAILED || hb_data == MAP_FAILED) _exit(98);
    top = arena + 64;
    lim = arena + ARENA - 4096;
    /* everything not handed out is a red zone */
}

/* shadow encoding: 0 not addressable, 1..8 first n bytes of the group are, 9 freed */
NOSAN static inline void check1(uintptr_t a, int is_write, void *pc) {
    unsigned char s = shadow[(a - (uintptr_t)arena) >> 3];
    if (s == 8) return;
    if (s == 9) viol(is_write ? "use-after-free-write" : "use-after-free-read", (void *)a, 1, pc);
    if ((a & 7) >= s) viol(is_write ? "out-of-bounds-write" : "out-of-bounds-read", (void *)a, 1, pc);
}

NOSAN static inline void check(const void *p, size_t n, int is_write, void *pc) {
    uintptr_t a = (uintptr_t)p;
    sim_accesses++;
    hb(p, n, is_write, pc);
    if (a - (uintptr_t)arena < ARENA && n) {
        if (n <= 8) {
            check1(a, is_write, pc);
            if (n > 1) check1(a + n - 1, is_write, pc);
        } else {
            for (uintptr_t q = a & ~(uintptr_t)7; q < a + n; q += 8)
                check1(q < a ? a : q, is_write, pc);
            check1(a + n - 1, is_write, pc);
        }
    }
}

/* In a build with the Go race detector C code is not interrupted: coming back
 * into Go would order the task after everything done before, and hide races. */
static int sim_no_preempt;
NOSAN static inline void point(void) {
    if (sim_no_preempt) return;
    if (--*cd <= 0) simYieldFromC();
}

/* Only memory callers can share is a scheduling point: the simulated heap and
 * the C globals. Never the Go stack: the argument frames of cgo wrappers live
 * there and would move under the wrapper if it were interrupted. */
NOSAN static inline void shared_point(const void *p) {
    uintptr_t a = (uintptr_t)p;
    if (a - (uintptr_t)arena < ARENA || (a >= (uintptr_t)__data_start && a < (uintptr_t)_end)) point();
}

#define PC __builtin_return_address(0)
#define LD(n) NOSAN void __asan_load##n##_noabort(void *p) { shared_point(p); check(p, n, 0, PC); }
#define ST(n) NOSAN void __asan_store##n##_noabort(void *p) { shared_point(p); check(p, n, 1, PC); }
LD(1) LD(2) LD(4) LD(8) LD(16) ST(1) ST(2) ST(4) ST(8) ST(16)
NOSAN void __asan_loadN_noabort(void *p, size_t n) { shared_point(p); check(p, n, 0, PC); }
NOSAN void __asan_storeN_noabort(void *p, size_t n) { shared_point(p); check(p, n, 1, PC); }
NOSAN void __asan_handle_no_return(void) {}

#ifdef __SANITIZE_THREAD__
/* What gcc -fsanitize=thread calls: unlike the above it also tells of a store
 * to what was just loaded, and of atomic operations. libtsan is not linked. */
#define TRD(n) NOSAN void __tsan_read##n(void *p) { shared_point(p); check(p, n, 0, PC); } \
    NOSAN void __tsan_unaligned_read##n(void *p) { shared_point(p); check(p, n, 0, PC); } \
    NOSAN void __tsan_volatile_read##n(void *p) { shared_point(p); check(p, n, 0, PC); }
#define TWR(n) NOSAN void __tsan_write##n(void *p) { shared_point(p); check(p, n, 1, PC); } \
    NOSAN void __tsan_unaligned_write##n(void *p) { shared_point(p); check(p, n, 1, PC); } \
    NOSAN void __tsan_volatile_write##n(void *p) { shared_point(p); check(p, n, 1, PC); }
TRD(1) TRD(2) TRD(4) TRD(8) TRD(16) TWR(1) TWR(2) TWR(4) TWR(8) TWR(16)
NOSAN void __tsan_read_range(void *p, size_t n) { shared_point(p); check(p, n, 0, PC); }
NOSAN void __tsan_write_range(void *p, size_t n) { shared_point(p); check(p, n, 1, PC); }
NOSAN void __tsan_init(void) {}
NOSAN void __tsan_func_entry(void *p) {}
NOSAN void __tsan_func_exit(void) {}
NOSAN void __tsan_acquire(void *p) {}
NOSAN void __tsan_release(void *p) {}

/* Every atomic operation acquires and releases; addresses may share a clock,
 * which orders too much and so can only hide a race, never make one up. */
static uint32_t hb_atomic[256][HBT];
NOSAN static void sync_at(const volatile void *p) {
    point();
    if (!*hb_on || sim_cur < 0) return;
    uint32_t *a = hb_atomic[((uintptr_t)p >> 2) * 2654435761u >> 8 & 255], *m = hb_vc[sim_cur];
    for (int i = 0; i < HBT; i++) {
        if (a[i] > m[i]) m[i] = a[i];
        else a[i] = m[i];
    }
    m[sim_cur]++;
}
#define AT(b, T) \
    NOSAN T __tsan_atomic##b##_load(const volatile T *p, int o) { sync_at(p); return *p; } \
    NOSAN void __tsan_atomic##b##_store(volatile T *p, T v, int o) { sync_at(p); *p = v; } \
    NOSAN T __tsan_atomic##b##_exchange(volatile T *p, T v, int o) { sync_at(p); T x = *p; *p = v; return x; } \
    NOSAN T __tsan_atomic##b##_fetch_add(volatile T *p, T v, int o) { sync_at(p); T x = *p; *p = x + v; return x; } \
    NOSAN T __tsan_atomic##b##_fetch_sub(volatile T *p, T v, int o) { sync_at(p); T x = *p; *p = x - v; return x; } \
    NOSAN T __tsan_atomic##b##_fetch_and(volatile T *p, T v, int o) { sync_at(p); T x = *p; *p = x & v; return x; } \
    NOSAN T __tsan_atomic##b##_fetch_or(volatile T *p, T v, int o) { sync_at(p); T x = *p; *p = x | v; return x; } \
    NOSAN T __tsan_atomic##b##_fetch_xor(volatile T *p, T v, int o) { sync_at(p); T x = *p; *p = x ^ v; return x; } \
    NOSAN T __tsan_atomic##b##_fetch_nand(volatile T *p, T v, int o) { sync_at(p); T x = *p; *p = ~(x & v); return x; } \
    NOSAN int __tsan_atomic##b##_compare_exchange_strong(volatile T *p, T *e, T v, int o, int f) { \
        sync_at(p); if (*p == *e) { *p = v; return 1; } *e = *p; return 0; } \
    NOSAN int __tsan_atomic##b##_compare_exchange_weak(volatile T *p, T *e, T v, int o, int f) { \
        sync_at(p); if (*p == *e) { *p = v; return 1; } *e = *p; return 0; } \
    NOSAN T __tsan_atomic##b##_compare_exchange_val(volatile T *p, T e, T v, int o, int f) { \
        sync_at(p); T x = *p; if (x == e) *p = v; return x; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
NOSAN void __tsan_atomic_thread_fence(int o) { sync_at(NULL); }
NOSAN void __tsan_atomic_signal_fence(int o) {}
#endif

/* Locks of the C side wait in the simulator, not in the kernel. */
extern void simBlockFromC(void), simWakeFromC(void);
#undef pthread_mutex_lock
#undef pthread_mutex_trylock
#undef pthread_mutex_unlock
static uint32_t hb_mutex[HBT];
NOSAN static void sync_mutex(void) {
    if (!*hb_on || sim_cur < 0) return;
    uint32_t *m = hb_vc[sim_cur];
    for (int i = 0; i < HBT; i++) {
        if (hb_mutex[i] > m[i]) m[i] = hb_mutex[i];
        else hb_mutex[i] = m[i];
    }
    m[sim_cur]++;
}
NOSAN int sim_mutex_lock(pthread_mutex_t *m) {
    int r;
    point();
    while ((r = pthread_mutex_trylock(m)) == EBUSY) simBlockFromC();
    sync_mutex();
    return r;
}
NOSAN int sim_mutex_trylock(pthread_mutex_t *m) {
    point();
    int r = pthread_mutex_trylock(m);
    if (!r) sync_mutex();
    return r;
}
NOSAN int sim_mutex_unlock(pthread_mutex_t *m) {
    sync_mutex();
    int r = pthread_mutex_unlock(m);
    simWakeFromC();
    point();
    return r;
}

/* Freed blocks are handed out again in the runs that ask for it, the last one
 * first as real allocators do: whoever remembers addresses must notice. */
#define CLASSES 128
static struct hdr *freed[CLASSES];
static int reuse_pct;
int64_t sim_reused;

NOSAN static struct hdr *recycle(size_t n) {
    size_t c = (n + 15) >> 4;
    if (!reuse_pct || c >= CLASSES || !freed[c]) return NULL;
    if ((int)(((uint32_t)sim_allocs * 0x9E3779B1u >> 8) % 100) >= reuse_pct) return NULL;
    struct hdr *h = freed[c];
    freed[c] = (struct hdr *)(uintptr_t)h->pad;
    h->pad = 0;
    sim_reused++;
    struct cell *x = hb_heap + ((unsigned char *)(h + 1) - arena);
    for (size_t i = 0; i < c << 4; i++) x[i].w = x[i].r0 = x[i].r1 = 0;
    size_t s = ((unsigned char *)(h + 1) - arena) >> 3;
    for (size_t i = 0; i < c << 1; i++) shadow[s + i] = 0;
    return h;
}

NOSAN static void *alloc(size_t n, int can_fail) {
    if (!arena) init();
    sim_allocs++;
    if (can_fail)
        for (int i = 0; i < nfail; i++)
            if (sim_allocs - fail_base == fail_at[i]) {
                sim_failed++;
                if (write(2, "\nSIMFAULT allocation\n", 21) < 0) {}
                errno = ENOMEM;
                return NULL;
            }
    if (n > ARENA / 4) { errno = ENOMEM; return NULL; }
    size_t pad = (n + 7) & ~(size_t)7;
    unsigned char *b;
    struct hdr *h = recycle(n);
    if (h) {
        b = (unsigned char *)(h + 1);
    } else {
        b = top + sizeof(struct hdr) + 16;
        top = b + ((n + 15) & ~(size_t)15) + 16;
        if (top > lim) { if (write(2, "\nSIMLIMIT arena\n", 16) < 0) {} _exit(98); }
        h = (struct hdr *)(b - sizeof(struct hdr));
    }
    h->size = n; h->ord = sim_allocs; h->state = LIVE; h->task = sim_cur;
    size_t s = (b - arena) >> 3;
    for (size_t i = 0; i < pad / 8; i++) shadow[s + i] = 8;
    if (n & 7) shadow[s + n / 8] = n & 7;
    /* malloc gives no promise about contents: they differ from call to call,
     * so that an answer made from them differs from the one given alone */
    unsigned char fill = (uint32_t)sim_allocs * 0x9E3779B1u >> 24;
    for (size_t i = 0; i < n; i++) b[i] = fill;
    sim_live_blocks++; sim_live_bytes += n;
    return b;
}

/* no scheduling point: cgo calls malloc from frames that must not move */
NOSAN void *sim_malloc(size_t n) { return alloc(n, 1); }

NOSAN void *sim_calloc(size_t a, size_t b) {
    point();
    if (b && a > SIZE_MAX / b) { errno = ENOMEM; return NULL; }
    unsigned char *p = alloc(a * b, 1);
    if (p) for (size_t i = 0; i < a * b; i++) p[i] = 0;
    return p;
}

NOSAN static struct hdr *block(void *p, const char *what, void *pc) {
    if (!arena || (uintptr_t)p - (uintptr_t)arena >= ARENA) return NULL;
    struct hdr *h = (struct hdr *)((unsigned char *)p - sizeof(struct hdr));
    if (((uintptr_t)p & 7) || (unsigned char *)h < arena || (h->state != LIVE && h->state != DEAD))
        viol(what, p, 0, pc);
    if (h->state == DEAD) viol("double-free", p, h->size, pc);
    return h;
}

NOSAN static void release(void *p, void *pc) {
    struct hdr *h = block(p, "bad-free", pc);
    if (!h) { free(p); return; }
    hb(p, h->size, 1, pc);
    h->state = DEAD;
    size_t n = h->size, s = ((unsigned char *)p - arena) >> 3;
    for (size_t i = 0; i < (n + 7) / 8; i++) shadow[s + i] = 9;
    unsigned char fill = 0x80 | (uint32_t)(sim_frees * 31 + sim_allocs) * 0x9E3779B1u >> 25;
    for (size_t i = 0; i < n; i++) ((unsigned char *)p)[i] = fill;
    sim_live_blocks--; sim_live_bytes -= n; sim_frees++;
    size_t c = (n + 15) >> 4;
    if (reuse_pct && c < CLASSES) {
        h->pad = (uint64_t)(uintptr_t)freed[c];
        freed[c] = h;
    }
}

NOSAN void sim_free(void *p) { point(); if (p) release(p, PC); }

NOSAN void *sim_realloc(void *p, size_t n) {
    point();
    if (!p) return alloc(n, 1);
    struct hdr *h = block(p, "bad-realloc", PC);
    if (!h) return realloc(p, n);
    unsigned char *q = alloc(n, 1);
    if (!q) return NULL;
    size_t m = h->size < n ? h->size : n;
    for (size_t i = 0; i < m; i++) q[i] = ((unsigned char *)p)[i];
    release(p, PC);
    return q;
}

/* String functions: checked byte by byte, with a scheduling point each so a
 * preemption can fall in the middle of them. */
NOSAN static size_t slen(const char *s, void *pc) {
    size_t n = 0;
    for (;; n++) {
        if ((n & 15) == 0) point();
        check(s + n, 1, 0, pc);
        if (!s[n]) return n;
    }
}
NOSAN size_t sim_strlen(const char *s) { return slen(s, PC); }
NOSAN size_t sim_strnlen(const char *s, size_t m) {
    size_t n = 0; point();
    while (n < m) { check(s + n, 1, 0, PC); if (!s[n]) break; n++; }
    return n;
}
NOSAN static void cpy(char *d, const char *s, size_t n, void *pc) {
    check(s, n, 0, pc); check(d, n, 1, pc);
    for (size_t i = 0; i < n; i++) { if ((i & 15) == 8) { point(); check(s + i, 1, 0, pc); check(d + i, 1, 1, pc); } d[i] = s[i]; }
}
NOSAN char *sim_strdup(const char *s) {
    size_t n = slen(s, PC);
    char *d = alloc(n + 1, 1);
    if (d) cpy(d, s, n + 1, PC);
    return d;
}
NOSAN char *sim_strndup(const char *s, size_t m) {
    size_t n = sim_strnlen(s, m);
    char *d = alloc(n + 1, 1);
    if (d) { cpy(d, s, n, PC); d[n] = 0; }
    return d;
}
NOSAN int sim_vasprintf(char **out, const char *f, va_list ap) {
    char *t = NULL;
    int n = vasprintf(&t, f, ap);
    if (n < 0) return n;
    char *d = alloc(n + 1, 1);
    if (!d) { free(t); return -1; }
    memcpy(d, t, n + 1); free(t); *out = d; return n;
}
NOSAN int sim_asprintf(char **out, const char *f, ...) {
    va_list ap;
    va_start(ap, f); int n = sim_vasprintf(out, f, ap); va_end(ap);
    return n;
}
NOSAN static int sized(char *d, size_t m, const char *f, va_list ap) {
    char *t = NULL;
    int n = vasprintf(&t, f, ap);
    if (n < 0) return n;
    size_t k = (size_t)n < m ? (size_t)n : m ? m - 1 : 0;
    if (m) {
        check(d, k + 1, 1, PC);
        memcpy(d, t, k); d[k] = 0;
    }
    free(t);
    return n;
}
NOSAN int sim_vsnprintf(char *d, size_t m, const char *f, va_list ap) { return sized(d, m, f, ap); }
NOSAN int sim_snprintf(char *d, size_t m, const char *f, ...) {
    va_list ap;
    va_start(ap, f); int n = sized(d, m, f, ap); va_end(ap);
    return n;
}
NOSAN int sim_sprintf(char *d, const char *f, ...) {
    va_list ap;
    va_start(ap, f); int n = sized(d, (size_t)-1 >> 1, f, ap); va_end(ap);
    return n;
}
NOSAN void *sim_reallocarray(void *p, size_t n, size_t m) {
    if (m && n > (size_t)-1 / m) { errno = ENOMEM; return NULL; }
    return sim_realloc(p, n * m);
}
NOSAN char *sim_strcpy(char *d, const char *s) { cpy(d, s, slen(s, PC) + 1, PC); return d; }
NOSAN char *sim_strncpy(char *d, const char *s, size_t m) {
    size_t n = sim_strnlen(s, m);
    check(d, m, 1, PC);
    cpy(d, s, n, PC);
    for (; n < m; n++) d[n] = 0;
    return d;
}
NOSAN char *sim_strcat(char *d, const char *s) { cpy(d + slen(d, PC), s, slen(s, PC) + 1, PC); return d; }
NOSAN char *sim_strstr(const char *a, const char *b) { slen(a, PC); slen(b, PC); return strstr(a, b); }
NOSAN char *sim_strchr(const char *a, int c) { slen(a, PC); return strchr(a, c); }
NOSAN char *sim_strrchr(const char *a, int c) { slen(a, PC); return strrchr(a, c); }
NOSAN int sim_strcmp(const char *a, const char *b) { slen(a, PC); slen(b, PC); return strcmp(a, b); }
/* only what the comparison looks at: up to the first difference */
NOSAN static void upto(const char *a, const char *b, size_t n, int fold, void *pc) {
    for (size_t i = 0; i < n; i++) {
        if ((i & 15) == 0) point();
        check(a + i, 1, 0, pc); check(b + i, 1, 0, pc);
        int x = (unsigned char)a[i], y = (unsigned char)b[i];
        if (fold) { x = tolower(x); y = tolower(y); }
        if (x != y || !x) return;
    }
}
NOSAN int sim_strncmp(const char *a, const char *b, size_t n) { upto(a, b, n, 0, PC); return strncmp(a, b, n); }
NOSAN void *sim_memcpy(void *d, const void *s, size_t n) { point(); if (n) cpy(d, s, n, PC); return d; }
NOSAN void *sim_memmove(void *d, const void *s, size_t n) { point(); check(s, n, 0, PC); check(d, n, 1, PC); return memmove(d, s, n); }
NOSAN void *sim_memset(void *d, int c, size_t n) { point(); check(d, n, 1, PC); return memset(d, c, n); }
NOSAN int sim_memcmp(const void *a, const void *b, size_t n) { point(); check(a, n, 0, PC); check(b, n, 0, PC); return memcmp(a, b, n); }
NOSAN double sim_strtod(const char *s, char **e) { slen(s, PC); return strtod(s, e); }
NOSAN long sim_strtol(const char *s, char **e, int b) { slen(s, PC); return strtol(s, e, b); }
NOSAN long long sim_strtoll(const char *s, char **e, int b) { slen(s, PC); return strtoll(s, e, b); }
NOSAN unsigned long sim_strtoul(const char *s, char **e, int b) { slen(s, PC); return strtoul(s, e, b); }
NOSAN unsigned long long sim_strtoull(const char *s, char **e, int b) { slen(s, PC); return strtoull(s, e, b); }
NOSAN char *sim_stpcpy(char *d, const char *s) { size_t n = slen(s, PC); cpy(d, s, n + 1, PC); return d + n; }
NOSAN char *sim_strncat(char *d, const char *s, size_t m) {
    size_t n = sim_strnlen(s, m); char *e = d + slen(d, PC);
    cpy(e, s, n, PC); check(e + n, 1, 1, PC); e[n] = 0;
    return d;
}
NOSAN char *sim_strpbrk(const char *a, const char *b) { slen(a, PC); slen(b, PC); return strpbrk(a, b); }
NOSAN size_t sim_strspn(const char *a, const char *b) { slen(a, PC); slen(b, PC); return strspn(a, b); }
NOSAN size_t sim_strcspn(const char *a, const char *b) { slen(a, PC); slen(b, PC); return strcspn(a, b); }
NOSAN int sim_strcasecmp(const char *a, const char *b) { slen(a, PC); slen(b, PC); return strcasecmp(a, b); }
NOSAN int sim_strncasecmp(const char *a, const char *b, size_t n) { upto(a, b, n, 1, PC); return strncasecmp(a, b, n); }
NOSAN void *sim_memchr(const void *a, int c, size_t n) {
    void *r = memchr(a, c, n);
    check(a, r ? (size_t)((char *)r - (char *)a) + 1 : n, 0, PC);
    return r;
}

NOSAN void sim_set_countdown(void *p) { cd = p; }
NOSAN void sim_set_curptr(void *p) { curp = p; }
NOSAN void sim_set_hb(void *on, void *vc, int no_preempt) {
    hb_vc = vc; sim_no_preempt = no_preempt;
#ifndef SIM_NO_HB
    hb_on = on;
#endif
}
NOSAN void sim_fail(int64_t *at, int n) {
    nfail = 0; fail_base = sim_allocs;
    for (int i = 0; i < n && i < 16; i++) fail_at[nfail++] = at[i];
}
NOSAN void sim_reuse(int pct) { reuse_pct = pct; }
NOSAN void sim_nofail(void) { nfail = 0; }
NOSAN int64_t sim_stat(int k) {
    switch (k) {
    case 0: return sim_live_blocks;
    case 1: return sim_live_bytes;
    case 2: return sim_allocs;
    case 3: return sim_accesses;
    case 4: return sim_failed;
    case 5: return sim_frees;
    case 6: return sim_hb_checked;
    case 7: return sim_reused;
    }
    return -1;
}
