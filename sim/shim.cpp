#include <atomic>
// Simulator core, preloaded into the interpreter that runs the real package.
//
//  * heap      every C++ allocation of the extension modules (operator new/delete): seeded fill, red zones,
//              quarantine, accounting, and allocation failures on command
//  * files     open/read of the simulated data file: short reads, EINTR, errors, concurrent writers
//  * schedule  caller threads are real threads, but exactly one holds the baton; who runs next is decided
//              here, by a seeded generator or from a list, at yield points
//  * GIL       a region of C++ that gives up the GIL becomes preemptible at its allocations and mutexes
//
// Nothing here reads a clock or draws randomness that is not a function of the values it was given.
#include <cerrno>
#include <cfenv>
#include <clocale>
#include <locale>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <fcntl.h>
#include <malloc.h>
#include <csignal>
#include <iostream>
#include <exception>
#include <time.h>
#include <new>
#include <pthread.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/uio.h>
#include <sys/prctl.h>
#include <sched.h>
#include <unistd.h>

#define API extern "C" __attribute__((visibility("default")))
extern "C" {
void *__libc_malloc(size_t);
void *__libc_calloc(size_t, size_t);
void *__libc_realloc(void *, size_t);
void __libc_free(void *);
}

static inline uint64_t mix(uint64_t x) {
    x += 0x9e3779b97f4a7c15ull;
    x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull;
    x = (x ^ (x >> 27)) * 0x94d049bb133111ebull;
    return x ^ (x >> 31);
}

static void say(const char *m) { ssize_t r = ::syscall(1, 2, m, strlen(m)); (void)r; }

// ---------------------------------------------------------------------------------------------- heap

struct Block {
    uint64_t magic;
    size_t size;
    uint64_t seq;
    Block *prev, *next;
    uint64_t lead[3]; // red zone before the data
};
static const uint64_t LIVE = 0x51acf0a11c0ffee1ull, DEAD = 0x51acfdeaddeadbe2ull, ZONE = 0x5ca1ab1e5ca1ab1eull;
static const int TRAIL = 32;
static_assert(sizeof(Block) % 16 == 0, "alignment");

static pthread_mutex_t heap_lock = PTHREAD_MUTEX_INITIALIZER;
static Block live_head = {0, 0, 0, &live_head, &live_head, {0, 0, 0}};
static Block *q_head = nullptr, *q_tail = nullptr;
static size_t q_bytes = 0, q_cap = 0;
static uint64_t heap_seq = 0, live_bytes = 0, live_count = 0;
static int fill_mode = 0; // 0: leave, 1: zero, 2: ones, 3: doubles from the seed, 4: one repeated byte
static uint64_t fill_seed = 0;
static char heap_err[2048];
static int heap_err_n = 0;
static int real_lock(pthread_mutex_t *m);

static void heap_error(const char *what, Block *b, long at) {
    heap_err_n++;
    size_t n = strlen(heap_err);
    if (n < sizeof(heap_err) - 160)
        snprintf(heap_err + n, sizeof(heap_err) - n, "%s%s size=%zu at=%ld", n ? "; " : "", what,
                 b ? b->size : (size_t)0, at);
}

static void fill(unsigned char *p, size_t n, uint64_t seq) {
    switch (fill_mode) {
    case 1: memset(p, 0, n); break;
    case 2: memset(p, 0xff, n); break;
    case 3:
        for (size_t i = 0; i + 8 <= n; i += 8) {
            double d = (double)(mix(fill_seed ^ (seq * 1315423911u + i)) % 100000) / 7.0 - 5000.0;
            memcpy(p + i, &d, 8);
        }
        break;
    case 4: memset(p, (int)(mix(fill_seed) & 0x7f), n); break;
    default: break;
    }
}

static void check_block(Block *b) {
    for (int i = 0; i < 3; i++)
        if (b->lead[i] != ZONE) { heap_error("write before allocation", b, -8 * (3 - i)); b->lead[i] = ZONE; break; }
    unsigned char *t = (unsigned char *)(b + 1) + b->size;
    for (int i = 0; i < TRAIL; i++)
        if (t[i] != 0xC5) { heap_error("write past allocation", b, i); memset(t, 0xC5, TRAIL); break; }
}

// The blocks live in an arena of their own, at the same addresses in every execution of one plan, with one byte of
// shadow per eight: how many of them may be accessed. The instrumented build asks it before every load and store.
static const size_t ARENA = (size_t)1 << 30, BIGGEST = (size_t)32 << 20;
static unsigned char *arena, *shadow;
static size_t arena_used = 0;
static void *arena_free[64 * 4];
static int size_class(size_t n, size_t &rounded) { // four classes per power of two, from 64
    int e = 63 - __builtin_clzl(n | 64);
    size_t step = ((size_t)1 << e) / 4;
    size_t q = (n <= 64 ? 0 : (n - ((size_t)1 << e) + step - 1) / step);
    rounded = n <= 64 ? 64 : ((size_t)1 << e) + q * step;
    return e * 4 + (int)q; // q 4 is the first class of the next power
}
static void *arena_get(size_t n) { // heap_lock held
    if (!arena) {
        void *m = mmap((void *)0x510000000000ull, ARENA + ARENA / 8, PROT_READ | PROT_WRITE,
                       MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        if (m == MAP_FAILED) return nullptr;
        arena = (unsigned char *)m;
        shadow = arena + ARENA;
    }
    if (n > BIGGEST) return nullptr;
    size_t r;
    int c = size_class(n, r);
    if (arena_free[c]) {
        void *p = arena_free[c];
        arena_free[c] = *(void **)p;
        return p;
    }
    if (arena_used + r > ARENA) return nullptr;
    void *p = arena + arena_used;
    arena_used += r;
    return p;
}
static bool in_arena(const void *p) { return arena && (size_t)((unsigned char *)p - arena) < ARENA; }
static void arena_put(void *p, size_t n) {
    if (!in_arena(p)) { __libc_free(p); return; }
    size_t r;
    int c = size_class(n, r);
    *(void **)p = arena_free[c];
    arena_free[c] = p;
}
static void set_shadow(const void *p, size_t n, bool valid) { // p is the start of an eight byte granule
    if (!in_arena(p)) return;
    size_t g = ((unsigned char *)p - arena) / 8;
    memset(shadow + g, valid ? 8 : 0, n / 8);
    if (n % 8) shadow[g + n / 8] = valid ? n % 8 : 0;
}
static bool accessible(const unsigned char *p, size_t n) {
    if (!in_arena(p)) return true;
    for (size_t at = p - arena, end = at + n; at < end;) {
        size_t upto = (at & ~(size_t)7) + 8, last = upto < end ? upto : end;
        if ((at & 7) + (last - at) > shadow[at / 8]) return false;
        at = last;
    }
    return true;
}

static void check_dead(Block *b) {
    unsigned char *p = (unsigned char *)(b + 1);
    for (size_t i = 0; i < b->size; i++)
        if (p[i] != 0xDB) { heap_error("write after free", b, (long)i); break; }
}

// per thread operation context
struct Op {
    bool on;
    long count, fail_at, fail_n, fired, budget;
    long blocks, block_budget;
    uintptr_t st_min, st_max; // how deep the package's own code stood on the stack
    uint64_t bytes, byte_budget; // allocated and moved
    size_t fail_min;
    size_t limit; // live bytes above which every allocation fails (0: none)
};
static const uintptr_t STACK_BUDGET = 100 << 10; // many times what fixed buffers take, less than the large inputs
static thread_local Op op;
static thread_local int tls_tid = -1;
static thread_local int tls_nogil = 0;
static void sched_yield_(int kind);
static void leave_adhoc();

static inline void moved(size_t n) {
    op.bytes += n;
    if (op.byte_budget && op.bytes > op.byte_budget && op.on) { say("SIM-BUDGET bytes\n"); _exit(91); }
}
static bool cut(size_t n) { // counts an allocation; true if it has to fail
    if (op.on) {
        op.count++;
        moved(n);
        if (op.budget && op.count > op.budget) { say("SIM-BUDGET alloc\n"); _exit(91); }
        bool f = op.fail_at && op.count >= op.fail_at && op.count < op.fail_at + op.fail_n;
        if (op.fail_min && n >= op.fail_min) f = true;
        if (op.limit && live_bytes + n > op.limit) f = true;
        if (f) { op.fired++; return true; }
    }
    if (tls_nogil && tls_tid >= 0) sched_yield_(3);
    return false;
}
static void unwinding();
static void *sim_new(size_t n, bool plain = false) {
    if (cut(n)) { if (plain) return nullptr; unwinding(); throw std::bad_alloc(); }
    if (n > (size_t)1 << 40) { if (plain) return nullptr; unwinding(); throw std::bad_alloc(); }
    real_lock(&heap_lock);
    Block *b = (Block *)arena_get(sizeof(Block) + n + TRAIL);
    if (!b && plain) { pthread_mutex_unlock(&heap_lock); return __libc_malloc(n); }
    if (!b) b = (Block *)__libc_malloc(sizeof(Block) + n + TRAIL);
    if (!b) { pthread_mutex_unlock(&heap_lock); unwinding(); throw std::bad_alloc(); }
    b->magic = LIVE;
    b->size = n;
    b->lead[0] = b->lead[1] = b->lead[2] = ZONE;
    set_shadow(b + 1, n, true);
    b->seq = ++heap_seq;
    b->prev = live_head.prev;
    b->next = &live_head;
    b->prev->next = b;
    live_head.prev = b;
    live_bytes += n;
    live_count++;
    pthread_mutex_unlock(&heap_lock);
    fill((unsigned char *)(b + 1), n, b->seq);
    memset((unsigned char *)(b + 1) + n, 0xC5, TRAIL);
    return b + 1;
}

static void sim_delete(void *p) {
    if (!p) return;
    Block *b = (Block *)p - 1;
    real_lock(&heap_lock);
    if (b->magic != LIVE) {
        heap_error(b->magic == DEAD ? "double free" : "free of foreign pointer", nullptr, 0);
        pthread_mutex_unlock(&heap_lock);
        return;
    }
    check_block(b);
    b->magic = DEAD;
    b->prev->next = b->next;
    b->next->prev = b->prev;
    live_bytes -= b->size;
    live_count--;
    set_shadow(b + 1, b->size, false);
    if (q_cap) {
        memset(b + 1, 0xDB, b->size);
        b->next = nullptr;
        if (q_tail) q_tail->next = b; else q_head = b;
        q_tail = b;
        q_bytes += b->size + sizeof(Block);
        while (q_bytes > q_cap && q_head) {
            Block *o = q_head;
            q_head = o->next;
            if (!q_head) q_tail = nullptr;
            q_bytes -= o->size + sizeof(Block);
            check_dead(o);
            o->magic = 0;
            arena_put(o, sizeof(Block) + o->size + TRAIL);
        }
    } else {
        b->magic = 0;
        arena_put(b, sizeof(Block) + b->size + TRAIL);
    }
    pthread_mutex_unlock(&heap_lock);
}

__attribute__((visibility("default"))) void *operator new(size_t n) { return sim_new(n); }
__attribute__((visibility("default"))) void *operator new[](size_t n) { return sim_new(n); }
__attribute__((visibility("default"))) void *operator new(size_t n, const std::nothrow_t &) noexcept {
    try { return sim_new(n); } catch (...) { return nullptr; }
}
__attribute__((visibility("default"))) void *operator new[](size_t n, const std::nothrow_t &) noexcept {
    try { return sim_new(n); } catch (...) { return nullptr; }
}
__attribute__((visibility("default"))) void operator delete(void *p) noexcept { sim_delete(p); }
__attribute__((visibility("default"))) void operator delete[](void *p) noexcept { sim_delete(p); }
__attribute__((visibility("default"))) void operator delete(void *p, size_t) noexcept { sim_delete(p); }
__attribute__((visibility("default"))) void operator delete[](void *p, size_t) noexcept { sim_delete(p); }
__attribute__((visibility("default"))) void operator delete(void *p, const std::nothrow_t &) noexcept { sim_delete(p); }
__attribute__((visibility("default"))) void operator delete[](void *p, const std::nothrow_t &) noexcept { sim_delete(p); }

// what the package itself takes from malloc; everybody else's is left alone
static uintptr_t mod_base[2], mod_end[2];
static inline bool in_package(void *ra) {
    uintptr_t a = (uintptr_t)ra;
    return a - mod_base[0] < mod_end[0] - mod_base[0] || a - mod_base[1] < mod_end[1] - mod_base[1];
}
API void *malloc(size_t n) {
    if (!in_package(__builtin_return_address(0))) return __libc_malloc(n);
    void *p = sim_new(n, true);
    if (!p) errno = ENOMEM;
    return p;
}
API void *calloc(size_t k, size_t n) {
    if (!in_package(__builtin_return_address(0))) return __libc_calloc(k, n);
    size_t t;
    void *p = __builtin_mul_overflow(k, n, &t) ? nullptr : sim_new(t, true);
    if (!p) { errno = ENOMEM; return p; }
    return memset(p, 0, t);
}
API void free(void *p) {
    if (!in_arena(p)) __libc_free(p);
    else sim_delete(p);
}
API void *realloc(void *p, size_t n) {
    if (!in_arena(p)) {
        if (p || !in_package(__builtin_return_address(0))) return __libc_realloc(p, n);
        void *q = sim_new(n, true);
        if (!q) errno = ENOMEM;
        return q;
    }
    void *q = sim_new(n, true);
    if (!q) { errno = ENOMEM; return q; }
    size_t had = ((Block *)p - 1)->size;
    memcpy(q, p, had < n ? had : n);
    sim_delete(p);
    return q;
}

// ---- every load and store of the instrumented build
static int bad_accesses = 0;
static uint64_t accesses = 0;
static void bad_access(const unsigned char *p, size_t n, bool write, const char *what) {
    if (bad_accesses++ > 3) return;
    heap_err_n++;
    size_t u = strlen(heap_err);
    if (u < sizeof(heap_err) - 160)
        snprintf(heap_err + u, sizeof(heap_err) - u, "%s%s of %zu bytes outside %s", u ? "; " : "", write ? "write" : "read", n, what);
}
// stacks and globals have the compiler's own shadow, mapped where it is needed only
static const uintptr_t SHADOW = 0x7fff8000;
static inline signed char *shadow_of(uintptr_t p) { return (signed char *)((p >> 3) + SHADOW); }
static void map_shadow(uintptr_t lo, uintptr_t hi) {
    uintptr_t a = (uintptr_t)shadow_of(lo) & ~4095ul, b = ((uintptr_t)shadow_of(hi) + 4096) & ~4095ul;
    if (mmap((void *)a, b - a, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0) == MAP_FAILED)
        for (uintptr_t p = a; p < b; p += 4096)
            mmap((void *)p, 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
}
static thread_local uintptr_t st_lo = 0, st_hi = 0;
static void stack_begin() {
    pthread_attr_t at;
    void *p = nullptr;
    size_t n = 0;
    if (pthread_getattr_np(pthread_self(), &at)) return;
    pthread_attr_getstack(&at, &p, &n);
    pthread_attr_destroy(&at);
    uintptr_t hi = (uintptr_t)p + n, lo = n > ((size_t)256 << 20) ? hi - ((size_t)256 << 20) : (uintptr_t)p;
    map_shadow(lo, hi);
    uintptr_t sp = (uintptr_t)__builtin_frame_address(0);
    if (n <= ((size_t)64 << 20)) memset(shadow_of(lo), 0, (hi - lo) / 8);
    else memset(shadow_of(sp - 65536), 0, (hi - sp + 65536) / 8);
    st_lo = lo;
    st_hi = hi;
}
// frames about to be unwound leave nothing behind
static void unwinding() {
    uintptr_t sp = (uintptr_t)__builtin_frame_address(0);
    if (sp > st_lo && sp < st_hi) memset(shadow_of(sp & ~7ul), 0, (st_hi - sp) / 8);
}
static uintptr_t gl_lo[64], gl_hi[64];
static int gl_n = 0;
static bool poisoned(const unsigned char *p, size_t n) {
    for (uintptr_t a = (uintptr_t)p, end = a + n; a < end;) {
        uintptr_t upto = (a & ~7ul) + 8, last = upto < end ? upto : end;
        signed char s = *shadow_of(a);
        if (s && (s < 0 || (a & 7) + (last - a) > (uintptr_t)s)) return true;
        a = last;
    }
    return false;
}
static inline void access(const void *p, size_t n, bool write) {
    accesses++;
    uintptr_t a = (uintptr_t)p;
    if (in_arena(p)) {
        if (!accessible((const unsigned char *)p, n)) bad_access((const unsigned char *)p, n, write, "the live contents of the allocations");
    } else if (a - st_lo < st_hi - st_lo) {
        if (poisoned((const unsigned char *)p, n)) bad_access((const unsigned char *)p, n, write, "the live variables of the stack");
    } else
        for (int i = 0; i < gl_n; i++)
            if (a - gl_lo[i] < gl_hi[i] - gl_lo[i]) {
                if (poisoned((const unsigned char *)p, n)) bad_access((const unsigned char *)p, n, write, "the global variables");
                break;
            }
}
struct Global { uintptr_t beg, size, with_zone, name, module, dynamic, where, odr; };
API void __asan_register_globals(Global *g, size_t n) {
    uintptr_t lo = ~0ul, hi = 0;
    for (size_t i = 0; i < n; i++) {
        if (g[i].beg < lo) lo = g[i].beg;
        if (g[i].beg + g[i].with_zone > hi) hi = g[i].beg + g[i].with_zone;
    }
    if (!n || gl_n == 64 || hi - lo > ((uintptr_t)64 << 20)) return;
    lo &= ~7ul;
    map_shadow(lo, hi);
    for (size_t i = 0; i < n; i++) {
        uintptr_t b = g[i].beg, used = g[i].size;
        if (b & 7) continue;
        memset(shadow_of(b), 0, used / 8);
        memset(shadow_of(b + used / 8 * 8), -7, (g[i].with_zone - used / 8 * 8) / 8);
        if (used % 8) *shadow_of(b + used / 8 * 8) = used % 8;
    }
    gl_lo[gl_n] = lo;
    gl_hi[gl_n++] = hi;
}
API void __asan_unregister_globals(void *, size_t) {}
API void __asan_handle_no_return() { unwinding(); }
API void __asan_poison_stack_memory(uintptr_t p, size_t n) { if (p - st_lo < st_hi - st_lo) memset(shadow_of(p), -8, (n + 7) / 8); }
API void __asan_unpoison_stack_memory(uintptr_t p, size_t n) {
    if (p - st_lo >= st_hi - st_lo) return;
    memset(shadow_of(p), 0, n / 8);
    if (n % 8) *shadow_of(p + n) = n % 8;
}
API void __asan_alloca_poison(uintptr_t p, size_t n) {
    if (p - st_lo >= st_hi - st_lo) return;
    size_t r = (n + 31) & ~(size_t)31;
    memset(shadow_of(p - 32), -54, 4);
    memset(shadow_of(p), 0, r / 8);
    memset(shadow_of(p + (n & ~7ul)), -53, (r - (n & ~7ul)) / 8 + 4);
    if (n % 8) *shadow_of(p + (n & ~7ul)) = n % 8;
}
API void __asan_allocas_unpoison(uintptr_t top, uintptr_t bottom) {
    if (top && top < bottom && top - st_lo < st_hi - st_lo) memset(shadow_of(top), 0, (bottom - top) / 8);
}
API void __cxa_throw(void *x, void *t, void (*d)(void *)) {
    static void (*real)(void *, void *, void (*)(void *));
    if (!real) real = (void (*)(void *, void *, void (*)(void *)))dlsym(RTLD_NEXT, "__cxa_throw");
    unwinding();
    real(x, t, d);
    __builtin_unreachable();
}
API void __cxa_rethrow() {
    static void (*real)();
    if (!real) real = (void (*)())dlsym(RTLD_NEXT, "__cxa_rethrow");
    unwinding();
    real();
    __builtin_unreachable();
}
#define HOOKS(n) \
    API void __asan_load##n##_noabort(const void *p) { access(p, n, false); } \
    API void __asan_store##n##_noabort(const void *p) { access(p, n, true); }
HOOKS(1) HOOKS(2) HOOKS(4) HOOKS(8) HOOKS(16)
API void __asan_loadN_noabort(const void *p, size_t n) { access(p, n, false); }
API void __asan_storeN_noabort(const void *p, size_t n) { access(p, n, true); }
API void *__asan_memcpy(void *d, const void *s, size_t n) { if (n) { moved(n); access(s, n, false); access(d, n, true); } return memcpy(d, s, n); }
API void *__asan_memmove(void *d, const void *s, size_t n) { if (n) { moved(n); access(s, n, false); access(d, n, true); } return memmove(d, s, n); }
API void *__asan_memset(void *d, int c, size_t n) { if (n) { moved(n); access(d, n, true); } return memset(d, c, n); }
API void __asan_before_dynamic_init(const char *) {}
API void __asan_after_dynamic_init() {}
API void __asan_init() {}
API void __asan_version_mismatch_check_v8() {}
API void __sanitizer_annotate_contiguous_container(const void *beg, const void *end, const void *, const void *mid) {
    const unsigned char *b = (const unsigned char *)beg, *m = (const unsigned char *)mid, *e = (const unsigned char *)end;
    if (!in_arena(b) || ((uintptr_t)b & 7) || e <= b) return;
    set_shadow(b, e - b, false);
    set_shadow(b, m - b, true);
}
API uint64_t shim_accesses() { return accesses; }

API void shim_heap_config(int mode, uint64_t seed, uint64_t quarantine) {
    fill_mode = mode;
    fill_seed = seed;
    q_cap = quarantine;
}
API void shim_malloc_info(uint64_t *out) {
    struct mallinfo2 m = mallinfo2();
    out[0] = m.uordblks;
    out[1] = m.hblkhd;
}
API uint64_t shim_heap_seq() { return heap_seq; }
API uint64_t shim_live_count() { return live_count; }
API uint64_t shim_live_bytes() { return live_bytes; }
API uint64_t shim_live_since(uint64_t seq, uint64_t *bytes, char *buf, uint64_t len) {
    // allocations made after seq that are still live
    uint64_t n = 0, by = 0;
    size_t used = 0;
    if (len) buf[0] = 0;
    for (Block *b = live_head.next; b != &live_head; b = b->next)
        if (b->seq > seq) {
            n++;
            by += b->size;
            if (used + 32 < len) used += snprintf(buf + used, len - used, "%zu ", b->size);
        }
    *bytes = by;
    return n;
}
API int shim_heap_check(char *buf, uint64_t len) {
    for (Block *b = live_head.next; b != &live_head; b = b->next) {
        if (b->magic != LIVE) { heap_error("corrupt header", nullptr, 0); break; }
        check_block(b);
    }
    for (Block *b = q_head; b; b = b->next) check_dead(b);
    if (len) { strncpy(buf, heap_err, len - 1); buf[len - 1] = 0; }
    return heap_err_n;
}
API void shim_op_begin(long fail_at, long fail_n, uint64_t fail_min, uint64_t limit, long budget, long block_budget, uint64_t byte_budget) {
    op.count = op.fired = op.blocks = 0;
    op.bytes = 0;
    op.byte_budget = byte_budget;
    op.block_budget = block_budget;
    op.st_min = ~(uintptr_t)0;
    op.st_max = 0;
    op.fail_at = fail_at;
    op.fail_n = fail_n;
    op.fail_min = fail_min;
    op.limit = limit ? live_bytes + limit : 0;
    op.budget = budget;
    op.on = true;
}
API void shim_op_end(long *out) {
    op.on = false;
    out[0] = op.count;
    out[1] = op.fired;
    out[2] = op.blocks;
    out[3] = (long)op.bytes;
    leave_adhoc();
}
API long shim_op_fired() { return op.fired; }
// a call made from inside another one on the same thread keeps its own books
static thread_local Op op_stack[16];
static thread_local int op_depth = 0;
API void shim_op_push() {
    if (op_depth < 16) op_stack[op_depth] = op;
    op_depth++;
    op.on = false;
}
API void shim_op_pop() {
    op_depth--;
    if (op_depth < 16) op = op_stack[op_depth];
}

// ------------------------------------------------------------------------------------------ schedule

enum { MAXT = 256, MAXSW = 1 << 16 };
static pthread_mutex_t s_lock = PTHREAD_MUTEX_INITIALIZER;
static pthread_cond_t s_cond[MAXT], s_start;
static int s_n = 0, s_state[MAXT], s_cur = -1, s_entered = 0, s_running = 0;
static uint64_t s_rng, s_p, s_yields = 0, s_nlist = 0, s_pos = 0;
static int s_mode = 0; // 0: seeded, 1: list
static uint64_t s_list_at[MAXSW];
static int s_list_to[MAXSW];
static uint64_t s_log_at[MAXSW];
static int s_log_to[MAXSW];
static uint64_t s_nlog = 0, s_hash = 0, s_kind[8], s_blocked = 0;

static int (*p_lock)(pthread_mutex_t *);
static int real_lock(pthread_mutex_t *m) {
    if (!p_lock) p_lock = (int (*)(pthread_mutex_t *))dlsym(RTLD_NEXT, "pthread_mutex_lock");
    return p_lock(m);
}

// threads the package itself starts: they take part, but never hold the interpreter lock
static bool s_spawned[MAXT];
static pthread_t s_handle[MAXT];
static int s_gil_owner = -1; // a thread that waits in native code and keeps the interpreter lock: only native threads can run
static bool s_adhoc = false;
static uint64_t s_spawn_count = 0;
static bool s_nogil[MAXT]; // it gave the interpreter lock up: it can go on while another thread waits with the lock in hand
static bool eligible(int i) { return s_state[i] == 1 && (s_gil_owner < 0 || s_spawned[i] || s_nogil[i] || i == s_gil_owner); }

API void shim_sched_init(int n, int mode, uint64_t seed, uint64_t p_ppm, uint64_t nlist, const uint64_t *at, const int *to) {
    s_n = n;
    s_mode = mode;
    s_rng = mix(seed);
    s_p = p_ppm;
    s_nlist = nlist > MAXSW ? MAXSW : nlist;
    for (uint64_t i = 0; i < s_nlist; i++) { s_list_at[i] = at[i]; s_list_to[i] = to[i]; }
    s_pos = s_yields = s_nlog = s_hash = s_blocked = 0;
    s_entered = s_running = 0;
    s_cur = -1;
    memset(s_kind, 0, sizeof s_kind);
    s_gil_owner = -1;
    for (int i = 0; i < MAXT; i++) { s_state[i] = 0; s_spawned[i] = s_nogil[i] = false; pthread_cond_init(&s_cond[i], nullptr); }
    pthread_cond_init(&s_start, nullptr);
}

static uint64_t draw(uint64_t n) { s_rng = mix(s_rng); return n ? s_rng % n : 0; }

// the thread to run next, given that 'stay' (or nobody, -1) may keep running. Called with the lock held.
static int choose(int stay) {
    int cand[MAXT], nc = 0;
    for (int i = 0; i < s_n; i++)
        if (eligible(i) && i != stay) cand[nc++] = i;
    uint64_t at = s_yields;
    int to = -1;
    if (s_mode == 1) {
        while (s_pos < s_nlist && s_list_at[s_pos] < at) s_pos++;
        if (s_pos < s_nlist && s_list_at[s_pos] == at) {
            int w = s_list_to[s_pos++];
            for (int i = 0; i < nc; i++) if (cand[i] == w) to = w;
        }
        if (to < 0 && stay < 0 && nc) to = cand[0];
    } else if (nc) {
        if (stay < 0) to = cand[draw(nc)];
        else if (draw(1000000) < s_p) to = cand[draw(nc)];
    }
    if (to < 0) to = stay;
    if (to >= 0 && to != stay && s_nlog < MAXSW) { s_log_at[s_nlog] = at; s_log_to[s_nlog++] = to; }
    if (to != stay) s_hash = mix(s_hash ^ (at * 31 + (uint64_t)(to + 1)));
    return to;
}

static void hand_over(int to, int me) {
    if (to == me) return;
    s_cur = to;
    if (to >= 0) pthread_cond_signal(&s_cond[to]);
    if (me >= 0) while (s_cur != me) pthread_cond_wait(&s_cond[me], &s_lock);
}

API void shim_thread_enter(int tid) {
    real_lock(&s_lock);
    tls_tid = tid;
    s_state[tid] = 1;
    s_nogil[tid] = false;
    s_entered++;
    pthread_cond_signal(&s_start);
    while (s_cur != tid) pthread_cond_wait(&s_cond[tid], &s_lock);
    pthread_mutex_unlock(&s_lock);
}
API void shim_sched_start() {
    real_lock(&s_lock);
    while (s_entered < s_n) pthread_cond_wait(&s_start, &s_lock);
    s_running = 1;
    hand_over(choose(-1), -1);
    pthread_mutex_unlock(&s_lock);
}
API void shim_thread_exit() {
    if (tls_tid < 0) return;
    real_lock(&s_lock);
    int me = tls_tid;
    tls_tid = -1;
    s_state[me] = 2;
    s_yields++;
    int to = choose(-1);
    s_cur = to;
    if (to >= 0) pthread_cond_signal(&s_cond[to]);
    pthread_mutex_unlock(&s_lock);
}
// the rest of the program stands still from here on, the caller goes on alone
API void shim_sched_halt() { tls_tid = -1; }
static void sched_yield_(int kind) {
    if (tls_tid < 0) return;
    real_lock(&s_lock);
    s_yields++;
    s_kind[kind & 7]++;
    hand_over(choose(tls_tid), tls_tid);
    pthread_mutex_unlock(&s_lock);
}
API void shim_yield(int kind) { sched_yield_(kind); }
static void deadlock_() { say("SIM-DEADLOCK\n"); _exit(92); }
// the caller cannot go on: somebody else must run
API int shim_yield_blocked() {
    if (tls_tid < 0) return 0;
    real_lock(&s_lock);
    s_yields++;
    if (++s_blocked > 200000) { deadlock_(); }
    int me = tls_tid, to = -1;
    for (int d = 1; d < s_n; d++) {
        int i = (me + d) % s_n;
        if (eligible(i)) { to = i; break; }
    }
    if (to < 0) deadlock_();
    s_hash = mix(s_hash ^ (s_yields * 131 + (uint64_t)(to + 1)));
    hand_over(to, me);
    pthread_mutex_unlock(&s_lock);
    return 1;
}
API int shim_tid() { return tls_tid; }
API uint64_t shim_yields() { return s_yields; }
API uint64_t shim_sched_hash() { return s_hash; }
API uint64_t shim_kind(int k) { return s_kind[k & 7]; }
API uint64_t shim_sched_log(uint64_t *at, int *to, uint64_t cap) {
    uint64_t n = s_nlog < cap ? s_nlog : cap;
    for (uint64_t i = 0; i < n; i++) { at[i] = s_log_at[i]; to[i] = s_log_to[i]; }
    return s_nlog;
}

static void wait_native(bool (*ready)(void *), void *arg) {
    bool own = !tls_nogil;
    while (!ready(arg)) {
        if (own) s_gil_owner = tls_tid;
        shim_yield_blocked();
        if (own) s_gil_owner = -1;
    }
}
static bool native_caller(void *ra) {
    Dl_info i;
    return dladdr(ra, &i) && i.dli_fname && (strstr(i.dli_fname, "libstdc++") || strstr(i.dli_fname, "/sacf/"));
}
// a mutex of the package must not block the baton holder; held by nobody who could ever release it, it is a deadlock
API int pthread_mutex_lock(pthread_mutex_t *m) {
    if (!p_lock) p_lock = (int (*)(pthread_mutex_t *))dlsym(RTLD_NEXT, "pthread_mutex_lock");
    if (m == &s_lock || m == &heap_lock) return p_lock(m);
    if (tls_tid >= 0) {
        if (tls_nogil) sched_yield_(4);
        int r = pthread_mutex_trylock(m);
        if (r != EBUSY || !(tls_nogil || native_caller(__builtin_return_address(0)))) return r == EBUSY ? p_lock(m) : r;
        struct A { pthread_mutex_t *m; int r; } a = {m, EBUSY};
        wait_native([](void *x) { A *a = (A *)x; return (a->r = pthread_mutex_trylock(a->m)) != EBUSY; }, &a);
        return a.r;
    }
    if (op.on) {
        int r = pthread_mutex_trylock(m);
        if (r != EBUSY || !native_caller(__builtin_return_address(0))) return r == EBUSY ? p_lock(m) : r;
        timespec t;
        clock_gettime(CLOCK_REALTIME, &t);
        t.tv_sec += 10;
        r = pthread_mutex_timedlock(m, &t);
        if (r == ETIMEDOUT) deadlock_();
        return r;
    }
    return p_lock(m);
}

// ---- threads started by the package or by the standard library on its behalf
struct Spawn { void *(*fn)(void *); void *arg; int tid; };
static void *spawn_main(void *a) {
    Spawn s = *(Spawn *)a;
    free(a);
    stack_begin();
    real_lock(&s_lock);
    tls_tid = s.tid;
    tls_nogil = 1;
    while (s_cur != s.tid) pthread_cond_wait(&s_cond[s.tid], &s_lock);
    pthread_mutex_unlock(&s_lock);
    void *r = s.fn(s.arg);
    shim_thread_exit();
    return r;
}
static int free_slot() { // a place whose thread ended and was joined, or a new one
    for (int i = 0; i < s_n; i++)
        if (s_spawned[i] && s_state[i] == 2 && !s_handle[i]) return i;
    return s_n < MAXT ? s_n : -1;
}
struct Plain { void *(*fn)(void *); void *arg; };
static void *plain_main(void *v) {
    Plain p = *(Plain *)v;
    __libc_free(v);
    stack_begin();
    return p.fn(p.arg);
}
typedef int (*create_t)(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *);
API int pthread_create(pthread_t *t, const pthread_attr_t *at, void *(*fn)(void *), void *arg) {
    static create_t real;
    if (!real) real = (create_t)dlsym(RTLD_NEXT, "pthread_create");
    if (!(tls_tid >= 0 || op.on) || !native_caller(__builtin_return_address(0)) || free_slot() < 0) {
        Plain *p = (Plain *)__libc_malloc(sizeof(Plain));
        *p = {fn, arg};
        return real(t, at, plain_main, p);
    }
    if (tls_tid < 0) { // a call made outside the threaded phase: this thread is the only other one
        shim_sched_init(1, 0, fill_seed + 1, 100000, 0, nullptr, nullptr);
        s_adhoc = true;
        tls_tid = 0;
        s_state[0] = 1;
        s_cur = 0;
    }
    Spawn *s = (Spawn *)malloc(sizeof(Spawn));
    real_lock(&s_lock);
    int tid = free_slot();
    if (tid < 0) tid = s_n ? s_n : 1;
    *s = {fn, arg, tid};
    pthread_cond_init(&s_cond[tid], nullptr);
    int r = real(t, at, spawn_main, s);
    if (r == 0) {
        if (tid == s_n) s_n++;
        s_state[tid] = 1;
        s_spawned[tid] = true;
        s_handle[tid] = *t;
        s_spawn_count++;
    }
    pthread_mutex_unlock(&s_lock);
    if (tls_nogil) sched_yield_(3);
    return r;
}
API int pthread_detach(pthread_t t) {
    static int (*real)(pthread_t);
    if (!real) real = (int (*)(pthread_t))dlsym(RTLD_NEXT, "pthread_detach");
    if (tls_tid >= 0)
        for (int i = 0; i < s_n; i++)
            if (s_spawned[i] && s_handle[i] == t) s_handle[i] = 0;
    return real(t);
}
API uint64_t shim_spawned() { return s_spawn_count; }
API int pthread_join(pthread_t t, void **ret) {
    static int (*real)(pthread_t, void **);
    if (!real) real = (int (*)(pthread_t, void **))dlsym(RTLD_NEXT, "pthread_join");
    if (tls_tid >= 0)
        for (long i = 0; i < s_n; i++)
            if (s_spawned[i] && s_handle[i] == t) {
                wait_native([](void *a) { return s_state[(long)a] == 2; }, (void *)i);
                s_handle[i] = 0;
                break;
            }
    return real(t, ret);
}
static bool native_wait() { return tls_tid >= 0 && (s_spawned[tls_tid] || s_spawn_count); }
API int pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) {
    static int (*real)(pthread_cond_t *, pthread_mutex_t *);
    if (!real) real = (int (*)(pthread_cond_t *, pthread_mutex_t *))dlvsym(RTLD_NEXT, "pthread_cond_wait", "GLIBC_2.3.2");
    if (m == &s_lock || !native_wait() || !native_caller(__builtin_return_address(0))) return real(c, m);
    pthread_mutex_unlock(m);
    bool once = false; // waking for no reason is allowed
    wait_native([](void *a) { bool r = *(bool *)a; *(bool *)a = true; return r; }, &once);
    return pthread_mutex_lock(m);
}
// std::future
extern "C" __attribute__((visibility("default"))) bool
_ZNSt28__atomic_futex_unsigned_base19_M_futex_wait_untilEPjjbNSt6chrono8durationIlSt5ratioILl1ELl1EEEENS2_IlS3_ILl1ELl1000000000EEEE(
    void *self, unsigned *addr, unsigned val, bool has_timeout, long s, long ns) {
    typedef bool (*fn_t)(void *, unsigned *, unsigned, bool, long, long);
    static fn_t real;
    if (!real)
        real = (fn_t)dlsym(RTLD_NEXT, "_ZNSt28__atomic_futex_unsigned_base19_M_futex_wait_untilEPjjbNSt6chrono8durationIlSt5ratioILl1ELl1EEEENS2_IlS3_ILl1ELl1000000000EEEE");
    if (!native_wait()) return real(self, addr, val, has_timeout, s, ns);
    struct A { unsigned *p, v; } a = {addr, val};
    wait_native([](void *x) { A *a = (A *)x; return __atomic_load_n(a->p, __ATOMIC_ACQUIRE) != a->v; }, &a);
    return true;
}
static void leave_adhoc() {
    if (s_adhoc && tls_tid == 0) {
        // whatever the call left running gets to run now
        for (int k = 0; k < 10000; k++) {
            bool any = false;
            for (int i = 1; i < s_n; i++) any |= s_state[i] == 1;
            if (!any) break;
            s_gil_owner = 0;
            shim_yield_blocked();
            s_gil_owner = -1;
        }
        s_adhoc = false;
        tls_tid = -1;
    }
}

// ---- basic blocks of the instrumented build: progress, coverage, and preemption where the interpreter lock is given up
static uintptr_t cov_base[2], cov_end[2];
API void shim_modules(int m, uint64_t base, uint64_t end) {
    mod_base[m] = base;
    mod_end[m] = end;
}
static unsigned char *cov_map[2];
API void shim_cov_init(int m, uint64_t base, uint64_t end) {
    cov_base[m] = base;
    cov_end[m] = end;
    cov_map[m] = (unsigned char *)mmap(nullptr, end - base, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
}
API uint64_t shim_cov_read(int m, uint64_t *out, uint64_t cap) {
    uint64_t n = 0;
    for (uintptr_t i = 0; cov_map[m] && i < cov_end[m] - cov_base[m]; i++)
        if (cov_map[m][i]) { if (n < cap) out[n] = i; n++; }
    return n;
}
extern "C" __attribute__((visibility("default"))) void __sanitizer_cov_trace_pc() {
    uintptr_t pc = (uintptr_t)__builtin_return_address(0);
    for (int m = 0; m < 2; m++)
        if (pc - cov_base[m] < cov_end[m] - cov_base[m]) cov_map[m][pc - cov_base[m]] = 1;
    op.blocks++;
    uintptr_t here = (uintptr_t)__builtin_frame_address(0);
    if (here < op.st_min) op.st_min = here;
    if (here > op.st_max) op.st_max = here;
    if (op.block_budget && op.st_max - op.st_min > STACK_BUDGET) { say("SIM-BUDGET stack\n"); _exit(91); }
    if (op.block_budget && op.blocks > op.block_budget) { say("SIM-BUDGET blocks\n"); _exit(91); }
    if (tls_nogil && tls_tid >= 0) sched_yield_(2);
}

static uint64_t s_nogil_regions = 0;
API uint64_t shim_nogil_regions() { return s_nogil_regions; }
API void *PyPyEval_SaveThread() {
    static void *(*real)();
    if (!real) real = (void *(*)())dlsym(RTLD_NEXT, "PyPyEval_SaveThread");
    void *s = real();
    if (tls_tid >= 0) {
        tls_nogil++;
        s_nogil[tls_tid] = true;
        s_nogil_regions++;
        sched_yield_(5);
    }
    return s;
}
API void PyPyEval_RestoreThread(void *s) {
    static void (*real)(void *);
    if (!real) real = (void (*)(void *))dlsym(RTLD_NEXT, "PyPyEval_RestoreThread");
    if (tls_tid >= 0 && tls_nogil > 0) {
        sched_yield_(6);
        while (s_gil_owner >= 0 && s_gil_owner != tls_tid) shim_yield_blocked(); // the lock is not to be had yet
        if (!--tls_nogil) s_nogil[tls_tid] = false;
    }
    real(s);
}

// --------------------------------------------------------------------------------------------- files

struct IoEvent { int kind; int pad; int64_t a; };
// kinds: 0 plain, 1 at most a bytes, 2 EINTR, 3 error a, 4 truncate the file to a first, 5 append first, 6 end of file now
enum { MAXEV = 4096, MAXFD = 1024, MAXIO = 20 };
struct Io { // one file being loaded: its faults, and what its reader has seen
    char path[1024];
    IoEvent ev[MAXEV];
    int nev, cycle, openfail, openerr, pipe;
    char *append;
    size_t appendlen;
    uint64_t opens, reads, fired[8];
    char *got;
    size_t gotlen, gotcap;
    bool ended;
};
static Io ios[MAXIO];
static Io *io_fd[MAXFD];
static Io &mine() { return ios[tls_tid < 0 ? 0 : 1 + tls_tid % (MAXIO - 1)]; }

API void shim_io_arm(const char *path, int nev, const IoEvent *ev, int cycle, int openfail, int openerr, int pipe, const char *app, uint64_t applen) {
    Io &o = mine();
    o.pipe = pipe;
    strncpy(o.path, path, sizeof o.path - 1);
    o.nev = nev > MAXEV ? MAXEV : nev;
    for (int i = 0; i < o.nev; i++) o.ev[i] = ev[i];
    o.cycle = cycle;
    o.openfail = openfail;
    o.openerr = openerr;
    free(o.append);
    o.append = (char *)malloc(applen + 1);
    memcpy(o.append, app, applen);
    o.appendlen = applen;
    o.opens = o.reads = 0;
    o.ended = false;
    memset(o.fired, 0, sizeof o.fired);
    o.gotlen = 0;
}
API void shim_io_disarm() { mine().path[0] = 0; }
API void shim_io_stats(uint64_t *out) {
    Io &o = mine();
    out[0] = o.opens;
    out[1] = o.reads;
    for (int i = 0; i < 8; i++) out[2 + i] = o.fired[i];
    out[10] = o.gotlen;
}
API void shim_io_got(char *buf) { memcpy(buf, mine().got, mine().gotlen); }

// a relative name of it
static bool same_place(const char *path, const char *full) {
    size_t n = strlen(path), m = strlen(full);
    char cwd[1024];
    if (path[0] == '/' || !n || n + 1 >= m || strcmp(full + m - n, path) || full[m - n - 1] != '/') return false;
    return getcwd(cwd, sizeof cwd) && strlen(cwd) == m - n - 1 && !memcmp(cwd, full, m - n - 1);
}
static Io *armed(const char *path) {
    if (path)
        for (Io &o : ios)
            if (o.path[0] && (!strcmp(path, o.path) || same_place(path, o.path))) return &o;
    return nullptr;
}
static bool refuse(Io *o) {
    if (o->openfail > 0) {
        o->openfail--;
        o->fired[7]++;
        errno = o->openerr;
        return true;
    }
    return false;
}
template <class F> static F next(const char *name) { return (F)dlsym(RTLD_NEXT, name); }
static void mark(Io *o, int fd) {
    if (fd < 0 || fd >= MAXFD) return;
    io_fd[fd] = o;
    o->opens++;
}

// stdio reads inside libc, out of reach: a stream the package itself opens reads through here instead
struct Cookie { FILE *f; int fd; };
static Cookie cookies[64];
extern "C" ssize_t read(int fd, void *buf, size_t n);
extern "C" int close(int fd);
static ssize_t cookie_read(void *c, char *buf, size_t n) { return read(((Cookie *)c)->fd, buf, n); }
static int cookie_seek(void *c, off64_t *at, int whence) {
    off_t r = lseek(((Cookie *)c)->fd, *at, whence);
    if (r >= 0) *at = r;
    return r < 0 ? -1 : 0;
}
static int cookie_close(void *c) {
    ((Cookie *)c)->f = nullptr;
    return close(((Cookie *)c)->fd);
}
static FILE *own_stream(int fd) {
    for (Cookie &c : cookies)
        if (!c.f) {
            c.fd = fd;
            return c.f = fopencookie(&c, "r", {cookie_read, nullptr, cookie_seek, cookie_close});
        }
    return nullptr;
}
API int fileno(FILE *f) {
    for (Cookie &c : cookies)
        if (f && c.f == f) return c.fd;
    static int (*real)(FILE *);
    if (!real) real = next<int (*)(FILE *)>("fileno");
    return real(f);
}
// what is written, made, moved or removed outside of the simulator's own handling of data files
static __thread int tls_own;
static std::atomic<long> n_written{0};
static char last_written[160];
static void wrote(const char *path) {
    if (tls_own || !path || !strncmp(path, "/dev/", 5) || !strncmp(path, "/proc/", 6)) return;
    n_written++;
    snprintf(last_written, sizeof last_written, "%s", path);
}
API void shim_own(int on) { tls_own = on; }
static FILE *do_fopen(const char *name, const char *path, const char *mode, void *from) {
    auto real = next<FILE *(*)(const char *, const char *)>(name);
    if (strpbrk(mode, "wa+")) wrote(path);
    Io *a = armed(path);
    if (a && refuse(a)) return nullptr;
    if (a && in_package(from) && mode[0] == 'r' && !strchr(mode, '+')) {
        int fd = next<int (*)(const char *, int, ...)>("open")(path, O_RDONLY | (strchr(mode, 'e') ? O_CLOEXEC : 0), 0);
        if (fd < 0) return nullptr;
        mark(a, fd);
        return own_stream(fd);
    }
    FILE *f = real(path, mode);
    if (a && f) mark(a, fileno(f));
    return f;
}
API FILE *fopen(const char *path, const char *mode) { return do_fopen("fopen", path, mode, __builtin_return_address(0)); }
API FILE *fopen64(const char *path, const char *mode) { return do_fopen("fopen64", path, mode, __builtin_return_address(0)); }
API FILE *fdopen(int fd, const char *mode) {
    static FILE *(*real)(int, const char *);
    if (!real) real = next<FILE *(*)(int, const char *)>("fdopen");
    return fd >= 0 && fd < MAXFD && io_fd[fd] && in_package(__builtin_return_address(0)) ? own_stream(fd) : real(fd, mode);
}
// a pipe has no positions and no size
static bool piped(int fd) { return fd >= 0 && fd < MAXFD && io_fd[fd] && io_fd[fd]->pipe; }
static off_t do_lseek(int fd, off_t at, int whence) {
    static off_t (*real)(int, off_t, int);
    if (!real) real = next<off_t (*)(int, off_t, int)>("lseek");
    if (piped(fd)) { errno = ESPIPE; return -1; }
    return real(fd, at, whence);
}
API off_t lseek(int fd, off_t at, int whence) { return do_lseek(fd, at, whence); }
API off64_t lseek64(int fd, off64_t at, int whence) { return do_lseek(fd, at, whence); }
static int do_stat(int r, struct stat *s, bool pipe) {
    if (!r && pipe) {
        s->st_mode = (s->st_mode & ~S_IFMT) | S_IFIFO;
        s->st_size = s->st_blocks = 0;
    }
    return r;
}
static bool pipe_at(const char *path) { Io *a = armed(path); return a && a->pipe; }
API int fstat(int fd, struct stat *s) { return do_stat(next<int (*)(int, struct stat *)>("fstat")(fd, s), s, piped(fd)); }
API int fstat64(int fd, struct stat64 *s) { return fstat(fd, (struct stat *)s); }
API int stat(const char *path, struct stat *s) { return do_stat(next<int (*)(const char *, struct stat *)>("stat")(path, s), s, pipe_at(path)); }
API int stat64(const char *path, struct stat64 *s) { return stat(path, (struct stat *)s); }
static int do_open(const char *name, const char *path, int flags, mode_t mode) {
    auto real = next<int (*)(const char *, int, ...)>(name);
    if ((flags & O_ACCMODE) != O_RDONLY || flags & (O_CREAT | O_TRUNC)) wrote(path);
    Io *a = armed(path);
    if (a && refuse(a)) return -1;
    int fd = real(path, flags, mode);
    if (a) mark(a, fd);
    return fd;
}
API int open(const char *path, int flags, ...) {
    va_list ap; va_start(ap, flags); mode_t m = va_arg(ap, mode_t); va_end(ap);
    return do_open("open", path, flags, m);
}
API int open64(const char *path, int flags, ...) {
    va_list ap; va_start(ap, flags); mode_t m = va_arg(ap, mode_t); va_end(ap);
    return do_open("open64", path, flags, m);
}
static int do_openat(const char *name, int dir, const char *path, int flags, mode_t mode) {
    auto real = next<int (*)(int, const char *, int, ...)>(name);
    if ((flags & O_ACCMODE) != O_RDONLY || flags & (O_CREAT | O_TRUNC)) wrote(path);
    Io *a = armed(path);
    if (a && refuse(a)) return -1;
    int fd = real(dir, path, flags, mode);
    if (a) mark(a, fd);
    return fd;
}
API int openat(int dir, const char *path, int flags, ...) {
    va_list ap; va_start(ap, flags); mode_t m = va_arg(ap, mode_t); va_end(ap);
    return do_openat("openat", dir, path, flags, m);
}
API int openat64(int dir, const char *path, int flags, ...) {
    va_list ap; va_start(ap, flags); mode_t m = va_arg(ap, mode_t); va_end(ap);
    return do_openat("openat64", dir, path, flags, m);
}
API int unlink(const char *p) { wrote(p); return next<int (*)(const char *)>("unlink")(p); }
API int remove(const char *p) { wrote(p); return next<int (*)(const char *)>("remove")(p); }
API int rename(const char *a, const char *b) { wrote(b); return next<int (*)(const char *, const char *)>("rename")(a, b); }
API int mkdir(const char *p, mode_t m) { wrote(p); return next<int (*)(const char *, mode_t)>("mkdir")(p, m); }
API int rmdir(const char *p) { wrote(p); return next<int (*)(const char *)>("rmdir")(p); }
API int truncate(const char *p, off_t n) { wrote(p); return next<int (*)(const char *, off_t)>("truncate")(p, n); }
API int chmod(const char *p, mode_t m) { wrote(p); return next<int (*)(const char *, mode_t)>("chmod")(p, m); }
API int mkstemp(char *p) { wrote(p); return next<int (*)(char *)>("mkstemp")(p); }
API FILE *tmpfile() { wrote("(temporary)"); return next<FILE *(*)()>("tmpfile")(); }
API int fclose(FILE *f) {
    auto real = next<int (*)(FILE *)>("fclose");
    int fd = f ? fileno(f) : -1;
    if (fd >= 0 && fd < MAXFD) io_fd[fd] = 0;
    return real(f);
}
API int close(int fd) {
    static int (*real)(int);
    if (!real) real = next<int (*)(int)>("close");
    if (fd >= 0 && fd < MAXFD) io_fd[fd] = 0;
    return real(fd);
}
static ssize_t (*r_read)(int, void *, size_t);
API ssize_t read(int fd, void *buf, size_t n) {
    if (!r_read) r_read = next<ssize_t (*)(int, void *, size_t)>("read");
    if (fd < 0 || fd >= MAXFD || !io_fd[fd]) return r_read(fd, buf, n);
    Io &o = *io_fd[fd];
    if (tls_nogil && tls_tid >= 0) sched_yield_(7);
    if (o.ended) return 0;
    IoEvent e = {0, 0, 0};
    if (o.nev && (o.cycle || o.reads < (uint64_t)o.nev)) e = o.ev[o.reads % o.nev];
    o.reads++;
    if (o.reads > 2000000 + 4 * o.gotlen) { say("SIM-BUDGET reads\n"); _exit(91); }
    o.fired[e.kind & 7]++;
    switch (e.kind) {
    case 1: if ((size_t)e.a < n) n = (size_t)e.a; break;
    case 2: errno = EINTR; return -1;
    case 3: errno = (int)e.a; return -1;
    case 4: if (truncate(o.path, e.a)) {} break;
    case 5: {
        auto ropen = next<int (*)(const char *, int, ...)>("open");
        int w = ropen(o.path, O_WRONLY | O_APPEND, 0);
        if (w >= 0) {
            if (write(w, o.append, o.appendlen)) {}
            auto rclose = next<int (*)(int)>("close");
            rclose(w);
        }
        break;
    }
    case 6: o.ended = true; return 0;
    default: break;
    }
    static off_t (*r_lseek)(int, off_t, int);
    if (!r_lseek) r_lseek = next<off_t (*)(int, off_t, int)>("lseek");
    off_t at = o.pipe ? r_lseek(fd, o.gotlen, SEEK_SET) : r_lseek(fd, 0, SEEK_CUR); // what was read from a pipe is gone
    ssize_t r = r_read(fd, buf, n);
    if (r > 0) { // what the reader has seen, by position: reading a part again is not more data
        size_t p = at < 0 ? o.gotlen : (size_t)at;
        if (p + r > o.gotcap) { o.gotcap = 2 * (p + r); o.got = (char *)realloc(o.got, o.gotcap); }
        if (p > o.gotlen) memset(o.got + o.gotlen, 0, p - o.gotlen);
        memcpy(o.got + p, buf, r);
        if (p + r > o.gotlen) o.gotlen = p + r;
    }
    return r;
}
// positioned reads count as reads
API ssize_t pread(int fd, void *buf, size_t n, off_t at) {
    static ssize_t (*real)(int, void *, size_t, off_t);
    if (!real) real = next<ssize_t (*)(int, void *, size_t, off_t)>("pread");
    if (fd < 0 || fd >= MAXFD || !io_fd[fd]) return real(fd, buf, n, at);
    if (piped(fd)) { errno = ESPIPE; return -1; }
    off_t was = do_lseek(fd, 0, SEEK_CUR);
    do_lseek(fd, at, SEEK_SET);
    ssize_t r = read(fd, buf, n);
    int e = errno;
    do_lseek(fd, was, SEEK_SET);
    errno = e;
    return r;
}
API ssize_t pread64(int fd, void *buf, size_t n, off64_t at) { return pread(fd, buf, n, at); }
API ssize_t __read_chk(int fd, void *buf, size_t n, size_t) { return read(fd, buf, n); }
API ssize_t readv(int fd, const struct iovec *v, int c) {
    auto real = next<ssize_t (*)(int, const struct iovec *, int)>("readv");
    if (fd < 0 || fd >= MAXFD || !io_fd[fd] || c < 1) return real(fd, v, c);
    return read(fd, v[0].iov_base, v[0].iov_len);
}

// 1: the C locale of the process, 2: the C++ one
API int shim_setlocale(const char *name, int which) {
    bool ok = true;
    if (which & 1) ok = setlocale(LC_NUMERIC, name) != nullptr;
    if (which & 2) {
        try { std::locale::global(std::locale(name)); } catch (...) { ok = false; }
        if (!(which & 1)) setlocale(LC_NUMERIC, "C");
    }
    return ok;
}
// rounding as in fenv.h; denormal numbers flushed or not
API void shim_fenv(int rounding, int ftz) {
    fesetround(rounding);
    unsigned mx;
    asm volatile("stmxcsr %0" : "=m"(mx));
    mx = ftz ? mx | 0x8040 : mx & ~0x8040u;
    asm volatile("ldmxcsr %0" : : "m"(mx));
}
// in the child after a fork: the other threads are gone
static void forked() {
    tls_tid = -1;
    tls_nogil = 0;
    op.on = false;
    s_n = 0;
    s_gil_owner = -1;
    s_adhoc = false;
    s_spawn_count = 0;
    for (int i = 0; i < MAXT; i++) { s_state[i] = 0; s_spawned[i] = s_nogil[i] = false; s_handle[i] = 0; }
}

__attribute__((constructor)) static void at_fork() { stack_begin(); pthread_atfork(nullptr, nullptr, forked); }

// what a call must leave as it was; 'thread': the part every thread has of its own
API void shim_state(int thread, char *buf, uint64_t len) {
    size_t n = 0;
    auto put = [&](const char *name, const char *v) { if (n < len) n += snprintf(buf + n, len - n, "%s=%s\n", name, v); };
    auto num = [&](const char *name, long v) { char t[32]; snprintf(t, sizeof t, "%lx", v); put(name, t); };
    if (thread) {
        unsigned mx = 0;
        unsigned short cw = 0;
        asm volatile("stmxcsr %0" : "=m"(mx));
        asm volatile("fnstcw %0" : "=m"(cw));
        num("SSE control", mx & ~0x3f);
        num("x87 control", cw);
        put("thread locale", uselocale((locale_t)0) == LC_GLOBAL_LOCALE ? "global" : "own");
        sigset_t s;
        pthread_sigmask(SIG_BLOCK, nullptr, &s);
        unsigned long w = 0;
        for (int i = 1; i < 64; i++) if (sigismember(&s, i) == 1) w |= 1ul << i;
        num("signal mask", w);
        char name[17] = {0};
        prctl(PR_GET_NAME, name);
        put("thread name", name);
        cpu_set_t cpus;
        CPU_ZERO(&cpus);
        sched_getaffinity(0, sizeof cpus, &cpus);
        num("processors allowed", CPU_COUNT(&cpus));
        num("scheduling policy", sched_getscheduler(0));
        return;
    }
    std::cout.flush();
    std::clog.flush();
    fflush(nullptr);
    put("C locale", setlocale(LC_ALL, nullptr));
    uint64_t env = 14695981039346656037ull; // what getenv sees; os.environ is a copy
    for (char **e = environ; e && *e; e++) {
        uint64_t one = 14695981039346656037ull;
        for (const char *c = *e; *c; c++) one = (one ^ (unsigned char)*c) * 1099511628211ull;
        env += one;
    }
    num("C environment", (long)env);
    char made[200];
    snprintf(made, sizeof made, "%ld %s", n_written.load(), last_written);
    put("number of files written, made or removed", made);
    put("C++ locale", std::locale().name().c_str());
    for (int i = 1; i < 65; i++) {
        struct sigaction a;
        if (i == 32 || i == 33 || sigaction(i, nullptr, &a)) continue;
        char t[24];
        snprintf(t, sizeof t, "signal %d", i);
        num(t, (long)(void *)a.sa_handler ^ a.sa_flags);
    }
    num("new handler", (long)(void *)std::get_new_handler());
    num("terminate handler", (long)(void *)std::get_terminate());
    std::ostream *o[] = {&std::cout, &std::cerr, &std::clog};
    for (auto *x : o) {
        num("stream flags", x->flags());
        num("stream precision", x->precision());
        num("stream state", x->rdstate() * 2 + (x->exceptions() ? 1 : 0));
    }
    num("stream sync", (long)(void *)std::cin.rdbuf() ^ (long)(void *)std::cout.rdbuf());
}
API int shim_present() { return 1; }
