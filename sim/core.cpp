#include "core.h"
#include <cstdarg>
#include <utility>
#include <cstdlib>
#include <cerrno>
#include <new>
#include <fcntl.h>
#include <unistd.h>
#include <sys/mman.h>
#include <link.h>
#include <pthread.h>
#include <time.h>
#include <sys/time.h>
#include <sanitizer/asan_interface.h>

Shm *shm;
thread_local volatile int in_lib;
const char *fault_name[] = {"short_read", "empty_read", "short_write", "zero_room", "corrupt_bytes", "truncate_input",
    "reset_mid_stream", "flush_small_buffer", "alloc_fail", "realloc_moves", "dirty_memory", "preempt_inside_call",
    "migrate_descriptor", "relocate_buffer", "errno_noise", "locale_switch", "splice_streams", "unencodable_char",
    "byte_order_mark_mid_text", "reuse_freed_address", "size_query_mid_stream", "state_preload", "capacity_sweep", "neighbouring_codes"};
bool verbose;
std::string trace_text;
FILE *trace_file;
static uint64_t ev_hash;
static uint64_t s4[4], n4;
static const uint32_t *rp_tape; static size_t rp_len, rp_pos; static bool replaying; bool want_long;

static inline uint64_t splitmix(uint64_t &x) { uint64_t z = (x += 0x9E3779B97F4A7C15ull); z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
static inline uint64_t rotl(uint64_t x, int k) { return (x << k) | (x >> (64 - k)); }
static inline uint64_t prng() { uint64_t r = rotl(s4[1] * 5, 7) * 9, t = s4[1] << 17; s4[2] ^= s4[0]; s4[3] ^= s4[1]; s4[1] ^= s4[2]; s4[0] ^= s4[3]; s4[2] ^= t; s4[3] = rotl(s4[3], 45); return r; }
uint32_t noise() { return (uint32_t)splitmix(n4); }

uint32_t draw(uint32_t n) {
    if (n <= 1) return 0;
    uint32_t v;
    if (replaying) { v = rp_pos < rp_len ? rp_tape[rp_pos] % n : 0; rp_pos++; }
    else if (want_long && n == LONG_KIND) v = n - 1;
    else v = (uint32_t)(((prng() >> 32) * (uint64_t)n) >> 32);
    uint32_t k = shm->tape_len;
    if (k >= TAPE_MAX) throw EndRun();
    shm->tape[k] = v; shm->tape_len = k + 1;
    return v;
}

void mix(uint64_t v) { ev_hash = (ev_hash ^ v) * 0x100000001B3ull; ev_hash ^= ev_hash >> 29; }
void mix(const Bytes &b) { mix(b.size()); for (unsigned char c : b) ev_hash = (ev_hash ^ c) * 0x100000001B3ull; ev_hash ^= ev_hash >> 29; }
uint64_t run_hash() { return ev_hash; }
void logf(const char *fmt, ...) {
    if (!verbose) return;
    char buf[4096]; va_list ap; va_start(ap, fmt); vsnprintf(buf, sizeof buf, fmt, ap); va_end(ap);
    if (trace_file) { fputs(buf, trace_file); fputc('\n', trace_file); fflush(trace_file); }
}
std::string hex(const Bytes &b, size_t max) {
    std::string r; char t[4];
    for (size_t i = 0; i < b.size() && i < max; i++) { snprintf(t, 4, "%s%02x", i ? " " : "", (unsigned char)b[i]); r += t; }
    if (b.size() > max) r += " ...(" + std::to_string(b.size()) + " bytes)";
    if (b.empty()) r = "(empty)";
    return r;
}
void fail(const char *cls, const char *fmt, ...) {
    char buf[4000]; va_list ap; va_start(ap, fmt); vsnprintf(buf, sizeof buf, fmt, ap); va_end(ap);
    int was = in_lib; in_lib = 0; Violation v{cls, buf}; in_lib = was; throw std::move(v);
}

// ---- guarded buffers -------------------------------------------------------------------------------------
static uint32_t errn;
void Guard::init(size_t sz) {
    size = sz;
    base = (char *)mmap(nullptr, sz, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (base == MAP_FAILED) abort();
    __asan_poison_memory_region(base, sz); win = nullptr; len = 0;
}
char *Guard::open(size_t n, unsigned mis) {
    if (win) close();
    if (n + 128 > size) throw EndRun();
    win = base + 64 + (mis & 7); len = n;
    __asan_unpoison_memory_region(win, n);
    return win;
}
void Guard::close() { if (win) { __asan_poison_memory_region(win, len); win = nullptr; } }

// ---- library entry ---------------------------------------------------------------------------------------
thread_local uint64_t lib_steps, lib_step_limit = ~0ull;
void enter_lib(uint64_t lim) { lib_steps = 0; lib_step_limit = lim; in_lib = in_lib + 1; shm->calls++; }
void leave_lib() { in_lib = in_lib - 1; shm->steps += lib_steps; lib_step_limit = ~0ull; }

static void die(const char *cls, const char *msg) {
    if (shm->status != 3) {
        snprintf(shm->cls, sizeof shm->cls, "%s", cls);
        snprintf(shm->msg, sizeof shm->msg, "%s", msg);
        shm->hash = ev_hash; shm->status = 3;
    }
    _exit(66);
}
static __attribute__((noinline)) void hang() { die("hang", "a library call exceeded its step budget (does not terminate or crawls)"); }

// ---- instrumentation callbacks ---------------------------------------------------------------------------
static uint32_t n_guards;
struct Rng { char *a; size_t n; };
static std::vector<Rng> *guard_secs;
extern "C" {
void __sanitizer_cov_trace_pc_guard_init(uint32_t *a, uint32_t *b) {
    if (a == b || *a) return;
    for (uint32_t *p = a; p < b; p++) *p = ++n_guards < COV_MAX ? n_guards : COV_MAX - 1;
    if (!guard_secs) guard_secs = new std::vector<Rng>;
    guard_secs->push_back({(char *)a, (size_t)((char *)b - (char *)a)});
}
void __sanitizer_cov_trace_pc_guard(uint32_t *g) {
    if (!shm) return;
    shm->cov[*g] = 1;
    if (++lib_steps > lib_step_limit) hang();
    if (sched_on && --sched_budget < 0) sched_point();
}
static inline void mem_access(const void *p) {
    if (sched_on) {
        if (lib_is_shared_rw(p)) sched_budget -= 12; else sched_budget--;
        if (sched_budget < 0) sched_point();
    }
}
#define ACC(n) void __sanitizer_cov_load##n(void *p) { mem_access(p); } void __sanitizer_cov_store##n(void *p) { mem_access(p); }
ACC(1) ACC(2) ACC(4) ACC(8) ACC(16)
// the C library's string functions: a preemption may fall before or after them
static inline void touch(const void *a, const void *b) { if (sched_on) { mem_access(a); mem_access(b); } }
#define STR2(ret, name, args, a, b, call) ret sim_##name args { touch(a, b); auto r = call; touch(a, b); return r; }
STR2(void *, memcpy, (void *d, const void *s, size_t n), d, s, memcpy(d, s, n))
STR2(void *, memmove, (void *d, const void *s, size_t n), d, s, memmove(d, s, n))
STR2(void *, memset, (void *d, int c, size_t n), d, d, memset(d, c, n))
void *sim_asan_memcpy(void *d, const void *s, size_t n) { return sim_memcpy(d, s, n); }
void *sim_asan_memmove(void *d, const void *s, size_t n) { return sim_memmove(d, s, n); }
void *sim_asan_memset(void *d, int c, size_t n) { return sim_memset(d, c, n); }
STR2(int, memcmp, (const void *d, const void *s, size_t n), d, s, memcmp(d, s, n))
STR2(void *, memchr, (const void *s, int c, size_t n), s, s, (void *)memchr(s, c, n))
STR2(size_t, strlen, (const char *s), s, s, strlen(s))
STR2(size_t, strnlen, (const char *s, size_t n), s, s, strnlen(s, n))
STR2(int, strcmp, (const char *d, const char *s), d, s, strcmp(d, s))
STR2(int, strncmp, (const char *d, const char *s, size_t n), d, s, strncmp(d, s, n))
STR2(int, strcasecmp, (const char *d, const char *s), d, s, strcasecmp(d, s))
STR2(int, strncasecmp, (const char *d, const char *s, size_t n), d, s, strncasecmp(d, s, n))
STR2(char *, strcpy, (char *d, const char *s), d, s, strcpy(d, s))
STR2(char *, stpcpy, (char *d, const char *s), d, s, stpcpy(d, s))
STR2(char *, strncpy, (char *d, const char *s, size_t n), d, s, strncpy(d, s, n))
STR2(char *, strcat, (char *d, const char *s), d, s, strcat(d, s))
STR2(char *, strncat, (char *d, const char *s, size_t n), d, s, strncat(d, s, n))
STR2(char *, strchr, (const char *s, int c), s, s, (char *)strchr(s, c))
STR2(char *, strrchr, (const char *s, int c), s, s, (char *)strrchr(s, c))
STR2(char *, strstr, (const char *d, const char *s), d, s, (char *)strstr(d, s))
int sim_vsnprintf(char *d, size_t n, const char *f, va_list a) { touch(d, f); int r = vsnprintf(d, n, f, a); touch(d, f); return r; }
int sim_snprintf(char *d, size_t n, const char *f, ...) { va_list a; va_start(a, f); int r = sim_vsnprintf(d, n, f, a); va_end(a); return r; }
int sim_sprintf(char *d, const char *f, ...) { va_list a; va_start(a, f); touch(d, f); int r = vsprintf(d, f, a); touch(d, f); va_end(a); return r; }
}

// ---- simulated allocator -----------------------------------------------------------------------------------
// Slots in a private region; deterministic addresses, dirty contents, exact poisoned bounds, optional address reuse.
enum { SLOTS = 512, SLOT_BIG = 64 };
static char *heap_base; static const size_t HEAP_SMALL = 2048, HEAP_BIG = 4u << 20;
struct Slot { size_t size; bool used; bool ever; };
static Slot slot[SLOTS + SLOT_BIG];
struct FreeList {                  // most recent last; fixed storage, because it is used while library code runs
    int v[66]; size_t n = 0;
    size_t size() const { return n; } int operator[](size_t k) const { return v[k]; } void clear() { n = 0; }
    void drop(size_t k) { for (size_t i = k + 1; i < n; i++) v[i - 1] = v[i]; n--; } void push(int x) { if (n == 64) drop(0); v[n++] = x; }
};
static FreeList freed;
static int next_small, next_big;
static size_t live_n, live_b; static uint64_t alloc_cnt;
AllocPlan alloc_plan; bool alloc_reuse = true, alloc_zero = false;
static char *slot_ptr(int i) { return i < SLOTS ? heap_base + (size_t)i * HEAP_SMALL + 64 : heap_base + (size_t)SLOTS * HEAP_SMALL + (size_t)(i - SLOTS) * HEAP_BIG + 64; }
static int slot_of(const void *p) {
    const char *c = (const char *)p;
    if (c < heap_base || c >= heap_base + (size_t)SLOTS * HEAP_SMALL + (size_t)SLOT_BIG * HEAP_BIG) return -1;
    size_t o = c - heap_base;
    int i = o < (size_t)SLOTS * HEAP_SMALL ? (int)(o / HEAP_SMALL) : SLOTS + (int)((o - (size_t)SLOTS * HEAP_SMALL) / HEAP_BIG);
    return i;
}
size_t heap_live() { return live_n; }
size_t heap_live_bytes() { return live_b; }
uint64_t heap_count() { return alloc_cnt; }
bool heap_owns(const void *p) { int i = slot_of(p); return i >= 0 && slot[i].used && slot_ptr(i) == p; }
void heap_reset() {
    if (!heap_base) {
        size_t tot = (size_t)SLOTS * HEAP_SMALL + (size_t)SLOT_BIG * HEAP_BIG;
        heap_base = (char *)mmap(nullptr, tot, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        if (heap_base == MAP_FAILED) abort();
        __asan_poison_memory_region(heap_base, tot);
    }
    for (int i = 0; i < SLOTS + SLOT_BIG; i++) { if (slot[i].used) __asan_poison_memory_region(slot_ptr(i), slot[i].size); slot[i] = Slot{}; }
    freed.clear(); next_small = 0; next_big = SLOTS; live_n = live_b = alloc_cnt = 0; alloc_plan = AllocPlan(); alloc_reuse = true; alloc_zero = false;
}
static void fill(char *p, size_t n) {       // dirty, seed-dependent contents; cheap for big blocks
    if (alloc_zero) { memset(p, 0, n); return; }
    uint32_t x = noise() | 1; size_t m = n < 4096 ? n : 4096;
    for (size_t i = 0; i < m; i++) { x = x * 1664525u + 1013904223u; p[i] = (char)(x >> 24); }
    if (n) fault(F_DIRTY_MEM);
}
static bool plan_fails(size_t n) {
    if (!alloc_plan.on || n < alloc_plan.min_size) return false;
    if (alloc_plan.skip) { alloc_plan.skip--; return false; }
    if (alloc_plan.fired >= alloc_plan.count) return false;
    alloc_plan.fired++; fault(F_ALLOC_FAIL); mix(0xA110C); logf("    [allocator] request for %zu bytes FAILS", n);
    return true;
}
static void *raw_alloc(size_t n) {
    alloc_cnt++;
    bool big = n + 128 > HEAP_SMALL;
    if (big && n + 128 > HEAP_BIG) return nullptr;
    int s = -1;
    if (alloc_reuse) for (size_t k = freed.size(); k-- > 0;) if ((freed[k] >= SLOTS) == big) { s = freed[k]; freed.drop(k); fault(F_REUSE_ADDR); break; }
    if (s < 0 && !big && next_small < SLOTS) s = next_small++;
    if (s < 0 && big && next_big < SLOTS + SLOT_BIG) s = next_big++;
    if (s < 0) for (size_t k = freed.size(); k-- > 0;) if ((freed[k] >= SLOTS) == big) { s = freed[k]; freed.drop(k); break; }
    if (s < 0) throw EndRun();
    slot[s] = Slot{n, true, true};
    char *p = slot_ptr(s); __asan_unpoison_memory_region(p, n); fill(p, n);
    live_n++; live_b += n;
    return p;
}
extern "C" {
void *sim_malloc(size_t n) {
    if (plan_fails(n)) { errno = ENOMEM; return nullptr; }
    void *p = raw_alloc(n); if (!p) errno = ENOMEM; return p;
}
void *sim_calloc(size_t a, size_t b) {
    size_t n; if (__builtin_mul_overflow(a, b, &n)) { errno = ENOMEM; return nullptr; }
    void *p = sim_malloc(n); if (p) { char *c = (char *)p; for (size_t i = 0; i < n; i++) ((volatile char *)c)[i] = 0; } return p;
}
void sim_free(void *p) {
    if (!p) return;
    int s = slot_of(p);
    if (s < 0) { free(p); return; }
    if (slot_ptr(s) != p || !slot[s].ever) die("bad-free", "the library freed a pointer that is not an allocation");
    if (!slot[s].used) die("double-free", "the library freed a block twice");
    fill((char *)p, slot[s].size);
    __asan_poison_memory_region(p, slot[s].size);
    slot[s].used = false; live_n--; live_b -= slot[s].size; freed.push(s);
}
void *sim_realloc(void *p, size_t n) {
    if (!p) return sim_malloc(n);
    int s = slot_of(p);
    if (s < 0) return realloc(p, n);
    if (slot_ptr(s) != p || !slot[s].used) die("bad-realloc", "the library reallocated a block it does not own");
    if (n == 0) { sim_free(p); return nullptr; }            // glibc behaviour
    if (plan_fails(n)) { errno = ENOMEM; return nullptr; }
    char *q = (char *)raw_alloc(n); if (!q) { errno = ENOMEM; return nullptr; }
    size_t m = slot[s].size < n ? slot[s].size : n;
    for (size_t i = 0; i < m; i++) ((volatile char *)q)[i] = ((char *)p)[i];
    fault(F_REALLOC_MOVE); sim_free(p);
    return q;
}
void *sim_reallocarray(void *p, size_t a, size_t b) { size_t n; if (__builtin_mul_overflow(a, b, &n)) { errno = ENOMEM; return nullptr; } return sim_realloc(p, n); }
char *sim_strdup(const char *s) { size_t n = strlen(s) + 1; char *p = (char *)sim_malloc(n); if (p) memcpy(p, s, n); return p; }
char *sim_strndup(const char *s, size_t k) { size_t n = strnlen(s, k); char *p = (char *)sim_malloc(n + 1); if (p) { memcpy(p, s, n); p[n] = 0; } return p; }
void *sim_aligned_alloc(size_t, size_t n) { return sim_malloc(n); }   // slots are 64-byte aligned
int sim_posix_memalign(void **r, size_t, size_t n) { void *p = sim_malloc(n); if (!p) return ENOMEM; *r = p; return 0; }

// time and randomness: pure functions of the seed
static uint64_t sim_clock;
time_t sim_time(time_t *t) { time_t v = 1700000000 + (time_t)(sim_clock += 1 + noise() % 7); if (t) *t = v; return v; }
clock_t sim_clockfn(void) { return (clock_t)(sim_clock += 1 + noise() % 1000); }
int sim_clock_gettime(clockid_t, struct timespec *ts) { sim_clock += noise() % 1000; ts->tv_sec = 1700000000 + sim_clock / 1000; ts->tv_nsec = noise() % 1000000000; return 0; }
int sim_gettimeofday(struct timeval *tv, void *) { sim_clock += noise() % 1000; tv->tv_sec = 1700000000 + sim_clock / 1000; tv->tv_usec = noise() % 1000000; return 0; }
int sim_rand(void) { return (int)(noise() >> 1); }
long sim_random(void) { return (long)(noise() >> 1); }

// blocking primitives: cooperative under the simulated scheduler
int sim_pthread_mutex_lock(pthread_mutex_t *m) {
    for (;;) { int r = pthread_mutex_trylock(m); if (r != EBUSY) return r; if (!sched_block()) die("deadlock", "library blocks on a mutex no other thread can release"); }
}
int sim_mtx_lock(void *m) { return sim_pthread_mutex_lock((pthread_mutex_t *)m); }
int sim_pthread_rwlock_rdlock(pthread_rwlock_t *m) { for (;;) { int r = pthread_rwlock_tryrdlock(m); if (r != EBUSY && r != EAGAIN) return r; if (!sched_block()) die("deadlock", "rwlock"); } }
int sim_pthread_rwlock_wrlock(pthread_rwlock_t *m) { for (;;) { int r = pthread_rwlock_trywrlock(m); if (r != EBUSY) return r; if (!sched_block()) die("deadlock", "rwlock"); } }
int sim_pthread_spin_lock(pthread_spinlock_t *m) { for (;;) { int r = pthread_spin_trylock(m); if (r != EBUSY) return r; if (!sched_block()) die("deadlock", "spinlock"); } }
int sim_pthread_once(pthread_once_t *o, void (*f)(void)) {
    volatile int *v = (volatile int *)o;                       // 0 = initial; private values 1 running, 2 done
    for (;;) {
        if (*v == 2) return 0;
        if (*v == 0) { *v = 1; f(); *v = 2; return 0; }
        if (!sched_block()) die("deadlock", "once-initialisation waits for itself");
    }
}
void sim_call_once(int *o, void (*f)(void)) { sim_pthread_once((pthread_once_t *)o, f); }
int sim_cxa_guard_acquire(uint64_t *g) {
    volatile unsigned char *b = (volatile unsigned char *)g;
    for (;;) {
        if (b[0]) return 0;
        if (!b[1]) { b[1] = 1; return 1; }
        if (!sched_block()) die("deadlock", "static initialisation waits for itself");
    }
}
void sim_cxa_guard_release(uint64_t *g) { volatile unsigned char *b = (volatile unsigned char *)g; b[0] = 1; b[1] = 0; }
void sim_cxa_guard_abort(uint64_t *g) { volatile unsigned char *b = (volatile unsigned char *)g; b[1] = 0; }
int sim_sched_yield(void) { sched_block(); return 0; }
}

// operator new/delete: the library's C++ part allocates through these
void *operator new(size_t n) {
    if (in_lib) { if (plan_fails(n)) throw std::bad_alloc(); void *p = raw_alloc(n ? n : 1); if (!p) throw std::bad_alloc(); return p; }
    void *p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); return p;
}
void *operator new[](size_t n) { return operator new(n); }
void *operator new(size_t n, const std::nothrow_t &) noexcept { try { return operator new(n); } catch (...) { return nullptr; } }
void *operator new[](size_t n, const std::nothrow_t &) noexcept { try { return operator new(n); } catch (...) { return nullptr; } }
void operator delete(void *p) noexcept { if (p && slot_of(p) >= 0 && heap_base) sim_free(p); else free(p); }
void operator delete[](void *p) noexcept { operator delete(p); }
void operator delete(void *p, size_t) noexcept { operator delete(p); }
void operator delete[](void *p, size_t) noexcept { operator delete(p); }

// ---- library globals -----------------------------------------------------------------------------------------
struct Seg { char *a; size_t n; std::string copy; };
static std::vector<Seg> segs; static Seg tls_seg; static bool have_tls;
static char *rw_lo, *rw_hi;
static void raw_copy(void *d, const void *s, size_t n) { asm volatile("rep movsb" : "+D"(d), "+S"(s), "+c"(n)::"memory"); }
static int phdr_cb(struct dl_phdr_info *i, size_t, void *want_tls) {
    if (!strstr(i->dlpi_name, "libsut")) return 0;
    if (want_tls) { *(void **)want_tls = i->dlpi_tls_data; return 1; }
    char *relro_a = nullptr, *relro_b = nullptr;
    for (int k = 0; k < i->dlpi_phnum; k++) if (i->dlpi_phdr[k].p_type == PT_GNU_RELRO) { relro_a = (char *)i->dlpi_addr + i->dlpi_phdr[k].p_vaddr; relro_b = relro_a + i->dlpi_phdr[k].p_memsz; relro_b = (char *)(((uintptr_t)relro_b + 4095) & ~4095ull); }
    for (int k = 0; k < i->dlpi_phnum; k++) {
        auto &h = i->dlpi_phdr[k];
        if (h.p_type == PT_TLS) { have_tls = true; tls_seg.n = h.p_memsz; tls_seg.copy.assign(h.p_memsz, 0); raw_copy(&tls_seg.copy[0], (char *)i->dlpi_addr + h.p_vaddr, h.p_filesz); }
        if (h.p_type != PT_LOAD || !(h.p_flags & PF_W)) continue;
        char *a = (char *)i->dlpi_addr + h.p_vaddr, *b = a + h.p_memsz;
        if (relro_a && a < relro_b && b > relro_a) { if (b <= relro_b) continue; a = relro_b; }
        // cut out the coverage guards
        std::vector<Rng> todo{{a, (size_t)(b - a)}};
        if (guard_secs) for (auto &g : *guard_secs) {
            std::vector<Rng> nx;
            for (auto &t : todo) {
                char *x = t.a, *y = t.a + t.n, *ga = g.a, *gb = g.a + g.n;
                if (gb <= x || ga >= y) { nx.push_back(t); continue; }
                if (ga > x) nx.push_back({x, (size_t)(ga - x)});
                if (gb < y) nx.push_back({gb, (size_t)(y - gb)});
            }
            todo = nx;
        }
        for (auto &t : todo) segs.push_back(Seg{t.a, t.n, std::string()});
        if (!rw_lo || a < rw_lo) rw_lo = a;
        if (b > rw_hi) rw_hi = b;
    }
    return 1;
}
size_t lib_rw_bytes() { size_t n = 0; for (auto &s : segs) n += s.n; return n; }
bool lib_is_shared_rw(const void *p) { return (char *)p >= rw_lo && (char *)p < rw_hi; }
void lib_snapshot() {
    segs.clear(); dl_iterate_phdr(phdr_cb, nullptr);
    for (auto &s : segs) { s.copy.resize(s.n); raw_copy(&s.copy[0], s.a, s.n); }
}
void lib_restore_tls() {
    if (!have_tls) return;
    void *p = nullptr; dl_iterate_phdr(phdr_cb, &p);
    if (p) raw_copy(p, tls_seg.copy.data(), tls_seg.n);
}
void lib_restore() { for (auto &s : segs) raw_copy(s.a, s.copy.data(), s.n); lib_restore_tls(); }

static void on_death() {
    if (shm && shm->status == 0) {
        const char *d = __asan_get_report_description();
        snprintf(shm->cls, sizeof shm->cls, "crash:%s", d && *d ? d : "signal");
        snprintf(shm->msg, sizeof shm->msg, "the library crashed (%s), in_lib=%d", d ? d : "signal", in_lib);
        if (!in_lib) { snprintf(shm->cls, sizeof shm->cls, "harness-crash:%s", d ? d : "?"); }
        shm->hash = ev_hash; shm->status = 3;
    }
}
extern "C" const char *__asan_default_options() {
    return "detect_leaks=0:handle_abort=2:handle_segv=2:handle_sigfpe=2:handle_sigill=2:handle_sigbus=2:abort_on_error=0:exitcode=66:"
           "allocator_may_return_null=1:detect_stack_use_after_return=0:symbolize=0:print_legend=0:print_full_thread_history=0:"
           "allow_user_poisoning=1:poison_array_cookie=0:intercept_tls_get_addr=0:quarantine_size_mb=8:max_redzone=64:strict_string_checks=0:detect_odr_violation=0";
}
bool known_finding(const char *key) { static const char *k = getenv("SIM_KNOWN"); if (!k) return false; std::string a = std::string(",") + k + ","; return a.find(std::string(",") + key + ",") != std::string::npos; }
void core_init(const char *path) {
    int flags = MAP_SHARED; int fd = -1;
    if (path) { fd = open(path, O_RDWR | O_CREAT, 0644); if (fd < 0 || ftruncate(fd, sizeof(Shm)) != 0) { perror("shm"); _exit(70); } }
    else flags |= MAP_ANONYMOUS;
    shm = (Shm *)mmap(nullptr, sizeof(Shm), PROT_READ | PROT_WRITE, flags, fd, 0);
    if (shm == MAP_FAILED) { perror("mmap"); _exit(70); }
    if (fd >= 0) close(fd);
    __asan_set_death_callback(on_death);
    heap_reset();
}
void run_begin(uint64_t seed, uint64_t run, const uint32_t *tape, size_t len) {
    uint64_t x = seed * 0xD1342543DE82EF95ull + run * 0x9E3779B97F4A7C15ull + 0x1234567;
    for (auto &s : s4) s = splitmix(x);
    replaying = tape != nullptr; rp_tape = tape; rp_len = len; rp_pos = 0;
    n4 = replaying ? 0x5eed : splitmix(x);
    // fill noise must be the same in search and replay: derive it from the run's first recorded choice
    ev_hash = 0xcbf29ce484222325ull; sim_clock = 0; errn = 0; trace_text.clear();
    shm->run = run; shm->tape_len = 0; shm->status = 0; shm->cls[0] = 0; shm->msg[0] = 0;
    in_lib = 0; heap_reset(); lib_restore();
    n4 = 0x5eed + draw(1 << 16);
}
