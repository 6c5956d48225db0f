// Simulator core: choice tape, event log, violations, guarded buffers, simulated allocator, seams.
#pragma once
#include <cstdint>
#include <cstddef>
#include <cstdio>
#include <cstring>
#include <string>
#include <vector>
#include <stdexcept>
typedef std::basic_string<unsigned char> bytes_base;
typedef std::string Bytes;

// ---- shared page: survives a crash of the simulated process --------------------------------------------
enum { TAPE_MAX = 1 << 20, COV_MAX = 1 << 18, NFAULT = 32 };
struct Shm {
    volatile uint64_t run;          // index of the run in progress
    volatile uint64_t done;         // runs finished
    volatile uint32_t tape_len;
    volatile uint32_t status;       // 0 running, 1 ok, 2 violation, 3 died inside the library
    volatile uint32_t skipped;      // runs that ended early (nothing to judge)
    volatile uint64_t hash;
    volatile uint64_t calls, steps, preempts, migrations, bytes_in, bytes_out, runs_nontrivial;
    volatile uint64_t fault[NFAULT];
    volatile uint64_t probe[64];
    char cls[96];
    char msg[4096];
    uint32_t tape[TAPE_MAX];
    uint8_t cov[COV_MAX];
};
extern Shm *shm;

// fault kinds actually injected (counted when they fire)
enum FaultKind { F_SHORT_READ, F_EMPTY_READ, F_SHORT_WRITE, F_FULL_ZERO, F_CORRUPT, F_TRUNCATE, F_RESET_MID, F_FLUSH_SMALL,
    F_ALLOC_FAIL, F_REALLOC_MOVE, F_DIRTY_MEM, F_PREEMPT, F_MIGRATE, F_RELOCATE, F_ERRNO_NOISE, F_LOCALE_SWITCH, F_SPLICE,
    F_UNENCODABLE, F_BOM_MID, F_REUSE_ADDR, F_QUERY_MID, F_STATE_PRELOAD, F_SIZE_SWEEP, F_BLOCK, F_LAST };
extern const char *fault_name[];
static inline void fault(FaultKind k, uint64_t n = 1) { shm->fault[k] += n; }

// ---- choices ---------------------------------------------------------------------------------------------
constexpr uint32_t LONG_KIND = 10000000;             // a run of the rare, long kind; a search begins with a few of them (want_long)
extern bool want_long;
uint32_t draw(uint32_t n);                       // [0,n); 0 is always the "plainest" choice
inline bool long_kind() { return draw(LONG_KIND) == LONG_KIND - 1; }
static inline uint32_t range(uint32_t lo, uint32_t hi) { return lo + draw(hi - lo + 1); }
static inline bool chance(uint32_t num, uint32_t den) { return draw(den) >= den - num; }   // value 0 => false
template <class T> static inline const T &pick(const std::vector<T> &v) { return v[draw((uint32_t)v.size())]; }
uint32_t noise();                                // derived from the seed, not on the tape (fill patterns only)

// ---- log -------------------------------------------------------------------------------------------------
extern bool verbose;
extern std::string trace_text;
void mix(uint64_t v);
void mix(const Bytes &b);
void logf(const char *fmt, ...) __attribute__((format(printf, 1, 2)));   // only formats when verbose
std::string hex(const Bytes &b, size_t max = 96);

// ---- violations --------------------------------------------------------------------------------------------
struct Violation { std::string cls, msg; };
struct EndRun {};                                // nothing to judge in this run
[[noreturn]] void fail(const char *cls, const char *fmt, ...) __attribute__((format(printf, 2, 3)));
#define REQUIRE(cond, cls, ...) do { if (!(cond)) fail(cls, __VA_ARGS__); } while (0)

// ---- guarded buffers ---------------------------------------------------------------------------------------
// A window of exactly `len` accessible bytes; everything around it is poisoned for the instrumented library.
struct Guard {
    char *base; size_t size; char *win; size_t len;
    void init(size_t sz);
    char *open(size_t n, unsigned misalign);     // contents undefined
    void close();
};

// ---- library entry -----------------------------------------------------------------------------------------
extern thread_local volatile int in_lib;         // > 0 while library code runs
extern thread_local uint64_t lib_steps, lib_step_limit;       // basic blocks of the current call
void enter_lib(uint64_t step_limit);
void leave_lib();
struct LibScope { LibScope(uint64_t lim = 50u * 1000 * 1000) { enter_lib(lim); } ~LibScope() { leave_lib(); } };

// ---- simulated allocator -------------------------------------------------------------------------------------
struct AllocPlan {                                // which allocation of the library fails
    bool on = false;
    uint32_t skip = 0;                            // fail the (skip+1)-th allocation ...
    uint32_t count = 0;                           // ... and this many in a row (0 = none)
    uint64_t min_size = 0;                        // only allocations at least this big
    uint32_t fired = 0;
};
extern AllocPlan alloc_plan;
extern bool alloc_zero;                           // hand out zeroed instead of dirty memory
extern bool alloc_reuse;                          // hand out recently freed blocks first
size_t heap_live();                               // blocks the library currently owns
size_t heap_live_bytes();
uint64_t heap_count();                            // allocations so far in this run
bool heap_owns(const void *p);
void heap_reset();
extern "C" {
void *sim_malloc(size_t n);
void *sim_calloc(size_t a, size_t b);
void *sim_realloc(void *p, size_t n);
void sim_free(void *p);
}
bool known_finding(const char *key);                // listed in known-findings.txt for this property
void core_init(const char *shm_path);
void lib_snapshot();
void lib_restore();                               // library globals (and thread-locals of this thread) as after loading
void lib_restore_tls();
bool lib_is_shared_rw(const void *p);
size_t lib_rw_bytes();

// thread scheduler hooks (sched.cpp)
extern bool sched_on;
void sched_point();                               // called from instrumentation while a scheduled thread runs library code
extern volatile int64_t sched_budget;
bool sched_block();                               // cooperative wait: give the baton away; false when not scheduled

void run_begin(uint64_t seed, uint64_t run, const uint32_t *tape, size_t tape_len);   // tape==nullptr: PRNG
uint64_t run_hash();
