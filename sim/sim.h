// Deterministic simulator runtime: public interface used by the harness.
// Everything here is C ABI so that the runtime (libsim.so, uninstrumented) and
// the harness (instrumented) share nothing but this header.
#pragma once
#include <stddef.h>
#include <stdint.h>

#ifdef __cplusplus
extern "C" {
#endif

enum sim_verdict
{
    SIM_OK = 0,
    SIM_ORACLE = 1,   // an oracle of the workload failed
    SIM_DEADLOCK = 2, // nothing runnable, no deadline pending
    SIM_RACE = 3,     // conflicting accesses without happens-before
    SIM_MEMORY = 4,   // use after free, double free, wild heap access
    SIM_CRASH = 5,    // signal (abort, terminate, segv)
    SIM_STUCK = 6,    // a watched call exceeded its virtual time limit
    SIM_BUDGET = 7,   // step budget exhausted (livelock or too long a run)
    SIM_MISUSE = 8,   // mutex misuse, e.g. destroyed while locked
    SIM_INTERNAL = 9, // simulator limitation hit, run is inconclusive
    SIM_NVERDICT
};

// kinds of decisions, also the fault kinds that are counted
enum sim_decision
{
    D_SWITCH = 0, // run another thread (value: tid+1)
    D_FREEZE,     // stall the current thread (value: ns)
    D_TJUMP,      // clock runs ahead to the next deadline (value: max ns)
    D_SPUR,       // spurious condition wake-up of a waiting thread (tid+1)
    D_SPURNOW,    // condition wait returns spuriously right away
    D_CASFAIL,    // weak compare-exchange fails spuriously
    D_EINTR,      // sleep/select interrupted
    D_NOTIFY,     // notify_one picks a later waiter (index)
    D_WALL,       // wall clock jump (value: ns, biased by 1<<62)
    D_SYSFAIL,    // setpriority & co fail
    D_CHOICE,     // harness level choice (value+1)
    D_STALE,      // atomic load returns an older value (how many stores back)
    SIM_NDEC
};

enum sim_strategy
{
    ST_WALK = 0,
    ST_PCT = 1,
    ST_SITE = 2,
    ST_REPLAY = 3
};

typedef struct sim_decrec
{
    uint32_t tid;
    uint32_t kind;
    uint64_t n;
    int64_t val;
} sim_decrec;

typedef struct sim_cfg
{
    uint64_t seed;
    int strategy;
    int verbose;
    uint32_t walk_inv; // switch probability 1/walk_inv
    uint32_t pct_depth;
    uint32_t pct_len;
    uint32_t site_mod;
    uint32_t step_ns; // virtual cost of one scheduling point
    int ncpu;         // reported processor count
    int heap_reuse;   // 1: freed chunks are reused at once (ABA), 0: never
    // fault rates, 1/x per opportunity, 0 = off
    uint32_t f_freeze, f_tjump, f_spur, f_spurnow, f_casfail, f_eintr, f_notify,
      f_wall, f_sysfail, f_stale;
    int fine; // 1: every function entry is a scheduling point
    int64_t freeze_max_ns, tjump_max_ns;
    uint32_t big_faults; // budget of freezes/jumps >= 100 ms
    uint64_t max_steps;
    int64_t max_vtime;
    // replay
    const sim_decrec* dec;
    uint32_t ndec;
} sim_cfg;

#define SIM_MAXDEC 60000
#define SIM_COVBITS 65536

typedef struct sim_result
{
    int verdict;
    int done; // set last
    char message[3000];
    uint64_t hash;       // hash over the complete event log
    uint64_t sched_hash; // hash over the cross-thread order of sync operations
    uint64_t steps, switches;
    int64_t vtime;
    uint32_t nthreads;
    uint64_t faults[SIM_NDEC];
    uint64_t probes[64];
    uint64_t races_checked;
    uint32_t ndec;
    uint32_t dec_overflow;
    uint32_t nsites;
    uint64_t sites[16]; // code addresses describing the failure
    sim_decrec dec[SIM_MAXDEC];
    uint8_t cov[SIM_COVBITS / 8];
} sim_result;

// --- process level
void sim_prepare(void); // once per worker process, before forking runs
// runs fn(arg) under simulation in this (forked) process; never returns
void sim_run(void (*fn)(void*), void* arg, const sim_cfg* cfg, sim_result* res)
  __attribute__((noreturn));

// --- inside a run
int sim_active(void);
int64_t sim_now(void);     // virtual monotonic ns
void sim_realtime(void);   // an observation: sees all that was reported before
int64_t sim_stalled(void); // virtual ns injected by stalls and clock jumps so far
uint64_t sim_step(void);
int64_t sim_busy(void);    // virtual ns charged for scheduling points so far
int sim_tid(void);
int sim_nthreads_alive(void); // threads created by code under test and alive
void sim_ev(uint32_t kind, int64_t a, int64_t b, int64_t c);
void sim_fail(const char* fmt, ...) __attribute__((format(printf, 1, 2), noreturn));
void sim_done(void) __attribute__((noreturn));
void sim_probe(int idx); // rare condition counters
void sim_sleep(int64_t ns); // harness sleep, never interrupted
// harness sleep until other threads were about to wait for a condition (or, if
// threads is set, to start a thread) for the k-th time, at most max_ns
void sim_sleep_event(int threads, int k, int64_t max_ns);
void sim_yield(void);
int64_t sim_idle_until(void); // when the next other thread can run, 0: now
int64_t sim_deadline(int k, int64_t within); // k-th next distinct wake-up time of another thread, 0: none
int64_t sim_choice(int64_t n); // 0..n-1, 0 by default when minimising
void sim_quiesce(int on);      // faults off and fair scheduling from now on
void sim_wall_jump(int64_t ns);
void sim_watch_begin(const char* what, int64_t limit_ns);
void sim_watch_end(void);
// number of syscalls of the given class made so far by code under test
uint64_t sim_count_select(void);
void sim_high_fds(bool on); // number descriptors from FD_SETSIZE on
uint64_t sim_count_sleep(void);
// marks the calling thread as harness driver (not counted as alive worker)
void sim_mark_harness(void);
int sim_thread_blocked(int tid); // is thread parked inside a blocking primitive
void sim_backtrace(void);
// memory probes
uint64_t sim_heap_live(void); // bytes allocated and not freed
int sim_is_freed(const void* p);
// counts the live allocations by place, returns how many times in a row the number of
// one of these places has grown
int sim_census(void);
int64_t sim_census_live(void); // the number for that place, which a failure names
int sim_nthreads_unreaped(void); // ended but neither joined nor detached
// virtual sockets
int sim_fd_readable(int fd);
int sim_fd_writable(int fd);
int64_t sim_fd_ready_count(int fd, int write); // # of not-ready -> ready edges

#ifdef __cplusplus
}
#endif
