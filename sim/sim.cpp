// Deterministic simulator runtime.
//
// Real pthreads are created but exactly one of them runs at any time: it holds
// the baton. At every synchronisation point (pthread call, atomic operation,
// clock read, blocking system call) the scheduler below decides from one PRNG
// (or from a replay file) who runs next, which fault happens and how virtual
// time advances. The runtime also is the ThreadSanitizer ABI implementation
// (__tsan_*): instead of observing real executions it drives them and keeps a
// vector-clock happens-before relation over the simulated schedule.
#include "sim.h"
#include <cerrno>
#include <climits>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <dlfcn.h>
#include <elf.h>
#include <fcntl.h>
#include <link.h>
#include <linux/futex.h>
#include <poll.h>
#include <pthread.h>
#include <sched.h>
#include <signal.h>
#include <sys/eventfd.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/select.h>
#include <sys/socket.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <ucontext.h>
#include <unistd.h>

#define EXPORT extern "C" __attribute__((visibility("default")))
#define LIKELY(x) __builtin_expect(!!(x), 1)
#define UNLIKELY(x) __builtin_expect(!!(x), 0)
#define RA ((uintptr_t)__builtin_return_address(0))

typedef uint8_t u8;
typedef uint32_t u32;
typedef uint64_t u64;
typedef int64_t i64;

// ---------------------------------------------------------------- constants
static const int MAXT = 128;
static const uintptr_t ARENA = 0x200000000000ull;
static const u64 ARENA_SZ = 256ull << 20;
static const uintptr_t STACKS = 0x210000000000ull;
static const u64 STACK_SZ = 512ull << 10;
static const uintptr_t SH_ARENA = 0x300000000000ull;
static const uintptr_t SH_STACK = 0x310000000000ull;
static const uintptr_t SH_DATA = 0x320000000000ull;
static const uintptr_t ST_ARENA = 0x330000000000ull; // 1 byte per granule
static const int VFD_N = 100;
static int g_vfd_base = 400;
static const i64 NODL = INT64_MAX;

// ---------------------------------------------------------------- raw syscalls
static long
raw(long n, long a = 0, long b = 0, long c = 0, long d = 0, long e = 0, long f = 0)
{
    long ret;
    register long r10 __asm__("r10") = d;
    register long r8 __asm__("r8") = e;
    register long r9 __asm__("r9") = f;
    __asm__ volatile("syscall"
                     : "=a"(ret)
                     : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9)
                     : "rcx", "r11", "memory");
    return ret;
}
static void
die_raw(const char* m)
{
    raw(SYS_write, 2, (long)m, strlen(m));
    raw(SYS_exit_group, 97);
}
static void*
raw_map(uintptr_t at, u64 sz, int prot = PROT_READ | PROT_WRITE)
{
    long r = raw(SYS_mmap,
                 at,
                 sz,
                 prot,
                 MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE |
                   (at ? MAP_FIXED_NOREPLACE : 0),
                 -1,
                 0);
    if (r < 0 && r > -4096) {
        die_raw("sim: mmap failed\n");
    }
    return (void*)r;
}

// ---------------------------------------------------------------- real functions
#define REAL(ret, name, ...)                                                   \
    typedef ret (*name##_fnp)(__VA_ARGS__);                                      \
    static name##_fnp real_##name;                                               \
    static inline name##_fnp get_##name()                                        \
    {                                                                          \
        if (UNLIKELY(!real_##name))                                            \
            real_##name = (name##_fnp)dlsym(RTLD_NEXT, #name);                   \
        return real_##name;                                                    \
    }
REAL(int, pthread_create, pthread_t*, const pthread_attr_t*, void* (*)(void*), void*)
REAL(int, pthread_join, pthread_t, void**)
REAL(int, pthread_detach, pthread_t)
REAL(int, pthread_mutex_lock, pthread_mutex_t*)
REAL(int, pthread_mutex_trylock, pthread_mutex_t*)
REAL(int, pthread_mutex_unlock, pthread_mutex_t*)
REAL(int, pthread_mutex_destroy, pthread_mutex_t*)
REAL(int, pthread_cond_wait, pthread_cond_t*, pthread_mutex_t*)
REAL(int, pthread_cond_signal, pthread_cond_t*)
REAL(int, pthread_cond_broadcast, pthread_cond_t*)
REAL(int, pthread_cond_destroy, pthread_cond_t*)
REAL(int, pthread_rwlock_rdlock, pthread_rwlock_t*)
REAL(int, pthread_rwlock_wrlock, pthread_rwlock_t*)
REAL(int, pthread_rwlock_unlock, pthread_rwlock_t*)
REAL(int, pthread_once, pthread_once_t*, void (*)(void))
REAL(int, pthread_key_create, pthread_key_t*, void (*)(void*))
REAL(int, pthread_key_delete, pthread_key_t)
REAL(int, nanosleep, const timespec*, timespec*)
REAL(int, clock_nanosleep, clockid_t, int, const timespec*, timespec*)
REAL(int, clock_gettime, clockid_t, timespec*)
REAL(int, gettimeofday, timeval*, void*)
REAL(int, select, int, fd_set*, fd_set*, fd_set*, timeval*)
REAL(int, poll, pollfd*, nfds_t, int)
REAL(int, ppoll, pollfd*, nfds_t, const timespec*, const sigset_t*)
REAL(ssize_t, read, int, void*, size_t)
REAL(ssize_t, write, int, const void*, size_t)
REAL(ssize_t, recv, int, void*, size_t, int)
REAL(ssize_t, send, int, const void*, size_t, int)
REAL(int, close, int)
REAL(int, socketpair, int, int, int, int*)
REAL(int, pipe, int*)
REAL(int, pipe2, int*, int)
REAL(int, eventfd, unsigned, int)
REAL(long, sysconf, int)
REAL(int, setpriority, int, id_t, int)
REAL(int, getpriority, int, id_t)
REAL(int, __cxa_thread_atexit_impl, void (*)(void*), void*, void*)
REAL(int, __cxa_guard_acquire, void*)
REAL(void, __cxa_guard_release, void*)
REAL(void, __cxa_guard_abort, void*)

// ---------------------------------------------------------------- state
typedef u32 VC[MAXT];

enum BlockKind
{
    B_NONE,
    B_MUTEX,
    B_COND,
    B_JOIN,
    B_SLEEP,
    B_FD,
    B_FUTEX,
    B_GUARD,
    B_RW,
    B_FOREVER
};
static const char* const kBlockName[] = { "running", "mutex", "condition", "join",
                                          "sleep",   "fd",    "futex",     "guard",
                                          "rwlock",  "forever" };
enum ThState
{
    T_UNUSED = 0,
    T_RUN,
    T_BLOCKED,
    T_DONE
};

struct TlsDtor
{
    void (*fn)(void*);
    void* obj;
    TlsDtor* next;
};

struct Watch
{
    const char* what;
    i64 clean0, limit;
};

struct Th
{
    u32 go; // baton futex
    int id;
    int state;
    pthread_t real;
    int bkind;
    uintptr_t bobj;
    uintptr_t bpc;
    i64 dl;    // absolute deadline in its clock, NODL none
    int dlclk; // 0 mono 1 real
    int wake;  // 0 signalled 1 timeout
    u64 bseq;
    i64 frozen;
    u64 prio;
    u64 nyield;
    u32 spin;
    uintptr_t spin_pc, spin_addr;
    int cas_in_row;
    int harness;
    int eintr_in_row;
    bool reaped; // joined or detached
    void* (*fn)(void*);
    void* arg;
    void* ret;
    TlsDtor* dtors;
    Watch watch[8];
    int nwatch;
    u32 csn;
    uintptr_t cs[64];
    VC vc, acq, rel;
    bool has_acq, has_rel;
    int aim_kind, aim_left; // woken by other threads' scheduling points of that kind
    u32* scv;     // what earlier seq_cst fences of this thread made visible
    int stale_in_row;
    // replay cursor
    const sim_decrec** rd;
    u32 nrd, ird;
};

// The most recent values of an atomic object in modification order, for
// loads which the memory model allows to miss the newest one.
static const int HISTN = 4;
struct HEnt
{
    u64 val;
    i64 t;    // when it was written
    u64 step;
    bool has_rel;
    u32 rel[MAXT];  // what a reader acquires
    u32 seen[MAXT]; // epoch in which a thread first knew this value, 0 never
};
struct Hist
{
    Hist* next; // free list
    int n, size;
    HEnt e[HISTN]; // e[n-1] is the newest
};
struct Sync
{
    uintptr_t addr;
    Hist* hist;
    u32* rel; // release clock (VC) or null
    int owner; // mutex: tid+1; rwlock writer
    int count; // recursion / readers
    u32 nwait;
    int relby; // thread that headed the release sequence
    int toucher; // last thread
    bool shared;
    uintptr_t last_pc;
    int guard_state;
};

static bool g_active = false;
static sim_cfg C;
static sim_result* R;
static Th T[MAXT];
static int nT;
static Th* cur;
static i64 g_now, g_walloff;
// virtual time that passed while no thread was stalled and no jump was made
static i64 g_clean, g_clean_at, g_stall_end;
static i64
clean_now()
{
    i64 from = g_clean_at > g_stall_end ? g_clean_at : g_stall_end;
    if (g_now > from)
        g_clean += g_now - from;
    g_clean_at = g_now;
    return g_clean;
}
static i64 g_next_dl;
static u64 g_steps, g_switches, g_isteps;
static u64 g_seq;
static u64 g_hash, g_shash;
static bool g_faults, g_quiet;
static bool g_dirty;
static u64 g_rng[2];
static u32 g_big;
static u32 cd[SIM_NDEC];
static u64 pct_points[16];
static u32 pct_next;
static bool g_replay;
static u64 cnt_select, cnt_sleep;
static uintptr_t exe_lo, exe_hi; // code range
static uintptr_t data_lo, data_hi;
static bool g_prepared;
static bool g_races = true;

// private bump allocator of the runtime
static u8 *pb_p, *pb_e;
static void*
pb_alloc(size_t n)
{
    n = (n + 15) & ~size_t(15);
    if (pb_p + n > pb_e) {
        size_t m = 32 << 20;
        pb_p = (u8*)raw_map(0, m);
        pb_e = pb_p + m;
    }
    void* r = pb_p;
    pb_p += n;
    return r;
}

static inline u64
rng()
{
    u64 s1 = g_rng[0], s0 = g_rng[1], r = s0 + s1;
    g_rng[0] = s0;
    s1 ^= s1 << 23;
    g_rng[1] = s1 ^ s0 ^ (s1 >> 18) ^ (s0 >> 5);
    return r;
}
static inline u64
mix(u64 x)
{
    x ^= x >> 30;
    x *= 0xbf58476d1ce4e5b9ull;
    x ^= x >> 27;
    x *= 0x94d049bb133111ebull;
    x ^= x >> 31;
    return x;
}
static inline void
hadd(u64 v)
{
    g_hash = (g_hash ^ v) * 0x100000001b3ull;
    g_hash ^= g_hash >> 29;
}
// addresses that are the same in every process
static inline u64
stable(uintptr_t a)
{
    if (a >= ARENA && a < ARENA + ARENA_SZ)
        return a;
    if (a >= STACKS && a < STACKS + MAXT * STACK_SZ)
        return a;
    if (a >= exe_lo && a < data_hi)
        return a;
    return 1;
}

// ---------------------------------------------------------------- verdicts
static void finish(int verdict) __attribute__((noreturn));
static void
finish(int verdict)
{
    R->verdict = verdict;
    R->hash = g_hash ^ (u64)verdict;
    R->sched_hash = g_shash;
    R->steps = g_steps;
    R->switches = g_switches;
    R->vtime = g_now;
    R->nthreads = nT;
    __atomic_store_n(&R->done, 1, __ATOMIC_SEQ_CST);
    raw(SYS_exit_group, 0);
    for (;;) {
    }
}
static void
vmsg(const char* fmt, va_list ap)
{
    size_t n = strlen(R->message);
    if (n + 2 < sizeof(R->message))
        vsnprintf(R->message + n, sizeof(R->message) - n, fmt, ap);
}
static void msg(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
static void
msg(const char* fmt, ...)
{
    va_list ap;
    va_start(ap, fmt);
    vmsg(fmt, ap);
    va_end(ap);
}
static inline bool
in_exe(uintptr_t pc)
{
    return pc >= exe_lo && pc < exe_hi;
}
static inline uintptr_t
site(uintptr_t pc)
{
    if (in_exe(pc))
        return pc;
    return cur && cur->csn ? cur->cs[(cur->csn - 1) & 63] : 0;
}
static void
add_site(uintptr_t pc)
{
    if (R->nsites < 16)
        R->sites[R->nsites++] = pc;
}
static void
add_stack(Th* t, uintptr_t pc, int max)
{
    if (in_exe(pc))
        add_site(pc);
    u32 n = t->csn;
    for (int i = 0; i < max && n > 0 && i < 60; ++i) {
        --n;
        add_site(t->cs[n & 63]);
    }
}
static void
describe_threads()
{
    for (int i = 0; i < nT; ++i) {
        if (T[i].state == T_BLOCKED)
            msg("; T%d blocked on %s%s", i, kBlockName[T[i].bkind], T[i].nwatch ? " in " : "");
        else if (T[i].state == T_RUN)
            msg("; T%d runnable", i);
        else
            continue;
        if (T[i].nwatch)
            msg("%s", T[i].watch[T[i].nwatch - 1].what);
    }
}
#define VLOG(...)                                                              \
    do {                                                                       \
        if (UNLIKELY(C.verbose))                                               \
            vlog(__VA_ARGS__);                                                 \
    } while (0)
static void vlog(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
static void
vlog(const char* fmt, ...)
{
    char b[512];
    int n = snprintf(b,
                     sizeof b,
                     "[%12.6fms #%llu T%d] ",
                     g_now / 1e6,
                     (unsigned long long)g_steps,
                     cur ? cur->id : -1);
    va_list ap;
    va_start(ap, fmt);
    n += vsnprintf(b + n, sizeof b - n - 1, fmt, ap);
    va_end(ap);
    if (n > (int)sizeof b - 2)
        n = sizeof b - 2;
    b[n++] = '\n';
    raw(SYS_write, 2, (long)b, n);
}

// ---------------------------------------------------------------- sync object map
static const u32 SM = 1 << 16;
static Sync* smap[SM];
static Sync* const TOMB = (Sync*)1;
static inline u32
shash(uintptr_t a)
{
    return (u32)((a * 0x9E3779B97F4A7C15ull) >> 40) & (SM - 1);
}
static inline u8&
st_of(uintptr_t a)
{
    return *(u8*)(ST_ARENA + ((a - ARENA) >> 3));
}
static inline bool
in_arena(uintptr_t a)
{
    return a - ARENA < ARENA_SZ;
}
static u32 n_sync;
static Sync*
find_sync(uintptr_t a)
{
    u32 h = shash(a);
    for (;; h = (h + 1) & (SM - 1)) {
        Sync* s = smap[h];
        if (!s)
            return nullptr;
        if (s != TOMB && s->addr == a)
            return s;
    }
}
static Sync*
get_sync(uintptr_t a)
{
    u32 h = shash(a);
    i64 tomb = -1;
    for (;; h = (h + 1) & (SM - 1)) {
        Sync* s = smap[h];
        if (!s)
            break;
        if (s == TOMB) {
            if (tomb < 0)
                tomb = h;
        } else if (s->addr == a)
            return s;
    }
    if (++n_sync > SM / 2) {
        msg("too many synchronisation objects");
        finish(SIM_INTERNAL);
    }
    Sync* s = (Sync*)pb_alloc(sizeof(Sync));
    memset(s, 0, sizeof *s);
    s->addr = a;
    s->toucher = -1;
    s->relby = -1;
    smap[tomb >= 0 ? tomb : h] = s;
    if (in_arena(a))
        st_of(a) |= 0x80;
    return s;
}
static Hist* hist_free;
static void
drop_sync(uintptr_t a)
{
    u32 h = shash(a);
    for (;; h = (h + 1) & (SM - 1)) {
        Sync* s = smap[h];
        if (!s)
            return;
        if (s != TOMB && s->addr == a) {
            smap[h] = TOMB;
            --n_sync;
            if (s->hist) {
                s->hist->next = hist_free;
                hist_free = s->hist;
                s->hist = nullptr;
            }
            return;
        }
    }
}

// ---------------------------------------------------------------- vector clocks
static inline void
vc_join(u32* d, const u32* s)
{
    for (int i = 0; i < nT; ++i)
        if (s[i] > d[i])
            d[i] = s[i];
}
static inline u32*
rel_of(Sync* s)
{
    if (!s->rel) {
        s->rel = (u32*)pb_alloc(sizeof(VC));
        memset(s->rel, 0, sizeof(VC));
    }
    return s->rel;
}
static inline void
hb_acquire(Sync* s)
{
    if (s->rel)
        vc_join(cur->vc, s->rel);
}
static inline void
hb_release_join(Sync* s)
{
    vc_join(rel_of(s), cur->vc);
    cur->vc[cur->id]++;
}

// ---------------------------------------------------------------- shadow memory
struct Slot
{
    u32 epoch;
    u8 tid;
    u8 mask;
    u8 flags; // 1 write 2 atomic 4 free
    u8 valid;
    u64 pc;
};
static const int NSLOT = 4;
static inline Slot*
shadow(uintptr_t g)
{
    if (LIKELY(g - ARENA < ARENA_SZ))
        return (Slot*)(SH_ARENA + ((g - ARENA) >> 3) * (NSLOT * sizeof(Slot)));
    if (LIKELY(g - STACKS < MAXT * STACK_SZ))
        return (Slot*)(SH_STACK + ((g - STACKS) >> 3) * (NSLOT * sizeof(Slot)));
    if (g >= data_lo && g < data_hi)
        return (Slot*)(SH_DATA + ((g - data_lo) >> 3) * (NSLOT * sizeof(Slot)));
    return nullptr;
}
static void report_race(uintptr_t addr, Slot* s, int flags, u32 size, uintptr_t pc)
  __attribute__((noreturn, noinline));
static void
report_race(uintptr_t addr, Slot* s, int flags, u32 size, uintptr_t pc)
{
    const char* k1 = (s->flags & 4) ? "free" : (s->flags & 1) ? "write" : "read";
    const char* k2 = (flags & 4) ? "free" : (flags & 1) ? "write" : "read";
    msg("data race: %s%s of %u bytes by T%d conflicts with earlier %s%s by T%d "
        "(no happens-before)",
        (flags & 2) ? "atomic " : "",
        k2,
        size,
        cur->id,
        (s->flags & 2) ? "atomic " : "",
        k1,
        s->tid);
    add_site(s->pc);
    add_site(0);
    add_stack(cur, pc, 8);
    hadd(addr);
    finish(SIM_RACE);
}
static void report_mem(const char* what, uintptr_t addr, uintptr_t pc)
  __attribute__((noreturn, noinline));
static void
report_mem(const char* what, uintptr_t addr, uintptr_t pc)
{
    msg("%s by T%d", what, cur->id);
    if (in_arena(addr)) {
        Slot* s = shadow(addr & ~7ull);
        if (s->valid && (s->flags & 4)) {
            msg(" (freed by T%d)", s->tid);
            add_site(s->pc);
            add_site(0);
        }
        hadd(addr);
    }
    add_stack(cur, pc, 10);
    finish(SIM_MEMORY);
}

static inline void
access_granule(uintptr_t g, u8 mask, int flags, u32 size, uintptr_t pc)
{
    Slot* s = shadow(g);
    if (!s)
        return;
    const u32 ep = cur->vc[cur->id];
    const u8 tid = (u8)cur->id;
    if (s[0].valid && s[0].tid == tid && s[0].epoch == ep && (s[0].mask & mask) == mask &&
        s[0].flags == flags)
        return;
    int repl = -1;
    for (int i = 0; i < NSLOT; ++i) {
        Slot& q = s[i];
        if (!q.valid) {
            if (repl < 0)
                repl = i;
            continue;
        }
        if (q.tid == tid) {
            if (q.mask == mask && ((q.flags & 1) <= (flags & 1)) &&
                ((q.flags & 2) >= (flags & 2)))
                repl = i;
            else if (q.mask == mask && q.flags == flags)
                repl = i;
            continue;
        }
        if (!(q.mask & mask))
            continue;
        const bool hb = q.epoch <= cur->vc[q.tid];
        if (!hb && ((q.flags | flags) & 1) && !((q.flags & 2) && (flags & 2)))
            report_race(g, &q, flags, size, pc);
        if (hb && repl < 0 && (q.mask & ~mask) == 0 && ((flags & 1) || !(q.flags & 1)))
            repl = i;
    }
    if (repl < 0)
        repl = (int)((g >> 3) + ep) & (NSLOT - 1);
    Slot& q = s[repl];
    q.epoch = ep;
    q.tid = tid;
    q.mask = mask;
    q.flags = (u8)flags;
    q.valid = 1;
    q.pc = pc;
    if (repl != 0) { // keep most recent first for the fast path
        Slot t = s[0];
        s[0] = q;
        q = t;
    }
}
static inline void
check_alive(uintptr_t a, uintptr_t pc)
{
    if (in_arena(a)) {
        u8 st = st_of(a) & 0x7f;
        if (UNLIKELY(st == 2))
            report_mem("use after free", a, pc);
        if (UNLIKELY(st == 0))
            report_mem("access outside any heap allocation", a, pc);
    }
}
static inline void
access(uintptr_t a, u32 size, int flags, uintptr_t pc)
{
    if (UNLIKELY(!g_active))
        return;
    if (in_arena(a)) {
        check_alive(a, pc);
        if (size > 8)
            check_alive(a + size - 1, pc);
    }
    if (!g_races)
        return;
    uintptr_t g = a & ~7ull;
    u32 off = a & 7;
    while (size > 0) {
        u32 n = 8 - off < size ? 8 - off : size;
        u8 mask = (u8)(((1u << n) - 1) << off);
        access_granule(g, mask, flags, size, pc);
        size -= n;
        g += 8;
        off = 0;
    }
}

// ---------------------------------------------------------------- heap
// Two arenas: a boot arena for everything outside a run and the simulated
// arena at a fixed address, pristine at the start of each run.
static const int NCLS = 64; // classes of 16 bytes up to 1 KiB, then powers of 2
static int
cls_of(size_t n)
{
    if (n <= 512)
        return (int)((n + 15) / 16);
    int c = 33;
    size_t s = 1024;
    while (s < n) {
        s <<= 1;
        ++c;
    }
    return c;
}
static size_t
cls_size(int c)
{
    if (c <= 32)
        return (size_t)c * 16;
    return (size_t)1024 << (c - 33);
}
struct Hdr
{
    u32 cls;
    u32 magic;
    u32 size;
    u32 pc; // allocated here (simulated heap)
};
static u8 *boot_p, *boot_e;
static void* boot_free[NCLS];
static volatile int boot_lock;
static u8* ar_p;
static void* ar_free[NCLS];
static u64 heap_live;
static void
blk()
{
    while (__atomic_exchange_n(&boot_lock, 1, __ATOMIC_ACQUIRE))
        raw(SYS_sched_yield);
}
static void
bul()
{
    __atomic_store_n(&boot_lock, 0, __ATOMIC_RELEASE);
}
static void*
boot_malloc(size_t n)
{
    int c = cls_of(n ? n : 1);
    size_t sz = cls_size(c);
    blk();
    void* r = boot_free[c];
    if (r) {
        boot_free[c] = *(void**)r;
        bul();
    } else {
        size_t need = sz + sizeof(Hdr);
        if (boot_p + need > boot_e) {
            size_t m = 64 << 20;
            if (need > m)
                m = (need + 4095) & ~4095ull;
            boot_p = (u8*)raw_map(0, m);
            boot_e = boot_p + m;
        }
        r = boot_p + sizeof(Hdr);
        boot_p += need;
        bul();
    }
    Hdr* h = (Hdr*)r - 1;
    h->cls = (u32)c;
    h->magic = 0xb007;
    h->size = (u32)n;
    return r;
}
static void*
ar_malloc(size_t n, uintptr_t pc)
{
    int c = cls_of(n ? n : 1);
    size_t sz = cls_size(c);
    void* r = nullptr;
    if (C.heap_reuse && ar_free[c]) {
        r = ar_free[c];
        ar_free[c] = *(void**)r;
        memset(r, 0xbe, sz < 256 ? sz : 256);
    } else {
        size_t need = sz + sizeof(Hdr);
        if ((uintptr_t)ar_p + need > ARENA + ARENA_SZ) {
            msg("simulated heap exhausted");
            finish(SIM_INTERNAL);
        }
        r = ar_p + sizeof(Hdr);
        ar_p += need;
    }
    Hdr* h = (Hdr*)r - 1;
    h->cls = (u32)c;
    h->magic = 0xa11c;
    h->size = (u32)n;
    h->pc = (u32)pc;
    uintptr_t a = (uintptr_t)r;
    size_t ng = (n + 7) / 8;
    if (!ng)
        ng = 1;
    memset((u8*)&st_of(a), 1, ng);
    heap_live += n;
    if (cur) {
        // the allocation is a write by the allocating thread
        Slot* s = shadow(a);
        u32 ep = cur->vc[cur->id];
        for (size_t i = 0; i < ng; ++i, s += NSLOT) {
            s[0].epoch = ep;
            s[0].tid = (u8)cur->id;
            s[0].mask = 0xff;
            s[0].flags = 1;
            s[0].valid = 1;
            s[0].pc = pc;
            s[1].valid = s[2].valid = s[3].valid = 0;
        }
    }
    return r;
}
static uintptr_t qt_lo, qt_sz;
static void
qt_order()
{
    for (int i = 0; i < nT; ++i) {
        if (i == cur->id)
            continue;
        vc_join(cur->vc, T[i].vc);
        T[i].vc[i]++;
    }
}
static void
ar_dofree(void* p, uintptr_t pc)
{
    Hdr* h = (Hdr*)p - 1;
    uintptr_t a = (uintptr_t)p;
    if (h->magic != 0xa11c) {
        report_mem("free of a pointer that is not an allocation", a, pc);
    }
    if ((st_of(a) & 0x7f) == 2)
        report_mem("double free", a, pc);
    size_t n = h->size;
    size_t ng = (n + 7) / 8;
    if (!ng)
        ng = 1;
    heap_live -= n;
    for (size_t i = 0; i < ng; ++i) {
        u8& st = st_of(a + i * 8);
        if (UNLIKELY(st & 0x80)) {
            for (u32 o = 0; o < 8; ++o) {
                Sync* s = find_sync(a + i * 8 + o);
                if (!s)
                    continue;
                if (s->owner) {
                    msg("memory of a locked mutex freed by T%d (owner T%d)", cur->id, s->owner - 1);
                    add_stack(cur, pc, 8);
                    finish(SIM_MISUSE);
                }
                if (s->nwait) {
                    msg("memory of a synchronisation object freed by T%d while %u "
                        "threads wait on it",
                        cur->id,
                        s->nwait);
                    add_stack(cur, pc, 8);
                    finish(SIM_MISUSE);
                }
                drop_sync(a + i * 8 + o);
            }
        }
    }
    if (qt_sz)
        qt_order(); // QtCore frees what was handed to it
    if (g_races && ng <= 4096) {
        for (size_t i = 0; i < ng; ++i)
            access_granule(a + i * 8, 0xff, 1 | 4, 8, pc);
    }
    Slot* s = shadow(a);
    for (size_t i = 0; i < ng; ++i, s += NSLOT) {
        st_of(a + i * 8) = 2;
        s[0].epoch = cur->vc[cur->id];
        s[0].tid = (u8)cur->id;
        s[0].mask = 0xff;
        s[0].flags = 5;
        s[0].valid = 1;
        s[0].pc = pc;
        s[1].valid = s[2].valid = s[3].valid = 0;
    }
    if (C.heap_reuse) {
        *(void**)p = ar_free[h->cls];
        ar_free[h->cls] = p;
    }
}
// counts the live blocks by the place of their allocation and how often in a row
// each of these numbers has grown
struct Census
{
    u32 pc;
    i64 live, last;
    u32 grown;
};
static Census census[8192];
static Census* census_worst;
static int
census_take()
{
    for (auto& e : census) {
        e.last = e.live;
        e.live = 0;
    }
    for (u8* p = (u8*)ARENA; p < ar_p;) {
        Hdr* h = (Hdr*)p;
        u8* d = p + sizeof(Hdr);
        if ((st_of((uintptr_t)d) & 0x7f) == 1) {
            u32 k = (h->pc * 2654435761u) >> 19;
            for (u32 i = 0; i < 8192; ++i) {
                Census& e = census[(k + i) & 8191];
                if (e.pc && e.pc != h->pc)
                    continue;
                e.pc = h->pc;
                e.live++;
                break;
            }
        }
        p = d + cls_size((int)h->cls);
    }
    census_worst = &census[0];
    for (auto& e : census) {
        e.grown = e.live > e.last ? e.grown + 1 : 0;
        if (e.grown > census_worst->grown)
            census_worst = &e;
    }
    return (int)census_worst->grown;
}
static inline uintptr_t
alloc_site(uintptr_t pc)
{
    return g_active ? site(pc) : 0;
}
EXPORT void*
malloc(size_t n)
{
    if (LIKELY(g_active))
        return ar_malloc(n, alloc_site(RA));
    return boot_malloc(n);
}
static void
do_free(void* p, uintptr_t pc)
{
    if (!p)
        return;
    if (in_arena((uintptr_t)p)) {
        if (g_active)
            ar_dofree(p, alloc_site(pc));
        return;
    }
    if (g_active)
        return; // boot memory is never recycled inside a run
    Hdr* h = (Hdr*)p - 1;
    if (h->magic != 0xb007)
        return;
    blk();
    *(void**)p = boot_free[h->cls];
    boot_free[h->cls] = p;
    bul();
}
EXPORT void
free(void* p)
{
    do_free(p, RA);
}
EXPORT void*
calloc(size_t a, size_t b)
{
    size_t n;
    if (__builtin_mul_overflow(a, b, &n)) {
        errno = ENOMEM;
        return nullptr;
    }
    void* r = g_active ? ar_malloc(n, alloc_site(RA)) : boot_malloc(n);
    memset(r, 0, n);
    return r;
}
EXPORT void*
realloc(void* p, size_t n)
{
    if (!p)
        return g_active ? ar_malloc(n, alloc_site(RA)) : boot_malloc(n);
    if (n == 0) {
        do_free(p, RA);
        return nullptr;
    }
    Hdr* h = (Hdr*)p - 1;
    size_t old = h->size;
    void* r = g_active ? ar_malloc(n, alloc_site(RA)) : boot_malloc(n);
    memcpy(r, p, old < n ? old : n);
    do_free(p, RA);
    return r;
}
static void*
do_aligned(size_t al, size_t n, uintptr_t pc)
{
    if (al <= 16)
        return g_active ? ar_malloc(n, pc) : boot_malloc(n);
    // over-allocate; the block is leaked on free in boot mode and found through
    // a forwarding header in the arena
    size_t tot = n + al + sizeof(Hdr);
    u8* b = (u8*)(g_active ? ar_malloc(tot, pc) : boot_malloc(tot));
    uintptr_t a = ((uintptr_t)b + sizeof(Hdr) + al - 1) & ~(uintptr_t)(al - 1);
    Hdr* h = (Hdr*)a - 1;
    h->cls = (u32)cls_of(1);
    h->magic = 0xa119; // never recycled
    h->size = n;
    return (void*)a;
}
EXPORT int
posix_memalign(void** r, size_t al, size_t n)
{
    *r = do_aligned(al, n, alloc_site(RA));
    return 0;
}
EXPORT void*
aligned_alloc(size_t al, size_t n)
{
    return do_aligned(al, n, alloc_site(RA));
}
EXPORT void*
memalign(size_t al, size_t n)
{
    return do_aligned(al, n, alloc_site(RA));
}
EXPORT size_t
malloc_usable_size(void* p)
{
    return p ? ((Hdr*)p - 1)->size : 0;
}

// ---------------------------------------------------------------- baton
static void
futex_wait(u32* a, u32 v)
{
    raw(SYS_futex, (long)a, FUTEX_WAIT_PRIVATE, v, 0);
}
static void
wait_go(Th* me)
{
    while (!__atomic_load_n(&me->go, __ATOMIC_ACQUIRE))
        futex_wait(&me->go, 0);
    __atomic_store_n(&me->go, 0, __ATOMIC_RELAXED);
}
static void
give(Th* n)
{
    ++g_switches;
    cur = n;
    __atomic_store_n(&n->go, 1, __ATOMIC_RELEASE);
    raw(SYS_futex, (long)&n->go, FUTEX_WAKE_PRIVATE, 1);
}
static inline bool
runnable(const Th* t)
{
    return t->state == T_RUN && t->frozen <= g_now;
}
static inline i64
eff_dl(const Th* t)
{
    if (t->dl == NODL)
        return NODL;
    return t->dlclk ? t->dl - g_walloff : t->dl;
}
static void
recompute_dl()
{
    i64 m = NODL;
    for (int i = 0; i < nT; ++i) {
        if (T[i].state == T_BLOCKED) {
            i64 d = eff_dl(&T[i]);
            if (d < m)
                m = d;
        } else if (T[i].state == T_RUN && T[i].frozen > g_now) {
            if (T[i].frozen < m)
                m = T[i].frozen;
        }
    }
    g_next_dl = m;
}
static void
make_runnable(Th* t, int wake)
{
    Sync* s = t->bobj ? find_sync(t->bobj) : nullptr;
    if (s && s->nwait)
        --s->nwait;
    t->state = T_RUN;
    t->wake = wake;
    t->dl = NODL;
    g_dirty = true;
}
static void
check_watches()
{
    for (int i = 0; i < nT; ++i) {
        Th& t = T[i];
        for (int w = 0; w < t.nwatch; ++w) {
            Watch& x = t.watch[w];
            i64 el = clean_now() - x.clean0;
            if (el > x.limit) {
                msg("call does not return: %s of T%d still not finished after "
                    "%.3f s of virtual time (limit %.3f s)",
                    x.what,
                    i,
                    el / 1e9,
                    x.limit / 1e9);
                describe_threads();
                add_stack(&t, t.bpc, 6);
                finish(SIM_STUCK);
            }
        }
    }
}
static void
fire_deadlines()
{
    for (int i = 0; i < nT; ++i) {
        Th& t = T[i];
        if (t.state == T_BLOCKED && eff_dl(&t) <= g_now)
            make_runnable(&t, 1);
        else if (t.state == T_RUN && t.frozen && t.frozen <= g_now) {
            t.frozen = 0;
            g_dirty = true;
        }
    }
    recompute_dl();
    check_watches();
    if (g_now > C.max_vtime) {
        msg("virtual time budget exhausted");
        describe_threads();
        finish(SIM_BUDGET);
    }
}
static inline void
rec(int kind, i64 val)
{
    R->faults[kind]++;
    if (kind != D_SWITCH)
        VLOG("decision kind %d val %lld", kind, (long long)val);
    if (R->ndec < SIM_MAXDEC) {
        sim_decrec& d = R->dec[R->ndec++];
        d.tid = cur->id;
        d.kind = kind;
        d.n = cur->nyield;
        d.val = val;
    } else
        R->dec_overflow = 1;
    hadd(((u64)kind << 56) ^ (u64)val);
}
static i64
replayed(int kind)
{
    Th* c = cur;
    while (c->ird < c->nrd && c->rd[c->ird]->n < c->nyield)
        ++c->ird;
    for (u32 j = c->ird; j < c->nrd && c->rd[j]->n == c->nyield; ++j)
        if ((int)c->rd[j]->kind == kind)
            return c->rd[j]->val;
    return 0;
}
static inline bool
has_replay()
{
    Th* c = cur;
    while (c->ird < c->nrd && c->rd[c->ird]->n < c->nyield)
        ++c->ird;
    return c->ird < c->nrd && c->rd[c->ird]->n == c->nyield;
}
static inline bool
tick(int kind, u32 inv)
{
    if (!inv)
        return false;
    if (cd[kind] == 0)
        cd[kind] = 1 + (u32)(rng() % (2ull * inv));
    if (--cd[kind])
        return false;
    return true;
}
static Th*
pick_random(Th* except)
{
    int n = 0;
    for (int i = 0; i < nT; ++i)
        if (&T[i] != except && runnable(&T[i]))
            ++n;
    if (!n)
        return nullptr;
    int k = (int)(rng() % (u64)n);
    for (int i = 0; i < nT; ++i)
        if (&T[i] != except && runnable(&T[i]) && k-- == 0)
            return &T[i];
    return nullptr;
}
static Th*
pick_prio()
{
    Th* b = nullptr;
    for (int i = 0; i < nT; ++i)
        if (runnable(&T[i]) && (!b || T[i].prio > b->prio))
            b = &T[i];
    return b;
}
static Th*
pick_default(Th* from)
{
    for (int k = 1; k <= nT; ++k) {
        Th* t = &T[(from->id + k) % nT];
        if (runnable(t))
            return t;
    }
    return nullptr;
}
static i64
log_uniform(i64 lo, i64 hi)
{
    if (hi <= lo)
        return lo;
    int bits = 0;
    while ((lo << bits) < hi)
        ++bits;
    int b = (int)(rng() % (u64)(bits + 1));
    i64 base = lo << b;
    i64 v = base + (i64)(rng() % (u64)base);
    return v > hi ? hi : v;
}

static void
apply_tjump(i64 maxns)
{
    if (g_next_dl == NODL || g_next_dl <= g_now || g_next_dl - g_now > maxns)
        return;
    clean_now();
    g_now = g_clean_at = g_next_dl;
    fire_deadlines();
}
static void
apply_spur(Th* t)
{
    if (t->state == T_BLOCKED && t->bkind == B_COND)
        make_runnable(t, 0);
}
static void
set_freeze(Th* t, i64 ns)
{
    t->frozen = g_now + ns;
    clean_now();
    if (t->frozen > g_stall_end)
        g_stall_end = t->frozen;
    if (t->frozen < g_next_dl)
        g_next_dl = t->frozen;
}

// current thread cannot continue (blocked, done or frozen): choose the next one
static Th*
choose_next(Th* me)
{
    for (;;) {
        if (g_now >= g_next_dl)
            fire_deadlines();
        Th* def = pick_default(me);
        if (def) {
            Th* n = def;
            if (C.strategy == ST_REPLAY) {
                i64 v = g_replay ? replayed(D_SWITCH) : 0;
                if (v > 0 && v <= nT && runnable(&T[v - 1])) {
                    n = &T[v - 1];
                    rec(D_SWITCH, v);
                }
            } else {
                if (C.strategy == ST_PCT && !g_quiet)
                    n = pick_prio();
                else
                    n = pick_random(nullptr);
                if (n != def)
                    rec(D_SWITCH, n->id + 1);
            }
            return n;
        }
        if (g_next_dl == NODL) {
            msg("deadlock: no thread can run");
            describe_threads();
            for (int i = 0; i < nT; ++i)
                if (T[i].state == T_BLOCKED && T[i].nwatch)
                    add_stack(&T[i], T[i].bpc, 5);
            finish(SIM_DEADLOCK);
        }
        g_now = g_next_dl;
        fire_deadlines();
    }
}
static void
leave_cpu(Th* me)
{
    Th* n = choose_next(me);
    hadd(0x5000 + n->id);
    if (n != me) {
        if (UNLIKELY(C.verbose > 1))
            vlog("-> T%d", n->id);
        give(n);
        wait_go(me);
    } else
        cur = me;
}
static int
block(int kind, uintptr_t obj, i64 dl, int clk, uintptr_t pc)
{
    Th* me = cur;
    me->nyield++;
    ++g_steps;
    me->state = T_BLOCKED;
    me->bkind = kind;
    me->bobj = obj;
    me->bpc = site(pc);
    me->dl = dl;
    me->dlclk = clk;
    me->bseq = ++g_seq;
    me->spin = 0;
    if (obj) {
        Sync* s = get_sync(obj);
        s->nwait++;
    }
    i64 e = eff_dl(me);
    if (e < g_next_dl)
        g_next_dl = e;
    if (UNLIKELY(C.verbose > 1))
        vlog("block %s %llx", kBlockName[kind], (unsigned long long)stable(obj));
    hadd(0x6000 + kind);
    leave_cpu(me);
    me->bkind = B_NONE;
    return me->wake;
}
static void
wake_all(int kind, uintptr_t obj)
{
    for (int i = 0; i < nT; ++i)
        if (T[i].state == T_BLOCKED && T[i].bkind == kind && T[i].bobj == obj)
            make_runnable(&T[i], 0);
}

static inline void
touch(Sync* s, uintptr_t pc)
{
    if (s->toucher != cur->id) {
        if (s->toucher >= 0) {
            s->shared = true;
            u64 x = mix((s->last_pc << 20) ^ pc);
            u32 b = (u32)(x & (SIM_COVBITS - 1));
            R->cov[b >> 3] |= (u8)(1 << (b & 7));
            g_shash = mix(g_shash ^ (stable(s->addr) * 31 + (u64)s->toucher * 131 + cur->id) ^ pc);
        }
        s->toucher = cur->id;
    }
    s->last_pc = pc;
}

enum
{
    Y_LOAD = 1,
    Y_STORE,
    Y_RMW,
    Y_LOCK,
    Y_UNLOCK,
    Y_COND,
    Y_THREAD,
    Y_CLOCK,
    Y_SYS,
    Y_HARNESS,
    Y_FUNC
};

static int g_aims;
// wakes the threads which wait for such a scheduling point
static Th*
aim_hit(int kind)
{
    Th* hit = nullptr;
    for (int i = 0; i < nT; ++i)
        if (T[i].state == T_BLOCKED && T[i].aim_left && T[i].aim_kind == kind &&
            --T[i].aim_left == 0) {
            make_runnable(&T[i], 0);
            hit = &T[i];
        }
    return hit;
}
static void
yp(int kind, uintptr_t obj, uintptr_t pc, bool interesting)
{
    Th* me = cur;
    Th* aimed = UNLIKELY(g_aims) && (kind == Y_COND || kind == Y_THREAD) ? aim_hit(kind) : nullptr;
    me->nyield++;
    ++g_steps;
    g_now += C.step_ns;
    hadd(((u64)kind << 60) ^ ((u64)me->id << 52) ^ stable(obj));
    if (UNLIKELY(C.verbose > 2))
        vlog("yield k=%d obj=%llx pc=%llx", kind, (unsigned long long)stable(obj), (unsigned long long)pc);
    if (UNLIKELY(g_now >= g_next_dl))
        fire_deadlines();
    if (UNLIKELY(g_steps > C.max_steps)) {
        msg("step budget exhausted");
        describe_threads();
        add_stack(me, pc, 6);
        finish(SIM_BUDGET);
    }
    Th* target = nullptr;
    i64 freeze = 0;
    if (C.strategy == ST_REPLAY) {
        if (UNLIKELY(has_replay())) {
            i64 v;
            if ((v = replayed(D_TJUMP))) {
                rec(D_TJUMP, v);
                apply_tjump(v);
            }
            if ((v = replayed(D_SPUR)) && v <= nT) {
                rec(D_SPUR, v);
                apply_spur(&T[v - 1]);
            }
            if ((v = replayed(D_WALL))) {
                rec(D_WALL, v);
                g_walloff += v - (1ll << 62);
                recompute_dl();
            }
            if ((v = replayed(D_FREEZE))) {
                rec(D_FREEZE, v);
                freeze = v;
            }
            if (!freeze && (v = replayed(D_SWITCH)) && v <= nT && &T[v - 1] != me &&
                runnable(&T[v - 1])) {
                rec(D_SWITCH, v);
                target = &T[v - 1];
                me->spin = 0;
            }
        } else if (me->spin >= 200) {
            // fairness in default mode so that minimised schedules progress
            me->spin = 0;
            target = pick_default(me);
            if (target == me)
                target = nullptr;
        }
    } else {
        if (!interesting)
            return;
        ++g_isteps;
        if (g_faults) {
            if (tick(D_TJUMP, C.f_tjump) && g_next_dl != NODL) {
                i64 m = C.tjump_max_ns;
                if (g_next_dl - g_now >= 100000000) {
                    if (g_big)
                        --g_big;
                    else
                        m = 0;
                }
                if (m && g_next_dl - g_now <= m) {
                    rec(D_TJUMP, m);
                    apply_tjump(m);
                }
            }
            if (tick(D_SPUR, C.f_spur)) {
                int n = 0;
                for (int i = 0; i < nT; ++i)
                    n += T[i].state == T_BLOCKED && T[i].bkind == B_COND;
                if (n) {
                    int k = (int)(rng() % (u64)n);
                    for (int i = 0; i < nT; ++i)
                        if (T[i].state == T_BLOCKED && T[i].bkind == B_COND && k-- == 0) {
                            rec(D_SPUR, i + 1);
                            apply_spur(&T[i]);
                            break;
                        }
                }
            }
            if (tick(D_WALL, C.f_wall)) {
                i64 j = log_uniform(1000000, 7200ll * 1000000000);
                if (rng() & 1)
                    j = -j;
                rec(D_WALL, j + (1ll << 62));
                g_walloff += j;
                recompute_dl();
            }
            if (tick(D_FREEZE, C.f_freeze)) {
                freeze = log_uniform(10000, C.freeze_max_ns);
                if (freeze >= 100000000) {
                    if (g_big)
                        --g_big;
                    else
                        freeze = 10000000;
                }
                rec(D_FREEZE, freeze);
            }
        }
        if (!freeze) {
            const int strat = g_quiet ? (int)ST_WALK : C.strategy;
            if (strat == ST_WALK) {
                if (tick(D_SWITCH, g_quiet ? 8 : C.walk_inv))
                    target = pick_random(me);
                else if (me->spin >= 64) {
                    me->spin = 0;
                    target = pick_random(me);
                }
            } else if (strat == ST_PCT) {
                bool changed = g_dirty;
                if (pct_next < C.pct_depth && g_isteps >= pct_points[pct_next]) {
                    me->prio = 1000 - pct_next;
                    ++pct_next;
                    changed = true;
                }
                if (me->spin >= 24) {
                    me->spin = 0;
                    me->prio = me->prio > 2000 ? 500 : (me->prio > 1 ? me->prio - 1 : 1);
                    // give everybody else a turn
                    Th* t = pick_random(me);
                    if (t) {
                        target = t;
                        changed = false;
                    }
                }
                if (changed) {
                    g_dirty = false;
                    Th* b = pick_prio();
                    if (b && b != me)
                        target = b;
                }
            } else {
                u64 h = mix(pc ^ (C.seed * 0x9E3779B97F4A7C15ull));
                if (h % C.site_mod == 0) {
                    if (rng() & 1)
                        target = pick_random(me);
                } else if (tick(D_SWITCH, 300) || me->spin >= 64) {
                    me->spin = 0;
                    target = pick_random(me);
                }
            }
            if (aimed && !g_quiet && (rng() & 3))
                target = aimed;
            if (target)
                rec(D_SWITCH, target->id + 1);
        }
    }
    if (freeze) {
        set_freeze(me, freeze);
        leave_cpu(me);
        return;
    }
    if (target && target != me) {
        if (UNLIKELY(C.verbose > 1))
            vlog("-> T%d (preempt)", target->id);
        hadd(0x7000 + target->id);
        give(target);
        wait_go(me);
    }
}
// yes/no fault decision at the current scheduling point
static bool
fault(int kind, u32 inv)
{
    if (C.strategy == ST_REPLAY) {
        i64 v = replayed(kind);
        if (v)
            rec(kind, v);
        return v != 0;
    }
    if (!g_faults || !tick(kind, inv))
        return false;
    rec(kind, 1);
    return true;
}

// the same for a decision with n alternatives besides the default: 0..n
static i64
fault_n(int kind, u32 inv, i64 n)
{
    if (C.strategy == ST_REPLAY) {
        i64 v = replayed(kind);
        if (v > n)
            v = n;
        if (v > 0)
            rec(kind, v);
        return v;
    }
    if (!g_faults || !tick(kind, inv))
        return 0;
    i64 v = 1 + (i64)(rng() % (u64)n);
    rec(kind, v);
    return v;
}

// ---------------------------------------------------------------- threads
static void
run_tls_dtors(Th* t)
{
    while (t->dtors) {
        TlsDtor* d = t->dtors;
        t->dtors = d->next;
        d->fn(d->obj);
    }
}
static const int MAXKEY = 64;
static struct
{
    bool used;
    pthread_key_t key;
    void (*dtor)(void*);
} keys[MAXKEY];
static void
run_key_dtors()
{
    for (int round = 0; round < 4; ++round) {
        bool any = false;
        for (int i = 0; i < MAXKEY; ++i) {
            if (!keys[i].used || !keys[i].dtor)
                continue;
            void* v = pthread_getspecific(keys[i].key);
            if (v) {
                pthread_setspecific(keys[i].key, nullptr);
                keys[i].dtor(v);
                any = true;
            }
        }
        if (!any)
            break;
    }
}
static void
install_altstack()
{
    stack_t ss;
    memset(&ss, 0, sizeof ss);
    ss.ss_size = 32768;
    ss.ss_sp = raw_map(0, ss.ss_size);
    sigaltstack(&ss, nullptr);
}
static void*
trampoline(void* p)
{
    Th* me = (Th*)p;
    install_altstack();
    wait_go(me);
    me->ret = me->fn(me->arg);
    run_tls_dtors(me);
    run_key_dtors();
    run_tls_dtors(me);
    Sync* s = get_sync((uintptr_t)me);
    hb_release_join(s);
    me->state = T_DONE;
    VLOG("thread exits");
    wake_all(B_JOIN, (uintptr_t)me);
    Th* n = choose_next(me);
    give(n);
    for (;;) { // never leave: teardown of a real thread is outside our control
        u32 never = 0;
        futex_wait(&never, 0);
    }
}
static Th*
th_of(pthread_t t)
{
    uintptr_t a = (uintptr_t)t;
    if (a < STACKS || a >= STACKS + MAXT * STACK_SZ)
        return nullptr;
    return &T[(a - STACKS) / STACK_SZ];
}
static Th*
spawn(void* (*fn)(void*), void* arg)
{
    if (nT >= MAXT) {
        msg("too many threads in one run");
        finish(SIM_INTERNAL);
    }
    Th* t = &T[nT];
    memset(t, 0, sizeof *t);
    t->id = nT;
    t->fn = fn;
    t->arg = arg;
    t->dl = NODL;
    t->state = T_RUN;
    t->prio = 1000000 + (rng() >> 24);
    if (cur) {
        memcpy(t->vc, cur->vc, sizeof(VC));
        cur->vc[cur->id]++;
    }
    t->vc[t->id] = 1;
    pthread_attr_t at;
    pthread_attr_init(&at);
    pthread_attr_setstack(&at, (void*)(STACKS + t->id * STACK_SZ + 4096), STACK_SZ - 4096);
    // replay cursor
    if (g_replay) {
        u32 n = 0;
        for (u32 i = 0; i < C.ndec; ++i)
            n += (int)C.dec[i].tid == t->id;
        t->rd = (const sim_decrec**)pb_alloc(sizeof(void*) * (n + 1));
        t->nrd = 0;
        for (u32 i = 0; i < C.ndec; ++i)
            if ((int)C.dec[i].tid == t->id)
                t->rd[t->nrd++] = &C.dec[i];
    }
    ++nT;
    g_dirty = true;
    // libc's own bookkeeping for the new thread is not part of the simulated
    // program: keep it out of the simulated heap
    bool a = g_active;
    g_active = false;
    int e = get_pthread_create()(&t->real, &at, trampoline, t);
    g_active = a;
    pthread_attr_destroy(&at);
    if (e) {
        msg("real pthread_create failed: %d", e);
        finish(SIM_INTERNAL);
    }
    return t;
}
EXPORT int
pthread_create(pthread_t* out, const pthread_attr_t* at, void* (*fn)(void*), void* arg)
{
    if (!g_active)
        return get_pthread_create()(out, at, fn, arg);
    Th* t = spawn(fn, arg);
    *out = t->real;
    int state = PTHREAD_CREATE_JOINABLE;
    if (at && !pthread_attr_getdetachstate(at, &state) && state == PTHREAD_CREATE_DETACHED)
        t->reaped = true;
    VLOG("creates T%d", t->id);
    yp(Y_THREAD, 0, site(RA), true);
    return 0;
}
EXPORT int
pthread_join(pthread_t p, void** ret)
{
    if (!g_active)
        return get_pthread_join()(p, ret);
    uintptr_t pc = RA;
    Th* t = th_of(p);
    yp(Y_THREAD, 0, site(pc), true);
    if (!t)
        return ESRCH;
    if (t == cur)
        return EDEADLK;
    while (t->state != T_DONE)
        block(B_JOIN, (uintptr_t)t, NODL, 0, pc);
    hb_acquire(get_sync((uintptr_t)t));
    t->reaped = true;
    if (ret)
        *ret = t->ret;
    return 0;
}
EXPORT int
pthread_detach(pthread_t p)
{
    if (!g_active)
        return get_pthread_detach()(p);
    if (Th* t = th_of(p))
        t->reaped = true;
    return 0;
}
EXPORT int
__cxa_thread_atexit_impl(void (*fn)(void*), void* obj, void* dso)
{
    if (!g_active)
        return get___cxa_thread_atexit_impl()(fn, obj, dso);
    TlsDtor* d = (TlsDtor*)pb_alloc(sizeof(TlsDtor));
    d->fn = fn;
    d->obj = obj;
    d->next = cur->dtors;
    cur->dtors = d;
    return 0;
}
EXPORT int
pthread_key_create(pthread_key_t* k, void (*d)(void*))
{
    int r = get_pthread_key_create()(k, g_prepared || g_active ? nullptr : d);
    if (r)
        return r;
    for (int i = 0; i < MAXKEY; ++i)
        if (!keys[i].used) {
            keys[i].used = true;
            keys[i].key = *k;
            keys[i].dtor = d;
            break;
        }
    return 0;
}
EXPORT int
pthread_key_delete(pthread_key_t k)
{
    for (int i = 0; i < MAXKEY; ++i)
        if (keys[i].used && keys[i].key == k)
            keys[i].used = false;
    return get_pthread_key_delete()(k);
}

// ---------------------------------------------------------------- mutex
static inline bool
is_recursive(pthread_mutex_t* m)
{
    return (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP;
}
static inline void
alive_obj(const void* p, uintptr_t pc)
{
    check_alive((uintptr_t)p, site(pc));
}
static bool
mx_try(Sync* s, pthread_mutex_t* m)
{
    if (!s->owner) {
        s->owner = cur->id + 1;
        s->count = 1;
        return true;
    }
    if (s->owner == cur->id + 1 && is_recursive(m)) {
        s->count++;
        return true;
    }
    return false;
}
static int
mx_lock(pthread_mutex_t* m, i64 dl, int clk, uintptr_t pc)
{
    uintptr_t a = (uintptr_t)m;
    alive_obj(m, pc);
    Sync* s = get_sync(a);
    uintptr_t st = site(pc);
    touch(s, st);
    yp(Y_LOCK, a, st, s->shared);
    for (;;) {
        alive_obj(m, pc);
        s = get_sync(a);
        if (mx_try(s, m))
            break;
        if (block(B_MUTEX, a, dl, clk, pc) == 1)
            return ETIMEDOUT;
    }
    touch(s, st);
    hb_acquire(s);
    return 0;
}
static void
mx_unlock_nolog(pthread_mutex_t* m, uintptr_t pc)
{
    uintptr_t a = (uintptr_t)m;
    alive_obj(m, pc);
    Sync* s = get_sync(a);
    if (s->owner != cur->id + 1) {
        msg("mutex unlocked by T%d which does not own it", cur->id);
        add_stack(cur, pc, 8);
        finish(SIM_MISUSE);
    }
    if (--s->count > 0)
        return;
    s->owner = 0;
    // a mutex release replaces the clock: it dominates the previous one
    memcpy(rel_of(s), cur->vc, sizeof(u32) * nT);
    cur->vc[cur->id]++;
    if (s->nwait)
        wake_all(B_MUTEX, a);
}
EXPORT int
pthread_mutex_lock(pthread_mutex_t* m)
{
    if (!g_active)
        return get_pthread_mutex_lock()(m);
    return mx_lock(m, NODL, 0, RA);
}
EXPORT int
pthread_mutex_trylock(pthread_mutex_t* m)
{
    if (!g_active)
        return get_pthread_mutex_trylock()(m);
    uintptr_t pc = RA;
    alive_obj(m, pc);
    Sync* s = get_sync((uintptr_t)m);
    touch(s, site(pc));
    yp(Y_LOCK, (uintptr_t)m, site(pc), s->shared);
    alive_obj(m, pc);
    s = get_sync((uintptr_t)m);
    if (!mx_try(s, m))
        return EBUSY;
    hb_acquire(s);
    return 0;
}
static i64
ts_ns(const timespec* t)
{
    if (t->tv_sec > 9000000000ll)
        return NODL;
    if (t->tv_sec < -9000000000ll)
        return -9000000000ll * 1000000000ll;
    return t->tv_sec * 1000000000ll + t->tv_nsec;
}
static const i64 REAL0 = 1700000000ll * 1000000000ll;
static const i64 MONO0 = 1000ll * 1000000000ll;
// absolute time of a user visible clock -> our clock
static i64
user_dl(clockid_t c, const timespec* t, int* clk)
{
    i64 v = ts_ns(t);
    *clk = (c == CLOCK_REALTIME);
    if (v == NODL)
        return NODL;
    return v - (c == CLOCK_REALTIME ? REAL0 : MONO0);
}
EXPORT int
pthread_mutex_timedlock(pthread_mutex_t* m, const timespec* t)
{
    int clk;
    i64 dl = user_dl(CLOCK_REALTIME, t, &clk);
    return mx_lock(m, dl, clk, RA);
}
EXPORT int
pthread_mutex_clocklock(pthread_mutex_t* m, clockid_t c, const timespec* t)
{
    int clk;
    i64 dl = user_dl(c, t, &clk);
    return mx_lock(m, dl, clk, RA);
}
EXPORT int
pthread_mutex_unlock(pthread_mutex_t* m)
{
    if (!g_active)
        return get_pthread_mutex_unlock()(m);
    uintptr_t pc = RA;
    mx_unlock_nolog(m, pc);
    Sync* s = get_sync((uintptr_t)m);
    yp(Y_UNLOCK, (uintptr_t)m, site(pc), s->shared);
    return 0;
}
EXPORT int
pthread_mutex_destroy(pthread_mutex_t* m)
{
    if (!g_active)
        return get_pthread_mutex_destroy()(m);
    Sync* s = find_sync((uintptr_t)m);
    if (s) {
        if (s->owner || s->nwait) {
            msg("mutex destroyed by T%d while in use", cur->id);
            add_stack(cur, RA, 8);
            finish(SIM_MISUSE);
        }
        drop_sync((uintptr_t)m);
    }
    return 0;
}

// ---------------------------------------------------------------- condition
static int
cv_wait(pthread_cond_t* c, pthread_mutex_t* m, i64 dl, int clk, uintptr_t pc)
{
    uintptr_t a = (uintptr_t)c;
    alive_obj(c, pc);
    Sync* s = get_sync(a);
    touch(s, site(pc));
    yp(Y_COND, a, site(pc), true);
    Sync* ms = get_sync((uintptr_t)m);
    int cnt = ms->count;
    ms->count = 1;
    mx_unlock_nolog(m, pc);
    int w = 0;
    i64 e = dl == NODL ? NODL : (clk ? dl - g_walloff : dl);
    if (e <= g_now) {
        w = 1;
        yp(Y_COND, a, site(pc), true);
    } else if (fault(D_SPURNOW, C.f_spurnow)) {
        yp(Y_COND, a, site(pc), true);
    } else {
        w = block(B_COND, a, dl, clk, pc);
    }
    mx_lock(m, NODL, 0, pc);
    get_sync((uintptr_t)m)->count = cnt;
    return w == 1 ? ETIMEDOUT : 0;
}
EXPORT int
pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m)
{
    if (!g_active)
        return get_pthread_cond_wait()(c, m);
    return cv_wait(c, m, NODL, 0, RA);
}
EXPORT int
pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t k, const timespec* t)
{
    int clk;
    i64 dl = user_dl(k, t, &clk);
    return cv_wait(c, m, dl, clk, RA);
}
static u8 cond_mono[SM / 8]; // condattr_setclock(CLOCK_MONOTONIC) users
EXPORT int
pthread_cond_init(pthread_cond_t* c, const pthread_condattr_t* at)
{
    memset(c, 0, sizeof *c);
    clockid_t k = CLOCK_REALTIME;
    if (at)
        pthread_condattr_getclock(at, &k);
    // remember the clock inside the object like glibc does
    c->__data.__wrefs = (k == CLOCK_MONOTONIC) ? 2 : 0;
    (void)cond_mono;
    return 0;
}
EXPORT int
pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const timespec* t)
{
    int clk;
    clockid_t k = (c->__data.__wrefs & 2) ? CLOCK_MONOTONIC : CLOCK_REALTIME;
    i64 dl = user_dl(k, t, &clk);
    return cv_wait(c, m, dl, clk, RA);
}
static int
cv_notify(pthread_cond_t* c, bool all, uintptr_t pc)
{
    uintptr_t a = (uintptr_t)c;
    alive_obj(c, pc);
    Sync* s = get_sync(a);
    touch(s, site(pc));
    yp(Y_COND, a, site(pc), s->shared || s->nwait);
    alive_obj(c, pc);
    if (all) {
        wake_all(B_COND, a);
        return 0;
    }
    int n = 0;
    for (int i = 0; i < nT; ++i)
        n += T[i].state == T_BLOCKED && T[i].bkind == B_COND && T[i].bobj == a;
    if (!n)
        return 0;
    int k = 0;
    if (n > 1) {
        if (C.strategy == ST_REPLAY) {
            k = (int)replayed(D_NOTIFY);
            if (k)
                rec(D_NOTIFY, k);
            if (k >= n)
                k = 0;
        } else if (C.f_notify && (rng() % C.f_notify) == 0) {
            k = (int)(rng() % (u64)n);
            if (k)
                rec(D_NOTIFY, k);
        }
    }
    // k-th waiter in arrival order
    u64 last = 0;
    for (int r = 0; r <= k; ++r) {
        Th* b = nullptr;
        for (int i = 0; i < nT; ++i) {
            Th* t = &T[i];
            if (t->state == T_BLOCKED && t->bkind == B_COND && t->bobj == a &&
                t->bseq > last && (!b || t->bseq < b->bseq))
                b = t;
        }
        last = b->bseq;
        if (r == k)
            make_runnable(b, 0);
    }
    return 0;
}
EXPORT int
pthread_cond_signal(pthread_cond_t* c)
{
    if (!g_active)
        return get_pthread_cond_signal()(c);
    return cv_notify(c, false, RA);
}
EXPORT int
pthread_cond_broadcast(pthread_cond_t* c)
{
    if (!g_active)
        return get_pthread_cond_broadcast()(c);
    return cv_notify(c, true, RA);
}
EXPORT int
pthread_cond_destroy(pthread_cond_t* c)
{
    if (!g_active)
        return get_pthread_cond_destroy()(c);
    Sync* s = find_sync((uintptr_t)c);
    if (s) {
        // POSIX allows destruction as soon as all waiters were woken
        if (s->nwait) {
            msg("condition destroyed by T%d while threads wait on it", cur->id);
            add_stack(cur, RA, 8);
            finish(SIM_MISUSE);
        }
        drop_sync((uintptr_t)c);
    }
    return 0;
}

// ---------------------------------------------------------------- rwlock
static int
rw_lock(pthread_rwlock_t* l, bool wr, bool tr, uintptr_t pc)
{
    uintptr_t a = (uintptr_t)l;
    alive_obj(l, pc);
    Sync* s = get_sync(a);
    touch(s, site(pc));
    yp(Y_LOCK, a, site(pc), s->shared);
    for (;;) {
        s = get_sync(a);
        if (!s->owner && (!wr || s->count == 0)) {
            if (wr)
                s->owner = cur->id + 1;
            else
                s->count++;
            hb_acquire(s);
            return 0;
        }
        if (tr)
            return EBUSY;
        block(B_RW, a, NODL, 0, pc);
    }
}
EXPORT int
pthread_rwlock_rdlock(pthread_rwlock_t* l)
{
    return g_active ? rw_lock(l, false, false, RA) : get_pthread_rwlock_rdlock()(l);
}
EXPORT int
pthread_rwlock_wrlock(pthread_rwlock_t* l)
{
    return g_active ? rw_lock(l, true, false, RA) : get_pthread_rwlock_wrlock()(l);
}
EXPORT int
pthread_rwlock_tryrdlock(pthread_rwlock_t* l)
{
    return rw_lock(l, false, true, RA);
}
EXPORT int
pthread_rwlock_trywrlock(pthread_rwlock_t* l)
{
    return rw_lock(l, true, true, RA);
}
EXPORT int
pthread_rwlock_unlock(pthread_rwlock_t* l)
{
    if (!g_active)
        return get_pthread_rwlock_unlock()(l);
    Sync* s = get_sync((uintptr_t)l);
    hb_release_join(s);
    if (s->owner == cur->id + 1)
        s->owner = 0;
    else if (s->count > 0)
        s->count--;
    wake_all(B_RW, (uintptr_t)l);
    yp(Y_UNLOCK, (uintptr_t)l, site(RA), s->shared);
    return 0;
}

// ---------------------------------------------------------------- once, guards
EXPORT int
pthread_once(pthread_once_t* o, void (*fn)(void))
{
    if (!g_active)
        return get_pthread_once()(o, fn);
    uintptr_t a = (uintptr_t)o, pc = RA;
    Sync* s = get_sync(a);
    touch(s, site(pc));
    yp(Y_LOCK, a, site(pc), s->shared);
    for (;;) {
        if ((*(volatile int*)o & 3) == 2) {
            hb_acquire(s);
            return 0;
        }
        if (s->guard_state == 0)
            break;
        block(B_GUARD, a, NODL, 0, pc);
    }
    s->guard_state = 1;
    fn();
    *(volatile int*)o = 2;
    s->guard_state = 0;
    hb_release_join(s);
    wake_all(B_GUARD, a);
    return 0;
}
EXPORT int
__cxa_guard_acquire(void* g)
{
    if (!g_active)
        return get___cxa_guard_acquire()(g);
    uintptr_t a = (uintptr_t)g, pc = RA;
    Sync* s = get_sync(a);
    touch(s, site(pc));
    yp(Y_LOCK, a, site(pc), true);
    for (;;) {
        if (*(volatile u8*)g == 1) {
            hb_acquire(s);
            return 0;
        }
        if (s->guard_state == 0)
            break;
        block(B_GUARD, a, NODL, 0, pc);
    }
    s->guard_state = 1;
    hb_acquire(s);
    return 1;
}
EXPORT void
__cxa_guard_release(void* g)
{
    if (!g_active) {
        get___cxa_guard_release()(g);
        return;
    }
    Sync* s = get_sync((uintptr_t)g);
    *(volatile u8*)g = 1;
    s->guard_state = 0;
    hb_release_join(s);
    wake_all(B_GUARD, (uintptr_t)g);
    yp(Y_UNLOCK, (uintptr_t)g, site(RA), true);
}
EXPORT void
__cxa_guard_abort(void* g)
{
    if (!g_active) {
        get___cxa_guard_abort()(g);
        return;
    }
    Sync* s = get_sync((uintptr_t)g);
    s->guard_state = 0;
    wake_all(B_GUARD, (uintptr_t)g);
}

// ---------------------------------------------------------------- time
static int
do_sleep(i64 dl, int clk, timespec* rem, uintptr_t pc)
{
    ++cnt_sleep;
    yp(Y_SYS, 0, site(pc), true);
    i64 e = clk ? dl - g_walloff : dl;
    if (e <= g_now)
        return 0;
    if (cur->eintr_in_row < 3 && fault(D_EINTR, C.f_eintr)) {
        cur->eintr_in_row++;
        // interrupted somewhere in the middle
        i64 part = (e - g_now) / 2;
        block(B_SLEEP, 0, g_now + part, 0, pc);
        i64 left = e - g_now;
        if (left > 0) {
            if (rem) {
                rem->tv_sec = left / 1000000000;
                rem->tv_nsec = left % 1000000000;
            }
            return EINTR;
        }
        return 0;
    }
    cur->eintr_in_row = 0;
    block(B_SLEEP, 0, dl, clk, pc);
    return 0;
}
EXPORT int
nanosleep(const timespec* t, timespec* rem)
{
    if (!g_active)
        return get_nanosleep()(t, rem);
    i64 d = ts_ns(t);
    if (d < 0 || t->tv_nsec < 0 || t->tv_nsec > 999999999) {
        errno = EINVAL;
        return -1;
    }
    i64 dl = d > NODL - g_now - 1 ? NODL - 1 : g_now + d;
    int e = do_sleep(dl, 0, rem, RA);
    if (e) {
        errno = e;
        return -1;
    }
    return 0;
}
EXPORT int
clock_nanosleep(clockid_t c, int flags, const timespec* t, timespec* rem)
{
    if (!g_active)
        return get_clock_nanosleep()(c, flags, t, rem);
    int clk = 0;
    i64 dl;
    if (flags & TIMER_ABSTIME)
        dl = user_dl(c, t, &clk);
    else {
        i64 d = ts_ns(t);
        dl = d > NODL - g_now - 1 ? NODL - 1 : g_now + d;
    }
    return do_sleep(dl, clk, (flags & TIMER_ABSTIME) ? nullptr : rem, RA);
}
EXPORT int
usleep(useconds_t u)
{
    timespec t = { (time_t)(u / 1000000), (long)(u % 1000000) * 1000 };
    return nanosleep(&t, nullptr);
}
EXPORT unsigned
sleep(unsigned s)
{
    timespec t = { (time_t)s, 0 }, r = { 0, 0 };
    if (nanosleep(&t, &r))
        return (unsigned)r.tv_sec + 1;
    return 0;
}
EXPORT int
sched_yield(void)
{
    if (!g_active)
        return (int)raw(SYS_sched_yield);
    Th* me = cur;
    me->spin += 8;
    yp(Y_SYS, 0, site(RA), true);
    return 0;
}
EXPORT int
clock_gettime(clockid_t c, timespec* t)
{
    if (!g_active)
        return get_clock_gettime()(c, t);
    yp(Y_CLOCK, 0, site(RA), false);
    i64 v = g_now + MONO0;
    if (c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE)
        v = g_now + g_walloff + REAL0;
    t->tv_sec = v / 1000000000;
    t->tv_nsec = v % 1000000000;
    return 0;
}
EXPORT int
gettimeofday(timeval* t, void* z)
{
    if (!g_active)
        return get_gettimeofday()(t, z);
    i64 v = g_now + g_walloff + REAL0;
    t->tv_sec = v / 1000000000;
    t->tv_usec = (v % 1000000000) / 1000;
    return 0;
}
EXPORT time_t
time(time_t* t)
{
    timespec s;
    clock_gettime(CLOCK_REALTIME, &s);
    if (t)
        *t = s.tv_sec;
    return s.tv_sec;
}

// ---------------------------------------------------------------- virtual fds
struct Vfd
{
    bool open;
    int kind; // 0 socket 1 eventfd 2 pipe read 3 pipe write
    int peer; // index or -1
    bool nonblock;
    u32 head, len, cap;
    u8* buf;
    u64 counter;
    i64 redge, wedge;
    int ref;
};
static Vfd V[VFD_N];
static inline Vfd*
vfd(int fd)
{
    int i = fd - (fd < FD_SETSIZE ? 400 : FD_SETSIZE); // sim_high_fds may change between two
    if (i < 0 || i >= VFD_N)
        return nullptr;
    return &V[i];
}
static int
v_alloc(int kind, u32 cap)
{
    for (int i = 0; i < VFD_N; ++i)
        if (!V[i].open && !V[i].ref) {
            memset(&V[i], 0, sizeof(Vfd));
            V[i].open = true;
            V[i].ref = 1; // numbers are not reused within a run
            V[i].kind = kind;
            V[i].peer = -1;
            V[i].cap = cap;
            V[i].buf = (u8*)pb_alloc(cap + 1);
            return i;
        }
    msg("out of virtual descriptors");
    finish(SIM_INTERNAL);
}
static bool
v_readable(Vfd* v)
{
    if (v->kind == 1)
        return v->counter > 0;
    if (v->kind == 3)
        return false;
    if (v->len)
        return true;
    return v->peer < 0 || !V[v->peer].open; // EOF
}
static bool
v_writable(Vfd* v)
{
    if (v->kind == 1)
        return true;
    if (v->kind == 2)
        return false;
    if (v->peer < 0 || !V[v->peer].open)
        return true; // EPIPE
    return V[v->peer].len < V[v->peer].cap;
}
static void
v_sync(bool release)
{
    // kernel objects order their users
    Sync* s = get_sync((uintptr_t)V);
    if (release)
        hb_release_join(s);
    else
        hb_acquire(s);
}
static void
v_changed()
{
    wake_all(B_FD, 0);
}
EXPORT int
socketpair(int d, int t, int p, int* sv)
{
    if (!g_active)
        return get_socketpair()(d, t, p, sv);
    int a = v_alloc(0, 64), b = v_alloc(0, 64);
    V[a].peer = b;
    V[b].peer = a;
    V[a].nonblock = V[b].nonblock = (t & SOCK_NONBLOCK) != 0;
    sv[0] = g_vfd_base + a;
    sv[1] = g_vfd_base + b;
    return 0;
}
EXPORT int
pipe2(int* sv, int fl)
{
    if (!g_active)
        return get_pipe2()(sv, fl);
    int a = v_alloc(2, 4096), b = v_alloc(3, 1);
    V[a].peer = b;
    V[b].peer = a;
    V[a].nonblock = V[b].nonblock = (fl & O_NONBLOCK) != 0;
    sv[0] = g_vfd_base + a;
    sv[1] = g_vfd_base + b;
    return 0;
}
EXPORT int
pipe(int* sv)
{
    if (!g_active)
        return get_pipe()(sv);
    return pipe2(sv, 0);
}
EXPORT int
eventfd(unsigned c, int fl)
{
    if (!g_active)
        return get_eventfd()(c, fl);
    int a = v_alloc(1, 1);
    V[a].counter = c;
    V[a].nonblock = (fl & O_NONBLOCK) != 0;
    return g_vfd_base + a;
}
static ssize_t
v_read(int fd, void* b, size_t n, bool peek, bool dontwait, uintptr_t pc)
{
    Vfd* v = vfd(fd);
    yp(Y_SYS, 0, site(pc), true);
    for (;;) {
        if (!v->open) {
            errno = EBADF;
            return -1;
        }
        if (v_readable(v))
            break;
        if (v->nonblock || dontwait) {
            errno = EAGAIN;
            return -1;
        }
        block(B_FD, 0, NODL, 0, pc);
    }
    v_sync(false);
    if (v->kind == 1) {
        u64 c = v->counter;
        v->counter = 0;
        memcpy(b, &c, n < 8 ? n : 8);
        return 8;
    }
    size_t k = 0;
    for (; k < n && k < v->len; ++k)
        ((u8*)b)[k] = v->buf[(v->head + k) % v->cap];
    if (!peek) {
        bool full = v->len >= v->cap;
        v->head = (u32)((v->head + k) % v->cap);
        v->len -= (u32)k;
        if (full && v->len < v->cap && v->peer >= 0)
            V[v->peer].wedge++;
    }
    v_changed();
    VLOG("read fd%d -> %zu", fd, k);
    return (ssize_t)k;
}
static ssize_t
v_write(int fd, const void* b, size_t n, bool dontwait, uintptr_t pc)
{
    Vfd* v = vfd(fd);
    yp(Y_SYS, 0, site(pc), true);
    for (;;) {
        if (!v->open) {
            errno = EBADF;
            return -1;
        }
        if (v_writable(v))
            break;
        if (v->nonblock || dontwait) {
            errno = EAGAIN;
            return -1;
        }
        block(B_FD, 0, NODL, 0, pc);
    }
    v_sync(true);
    if (v->kind == 1) {
        u64 c = 0;
        memcpy(&c, b, n < 8 ? n : 8);
        if (!v->counter && c)
            v->redge++;
        v->counter += c;
        v_changed();
        return 8;
    }
    if (v->peer < 0 || !V[v->peer].open) {
        errno = EPIPE;
        return -1;
    }
    Vfd* q = &V[v->peer];
    if (!q->len)
        q->redge++;
    size_t k = 0;
    while (k < n && q->len < q->cap) {
        q->buf[(q->head + q->len) % q->cap] = ((const u8*)b)[k++];
        q->len++;
    }
    v_changed();
    VLOG("write fd%d %zu", fd, k);
    return (ssize_t)k;
}
EXPORT ssize_t
read(int fd, void* b, size_t n)
{
    if (!g_active || !vfd(fd))
        return get_read()(fd, b, n);
    return v_read(fd, b, n, false, false, RA);
}
EXPORT ssize_t
write(int fd, const void* b, size_t n)
{
    if (!g_active || !vfd(fd))
        return get_write()(fd, b, n);
    return v_write(fd, b, n, false, RA);
}
EXPORT ssize_t
recv(int fd, void* b, size_t n, int fl)
{
    if (!g_active || !vfd(fd))
        return get_recv()(fd, b, n, fl);
    return v_read(fd, b, n, fl & MSG_PEEK, fl & MSG_DONTWAIT, RA);
}
EXPORT ssize_t
send(int fd, const void* b, size_t n, int fl)
{
    if (!g_active || !vfd(fd))
        return get_send()(fd, b, n, fl);
    return v_write(fd, b, n, fl & MSG_DONTWAIT, RA);
}
EXPORT int
eventfd_read(int fd, eventfd_t* v)
{
    if (!g_active || !vfd(fd))
        return get_read()(fd, v, 8) == 8 ? 0 : -1;
    return v_read(fd, v, 8, false, false, RA) == 8 ? 0 : -1;
}
EXPORT int
eventfd_write(int fd, eventfd_t v)
{
    if (!g_active || !vfd(fd))
        return get_write()(fd, &v, 8) == 8 ? 0 : -1;
    return v_write(fd, &v, 8, false, RA) == 8 ? 0 : -1;
}
EXPORT int
close(int fd)
{
    if (!g_active || !vfd(fd))
        return get_close()(fd);
    Vfd* v = vfd(fd);
    yp(Y_SYS, 0, site(RA), true);
    if (!v->open) {
        errno = EBADF;
        return -1;
    }
    v->open = false;
    v_sync(true);
    if (v->peer >= 0) {
        V[v->peer].redge++;
        V[v->peer].wedge++;
    }
    v_changed();
    VLOG("close fd%d", fd);
    return 0;
}
EXPORT int
fcntl(int fd, int cmd, ...)
{
    va_list ap;
    va_start(ap, cmd);
    long arg = va_arg(ap, long);
    va_end(ap);
    if (!g_active || !vfd(fd)) {
        long r = raw(SYS_fcntl, fd, cmd, arg);
        if (r < 0) {
            errno = (int)-r;
            return -1;
        }
        return (int)r;
    }
    Vfd* v = vfd(fd);
    if (!v->open) {
        errno = EBADF;
        return -1;
    }
    if (cmd == F_GETFL)
        return O_RDWR | (v->nonblock ? O_NONBLOCK : 0);
    if (cmd == F_SETFL)
        v->nonblock = (arg & O_NONBLOCK) != 0;
    return 0;
}
static int
do_select(int n, fd_set* r, fd_set* w, fd_set* x, i64 timeout, uintptr_t pc)
{
    ++cnt_select;
    i64 dl = timeout < 0 ? NODL : g_now + timeout;
    yp(Y_SYS, 0, site(pc), true);
    if (n > FD_SETSIZE) {
        msg("the set handed to select() is overrun: descriptor %d, it ends at %d", n - 1, FD_SETSIZE);
        add_stack(cur, pc, 10);
        finish(SIM_MEMORY);
    }
    for (int fd = 0; fd < n; ++fd) {
        if ((r && FD_ISSET(fd, r)) || (w && FD_ISSET(fd, w)) || (x && FD_ISSET(fd, x))) {
            Vfd* v = vfd(fd);
            if (!v || !v->open) {
                errno = EBADF;
                return -1;
            }
        }
    }
    bool expired = false;
    bool intr = cur->eintr_in_row < 3 && fault(D_EINTR, C.f_eintr);
    if (intr)
        cur->eintr_in_row++;
    else
        cur->eintr_in_row = 0;
    for (;;) {
        fd_set ro, wo;
        FD_ZERO(&ro);
        FD_ZERO(&wo);
        int cnt = 0;
        for (int fd = 0; fd < n; ++fd) {
            Vfd* v = vfd(fd);
            if (!v || !v->open)
                continue;
            if (r && FD_ISSET(fd, r) && v_readable(v)) {
                FD_SET(fd, &ro);
                ++cnt;
            }
            if (w && FD_ISSET(fd, w) && v_writable(v)) {
                FD_SET(fd, &wo);
                ++cnt;
            }
        }
        if (cnt || expired) {
            if (r)
                *r = ro;
            if (w)
                *w = wo;
            if (x)
                FD_ZERO(x);
            v_sync(false);
            VLOG("select -> %d", cnt);
            return cnt;
        }
        if (intr) {
            VLOG("select -> EINTR");
            errno = EINTR;
            return -1;
        }
        expired = block(B_FD, 0, dl, 0, pc) == 1;
    }
}
EXPORT int
select(int n, fd_set* r, fd_set* w, fd_set* x, timeval* tv)
{
    if (!g_active)
        return get_select()(n, r, w, x, tv);
    i64 to = tv ? tv->tv_sec * 1000000000ll + tv->tv_usec * 1000ll : -1;
    return do_select(n, r, w, x, to, RA);
}
EXPORT int
pselect(int n, fd_set* r, fd_set* w, fd_set* x, const timespec* ts, const sigset_t*)
{
    return do_select(n, r, w, x, ts ? ts_ns(ts) : -1, RA);
}
static int
do_poll(pollfd* f, nfds_t n, i64 timeout, uintptr_t pc)
{
    ++cnt_select;
    i64 dl = timeout < 0 ? NODL : g_now + timeout;
    yp(Y_SYS, 0, site(pc), true);
    bool expired = timeout == 0;
    bool intr = cur->eintr_in_row < 3 && fault(D_EINTR, C.f_eintr);
    if (intr)
        cur->eintr_in_row++;
    else
        cur->eintr_in_row = 0;
    for (;;) {
        int cnt = 0;
        for (nfds_t i = 0; i < n; ++i) {
            f[i].revents = 0;
            if (f[i].fd < 0)
                continue;
            Vfd* v = vfd(f[i].fd);
            if (!v || !v->open)
                f[i].revents = POLLNVAL;
            else {
                if ((f[i].events & POLLIN) && v_readable(v))
                    f[i].revents |= POLLIN;
                if ((f[i].events & POLLOUT) && v_writable(v))
                    f[i].revents |= POLLOUT;
            }
            cnt += f[i].revents != 0;
        }
        if (cnt || expired) {
            v_sync(false);
            VLOG("poll of %d: %d ready, first fd %d revents %d, timeout %lld", (int)n, cnt,
                 n ? f[0].fd : -1, n ? f[0].revents : 0, (long long)timeout);
            return cnt;
        }
        if (intr) {
            VLOG("poll -> EINTR");
            errno = EINTR;
            return -1;
        }
        expired = block(B_FD, 0, dl, 0, pc) == 1;
    }
}
EXPORT int
poll(pollfd* f, nfds_t n, int ms)
{
    if (!g_active)
        return get_poll()(f, n, ms);
    return do_poll(f, n, ms < 0 ? -1 : ms * 1000000ll, RA);
}
EXPORT int
ppoll(pollfd* f, nfds_t n, const timespec* t, const sigset_t* s)
{
    if (!g_active)
        return get_ppoll()(f, n, t, s);
    return do_poll(f, n, t ? ts_ns(t) : -1, RA);
}

// ---------------------------------------------------------------- syscall(2)
EXPORT long
syscall(long nr, ...)
{
    va_list ap;
    va_start(ap, nr);
    long a = va_arg(ap, long), b = va_arg(ap, long), c = va_arg(ap, long),
         d = va_arg(ap, long), e = va_arg(ap, long), f = va_arg(ap, long);
    va_end(ap);
    if (g_active) {
        uintptr_t pc = RA;
        if (nr == SYS_gettid)
            return 1000 + cur->id;
        if (nr == SYS_futex) {
            int op = (int)b & 127 & ~FUTEX_CLOCK_REALTIME;
            u32* ad = (u32*)a;
            switch (op) {
                case FUTEX_WAIT:
                case FUTEX_WAIT_BITSET: {
                    yp(Y_SYS, (uintptr_t)a, site(pc), true);
                    if (__atomic_load_n(ad, __ATOMIC_SEQ_CST) != (u32)c) {
                        errno = EAGAIN;
                        return -1;
                    }
                    i64 dl = NODL;
                    int clk = 0;
                    if (d) {
                        if (op == FUTEX_WAIT)
                            dl = g_now + ts_ns((timespec*)d);
                        else
                            dl = user_dl((b & FUTEX_CLOCK_REALTIME) ? CLOCK_REALTIME
                                                                    : CLOCK_MONOTONIC,
                                         (timespec*)d,
                                         &clk);
                    }
                    if (block(B_FUTEX, (uintptr_t)a, dl, clk, pc) == 1) {
                        errno = ETIMEDOUT;
                        return -1;
                    }
                    return 0;
                }
                case FUTEX_WAKE:
                case FUTEX_WAKE_BITSET: {
                    yp(Y_SYS, (uintptr_t)a, site(pc), true);
                    long n = 0;
                    while (n < c) {
                        Th* bst = nullptr;
                        for (int i = 0; i < nT; ++i) {
                            Th* t = &T[i];
                            if (t->state == T_BLOCKED && t->bkind == B_FUTEX &&
                                t->bobj == (uintptr_t)a && (!bst || t->bseq < bst->bseq))
                                bst = t;
                        }
                        if (!bst)
                            break;
                        make_runnable(bst, 0);
                        ++n;
                    }
                    return n;
                }
                default:
                    msg("unsupported futex operation %d", op);
                    finish(SIM_INTERNAL);
            }
        }
        if (nr == SYS_clock_gettime)
            return clock_gettime((clockid_t)a, (timespec*)b);
    }
    long r = raw(nr, a, b, c, d, e, f);
    if (r < 0 && r > -4096) {
        errno = (int)-r;
        return -1;
    }
    return r;
}
EXPORT pid_t
gettid(void)
{
    return g_active ? 1000 + cur->id : (pid_t)raw(SYS_gettid);
}

// ---------------------------------------------------------------- environment
EXPORT long
sysconf(int n)
{
    if (g_active && (n == _SC_NPROCESSORS_ONLN || n == _SC_NPROCESSORS_CONF))
        return C.ncpu;
    return get_sysconf()(n);
}
EXPORT int
get_nprocs(void)
{
    return g_active ? C.ncpu : (int)get_sysconf()(_SC_NPROCESSORS_ONLN);
}
static int g_prio[MAXT];
EXPORT int
setpriority(__priority_which_t w, id_t who, int p)
{
    if (!g_active)
        return get_setpriority()(w, who, p);
    yp(Y_SYS, 0, site(RA), false);
    if (fault(D_SYSFAIL, C.f_sysfail)) {
        errno = EACCES;
        return -1;
    }
    g_prio[cur->id] = p;
    return 0;
}
EXPORT int
getpriority(__priority_which_t w, id_t who)
{
    if (!g_active)
        return get_getpriority()(w, who);
    return 0;
}
EXPORT int
prctl(int op, ...)
{
    va_list ap;
    va_start(ap, op);
    const long a = va_arg(ap, long), b = va_arg(ap, long);
    const long c = va_arg(ap, long), d = va_arg(ap, long);
    va_end(ap);
    if (g_active)
        return 0; // thread names and priorities
    return (int)raw(SYS_prctl, op, a, b, c, d);
}
EXPORT int
pthread_setname_np(pthread_t, const char*)
{
    return 0;
}
EXPORT int
pthread_setschedparam(pthread_t, int, const sched_param*)
{
    return 0;
}
EXPORT int
rand(void)
{
    return g_active ? (int)(mix(C.seed + ++g_seq) & 0x7fffffff) : 4;
}

// ---------------------------------------------------------------- Qt
// QtCore runs for real, but is not instrumented: its locks and events are invisible
// to the happens-before relation. Control that comes back from it into instrumented
// code is therefore taken as ordered after everything that happened so far, and its
// entry points become scheduling points.
static void*
qt_real(const char* n)
{
    void* p = dlsym(RTLD_NEXT, n);
    if (!p)
        die_raw("sim: Qt function not found\n");
    return p;
}
#define QTWRAP(ret, id, sym, params, args)                                       \
    EXPORT ret id params __asm__(sym);                                         \
    ret id params                                                              \
    {                                                                          \
        static ret(*real) params;                                              \
        if (!real)                                                             \
            real = (ret(*) params)qt_real(sym);                                \
        if (!g_active)                                                         \
            return real args;                                                  \
        yp(Y_SYS, 0, site(RA), true);                                          \
        struct after                                                           \
        {                                                                      \
            ~after() { qt_order(); }                                           \
        } a_;                                                                  \
        return real args;                                                      \
    }
QTWRAP(void, qt_mutex_lock, "_ZN6QMutex4lockEv", (void* m), (m))
QTWRAP(void, qt_mutex_unlock, "_ZN6QMutex6unlockEv", (void* m), (m))
QTWRAP(void, qt_post, "_ZN16QCoreApplication9postEventEP7QObjectP6QEventi",
       (void* o, void* e, int p), (o, e, p))
QTWRAP(void, qt_pool_start, "_ZN11QThreadPool5startEP9QRunnablei", (void* t, void* r, int p),
       (t, r, p))
QTWRAP(bool, qt_pool_wait, "_ZN11QThreadPool11waitForDoneEi", (void* t, int ms), (t, ms))
QTWRAP(void, qt_pool_res, "_ZN11QThreadPool13reserveThreadEv", (void* t), (t))
QTWRAP(void, qt_set_parent, "_ZN7QObject9setParentEPS_", (void* t, void* p), (t, p))
QTWRAP(void, qt_move, "_ZN7QObject12moveToThreadEP7QThread", (void* t, void* p), (t, p))
QTWRAP(void, qt_delete_later, "_ZN7QObject11deleteLaterEv", (void* t), (t))
QTWRAP(void, qt_pool_rel, "_ZN11QThreadPool13releaseThreadEv", (void* t), (t))

// ---------------------------------------------------------------- tsan ABI: plain
#define TS(name) __tsan_##name
EXPORT void
TS(init)(void)
{}
EXPORT void
TS(func_entry)(void* pc)
{
    if (LIKELY(g_active)) {
        Th* c = cur;
        if (UNLIKELY((uintptr_t)pc - qt_lo < qt_sz))
            qt_order();
        c->cs[c->csn & 63] = (uintptr_t)pc;
        c->csn++;
        if (UNLIKELY(C.fine))
            yp(Y_FUNC, 0, site((uintptr_t)pc), true);
    }
}
EXPORT void
TS(func_exit)(void)
{
    if (LIKELY(g_active)) {
        Th* c = cur;
        if (c->csn)
            c->csn--;
    }
}
#define RW(n)                                                                  \
    EXPORT void TS(read##n)(void* a) { access((uintptr_t)a, n, 0, RA); }       \
    EXPORT void TS(write##n)(void* a) { access((uintptr_t)a, n, 1, RA); }      \
    EXPORT void TS(unaligned_read##n)(void* a) { access((uintptr_t)a, n, 0, RA); } \
    EXPORT void TS(unaligned_write##n)(void* a) { access((uintptr_t)a, n, 1, RA); } \
    EXPORT void TS(volatile_read##n)(void* a) { access((uintptr_t)a, n, 0, RA); } \
    EXPORT void TS(volatile_write##n)(void* a) { access((uintptr_t)a, n, 1, RA); }
RW(1)
RW(2)
RW(4)
RW(8)
RW(16)
EXPORT void
TS(read_range)(void* a, size_t n)
{
    if (n)
        access((uintptr_t)a, (u32)n, 0, RA);
}
EXPORT void
TS(write_range)(void* a, size_t n)
{
    if (n)
        access((uintptr_t)a, (u32)n, 1, RA);
}
EXPORT void
TS(vptr_update)(void** a, void* v)
{
    // updating to the same value is what every base class destructor does
    access((uintptr_t)a, 8, *a != v ? 1 : 0, RA);
}
EXPORT void
TS(vptr_read)(void** a)
{
    access((uintptr_t)a, 8, 0, RA);
}

// ---------------------------------------------------------------- tsan ABI: atomics
enum
{
    mo_relaxed,
    mo_consume,
    mo_acquire,
    mo_release,
    mo_acq_rel,
    mo_seq_cst
};
static inline bool
is_acq(int mo)
{
    return mo == mo_consume || mo == mo_acquire || mo == mo_acq_rel || mo == mo_seq_cst;
}
static inline bool
is_rel(int mo)
{
    return mo == mo_release || mo == mo_acq_rel || mo == mo_seq_cst;
}
static inline Sync*
at_enter(const volatile void* p, u32 size, int kind, int mo, uintptr_t pc)
{
    uintptr_t a = (uintptr_t)p;
    if (in_arena(a))
        check_alive(a, pc);
    Sync* s = get_sync(a);
    Th* c = cur;
    if (kind == Y_LOAD) {
        if (c->spin_pc == pc && c->spin_addr == a)
            c->spin++;
        else {
            c->spin = 0;
            c->spin_pc = pc;
            c->spin_addr = a;
        }
        if (s->toucher != c->id && s->toucher >= 0)
            s->shared = true;
    } else {
        touch(s, pc);
    }
    yp(kind, a, pc, s->shared);
    if (in_arena(a)) { // memory may have been freed while we were away
        check_alive(a, pc);
        s = get_sync(a);
    }
    access(a, size, (kind == Y_LOAD ? 0 : 1) | 2, pc);
    (void)mo;
    return s;
}
static inline void
at_acq(Sync* s, int mo)
{
    if (!s->rel)
        return;
    if (is_acq(mo))
        vc_join(cur->vc, s->rel);
    else {
        vc_join(cur->acq, s->rel);
        cur->has_acq = true;
    }
}
static inline void
at_store_rel(Sync* s, int mo)
{
    Th* c = cur;
    if (is_rel(mo)) {
        memcpy(rel_of(s), c->vc, sizeof(u32) * nT);
        c->vc[c->id]++;
        s->relby = c->id;
    } else if (s->relby == c->id && s->rel) {
        // C++11..17 release sequence continued by the same thread
        if (c->has_rel)
            vc_join(s->rel, c->rel);
    } else if (c->has_rel) {
        memcpy(rel_of(s), c->rel, sizeof(u32) * nT);
        s->relby = c->id;
    } else if (s->rel) {
        memset(s->rel, 0, sizeof(VC));
        s->relby = -1;
    }
}
static inline void
at_rmw_rel(Sync* s, int mo)
{
    Th* c = cur;
    if (is_rel(mo)) {
        vc_join(rel_of(s), c->vc);
        c->vc[c->id]++;
        s->relby = c->id;
    } else if (c->has_rel)
        vc_join(rel_of(s), c->rel);
    // otherwise the release sequence simply continues
}
// --- weak memory: a load which is not seq_cst may return an older value as
// long as neither coherence nor happens-before nor a seq_cst fence forbids it
static u32* g_scf; // joined by every seq_cst fence, store and read-modify-write
static void
sc_publish()
{
    if (!g_scf) {
        g_scf = (u32*)pb_alloc(sizeof(VC));
        memset(g_scf, 0, sizeof(VC));
    }
    vc_join(g_scf, cur->vc);
}
static void
hist_fill(HEnt& e, u64 v, Sync* s)
{
    e.val = v;
    e.t = g_now;
    e.step = g_steps;
    e.has_rel = s->rel != nullptr;
    if (s->rel)
        memcpy(e.rel, s->rel, sizeof(VC));
    memset(e.seen, 0, sizeof e.seen);
}
// before the release clock changes: the value about to be overwritten
static void
hist_pre(Sync* s, u64 old, int size)
{
    Hist* h = s->hist;
    if (h && h->size == size && h->e[h->n - 1].val == old)
        return;
    if (!h) {
        if (hist_free) {
            h = hist_free;
            hist_free = h->next;
        } else
            h = (Hist*)pb_alloc(sizeof(Hist));
        s->hist = h;
    }
    h->size = size;
    h->n = 1;
    hist_fill(h->e[0], old, s);
}
// after it: the new value
static void
hist_push(Sync* s, u64 v, int mo)
{
    Hist* h = s->hist;
    if (!h)
        return;
    if (h->n == HISTN) {
        memmove(&h->e[0], &h->e[1], sizeof(HEnt) * (HISTN - 1));
        --h->n;
    }
    HEnt& e = h->e[h->n++];
    hist_fill(e, v, s);
    // the store belongs to the epoch in which it was made: a release operation
    // has advanced the epoch already
    u32 ep = cur->vc[cur->id];
    e.seen[cur->id] = is_rel(mo) && ep > 1 ? ep - 1 : ep;
    if (mo == mo_seq_cst)
        sc_publish();
}
static bool
hist_known(const HEnt& e)
{
    const Th* c = cur;
    if (e.seen[c->id])
        return true;
    for (int u = 0; u < nT; ++u)
        if (e.seen[u] && (e.seen[u] <= c->vc[u] || (c->scv && e.seen[u] <= c->scv[u])))
            return true;
    return false;
}
static const u64 STALE_STEPS = 300;
static i64 fault_n(int kind, u32 inv, i64 n);
// how many values back this load reads; marks what the thread knows from now on
static int
hist_load(Sync* s, u64 now_val, int size, int mo)
{
    Hist* h = s->hist;
    Th* c = cur;
    if (!h)
        return 0;
    if (h->size != size || h->e[h->n - 1].val != now_val) {
        h->size = size;
        h->n = 1;
        hist_fill(h->e[0], now_val, s);
        return 0;
    }
    int top = h->n - 1, lo = top, back = 0;
    if (mo != mo_seq_cst) {
        while (lo > 0 && !hist_known(h->e[lo]) && g_steps - h->e[lo].step <= STALE_STEPS &&
               g_now - h->e[lo].t <= 20000 + 50 * (i64)C.step_ns)
            --lo;
        if (lo < top && c->stale_in_row < 3)
            back = (int)fault_n(D_STALE, C.f_stale, top - lo);
    }
    if (back > top - lo)
        back = top - lo;
    c->stale_in_row = back ? c->stale_in_row + 1 : 0;
    for (int k = 0; k <= top - back; ++k)
        if (!h->e[k].seen[c->id])
            h->e[k].seen[c->id] = c->vc[c->id];
    return back;
}
template<typename V>
static inline V
at_load(const volatile V* p, int mo, uintptr_t pc)
{
    if (UNLIKELY(!g_active))
        return __atomic_load_n(p, __ATOMIC_SEQ_CST);
    Sync* s = at_enter(p, sizeof(V), Y_LOAD, mo, pc);
    V v = *p;
    if (UNLIKELY(C.f_stale)) {
        int back = hist_load(s, (u64)v, sizeof(V), mo);
        if (back) {
            HEnt& e = s->hist->e[s->hist->n - 1 - back];
            if (e.has_rel) {
                if (is_acq(mo))
                    vc_join(cur->vc, e.rel);
                else {
                    vc_join(cur->acq, e.rel);
                    cur->has_acq = true;
                }
            }
            return (V)e.val;
        }
    }
    at_acq(s, mo);
    return v;
}
template<typename V>
static inline void
at_store(volatile V* p, V v, int mo, uintptr_t pc)
{
    if (UNLIKELY(!g_active)) {
        __atomic_store_n(p, v, __ATOMIC_SEQ_CST);
        return;
    }
    Sync* s = at_enter(p, sizeof(V), Y_STORE, mo, pc);
    if (UNLIKELY(C.f_stale))
        hist_pre(s, (u64)*p, sizeof(V));
    at_store_rel(s, mo);
    *p = v;
    if (UNLIKELY(C.f_stale))
        hist_push(s, (u64)v, mo);
}
template<typename V, typename F>
static inline V
at_rmw(volatile V* p, int mo, uintptr_t pc, F f)
{
    if (UNLIKELY(!g_active)) {
        V o = *p;
        while (!__atomic_compare_exchange_n(
          p, &o, f(o), false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST)) {
        }
        return o;
    }
    Sync* s = at_enter(p, sizeof(V), Y_RMW, mo, pc);
    V o = *p;
    if (UNLIKELY(C.f_stale))
        hist_pre(s, (u64)o, sizeof(V));
    at_acq(s, mo);
    at_rmw_rel(s, mo);
    V nv = f(o);
    *p = nv;
    if (UNLIKELY(C.f_stale))
        hist_push(s, (u64)nv, mo);
    return o;
}
template<typename V>
static inline int
at_cas(volatile V* p, V* exp, V des, int mo, int fmo, bool weak, uintptr_t pc)
{
    if (UNLIKELY(!g_active))
        return __atomic_compare_exchange_n(
          p, exp, des, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);
    Sync* s = at_enter(p, sizeof(V), Y_RMW, mo, pc);
    V o = *p;
    bool ok = o == *exp;
    if (ok && weak) {
        if (cur->cas_in_row < 2 && s->shared && fault(D_CASFAIL, C.f_casfail)) {
            cur->cas_in_row++;
            ok = false;
        } else
            cur->cas_in_row = 0;
    }
    if (ok) {
        if (UNLIKELY(C.f_stale))
            hist_pre(s, (u64)o, sizeof(V));
        at_acq(s, mo);
        at_rmw_rel(s, mo);
        *p = des;
        if (UNLIKELY(C.f_stale))
            hist_push(s, (u64)des, mo);
        return 1;
    }
    if (UNLIKELY(C.f_stale))
        hist_load(s, (u64)o, sizeof(V), mo_seq_cst); // reads the newest value
    at_acq(s, fmo);
    *exp = o;
    return 0;
}
#define ATOM(n, V)                                                             \
    EXPORT V __tsan_atomic##n##_load(const volatile V* a, int mo)              \
    {                                                                          \
        return at_load<V>(a, mo, RA);                                          \
    }                                                                          \
    EXPORT void __tsan_atomic##n##_store(volatile V* a, V v, int mo)           \
    {                                                                          \
        at_store<V>(a, v, mo, RA);                                             \
    }                                                                          \
    EXPORT V __tsan_atomic##n##_exchange(volatile V* a, V v, int mo)           \
    {                                                                          \
        return at_rmw<V>(a, mo, RA, [v](V) { return v; });                     \
    }                                                                          \
    EXPORT V __tsan_atomic##n##_fetch_add(volatile V* a, V v, int mo)          \
    {                                                                          \
        return at_rmw<V>(a, mo, RA, [v](V o) { return (V)(o + v); });          \
    }                                                                          \
    EXPORT V __tsan_atomic##n##_fetch_sub(volatile V* a, V v, int mo)          \
    {                                                                          \
        return at_rmw<V>(a, mo, RA, [v](V o) { return (V)(o - v); });          \
    }                                                                          \
    EXPORT V __tsan_atomic##n##_fetch_and(volatile V* a, V v, int mo)          \
    {                                                                          \
        return at_rmw<V>(a, mo, RA, [v](V o) { return (V)(o & v); });          \
    }                                                                          \
    EXPORT V __tsan_atomic##n##_fetch_or(volatile V* a, V v, int mo)           \
    {                                                                          \
        return at_rmw<V>(a, mo, RA, [v](V o) { return (V)(o | v); });          \
    }                                                                          \
    EXPORT V __tsan_atomic##n##_fetch_xor(volatile V* a, V v, int mo)          \
    {                                                                          \
        return at_rmw<V>(a, mo, RA, [v](V o) { return (V)(o ^ v); });          \
    }                                                                          \
    EXPORT V __tsan_atomic##n##_fetch_nand(volatile V* a, V v, int mo)         \
    {                                                                          \
        return at_rmw<V>(a, mo, RA, [v](V o) { return (V)~(o & v); });         \
    }                                                                          \
    EXPORT int __tsan_atomic##n##_compare_exchange_strong(                     \
      volatile V* a, V* c, V v, int mo, int fmo)                               \
    {                                                                          \
        return at_cas<V>(a, c, v, mo, fmo, false, RA);                         \
    }                                                                          \
    EXPORT int __tsan_atomic##n##_compare_exchange_weak(                       \
      volatile V* a, V* c, V v, int mo, int fmo)                               \
    {                                                                          \
        return at_cas<V>(a, c, v, mo, fmo, true, RA);                          \
    }                                                                          \
    EXPORT V __tsan_atomic##n##_compare_exchange_val(                          \
      volatile V* a, V c, V v, int mo, int fmo)                                \
    {                                                                          \
        at_cas<V>(a, &c, v, mo, fmo, false, RA);                               \
        return c;                                                              \
    }
ATOM(8, u8)
ATOM(16, uint16_t)
ATOM(32, u32)
ATOM(64, u64)
EXPORT void
__tsan_atomic_thread_fence(int mo)
{
    if (!g_active)
        return;
    yp(Y_RMW, 0, RA, true);
    Th* c = cur;
    if (is_acq(mo) && c->has_acq)
        vc_join(c->vc, c->acq);
    if (mo == mo_seq_cst && C.f_stale) {
        // the total order of seq_cst fences does not synchronise, but what was
        // visible to an earlier one is not missed after a later one
        sc_publish();
        if (!c->scv) {
            c->scv = (u32*)pb_alloc(sizeof(VC));
            memset(c->scv, 0, sizeof(VC));
        }
        vc_join(c->scv, g_scf);
    }
    if (is_rel(mo)) {
        memcpy(c->rel, c->vc, sizeof(VC));
        c->has_rel = true;
        c->vc[c->id]++;
    }
}
EXPORT void
__tsan_atomic_signal_fence(int)
{}

// ---------------------------------------------------------------- crash handling
static void
on_signal(int sig, siginfo_t* si, void* uc_)
{
    if (!g_active) {
        raw(SYS_exit_group, 96);
    }
    ucontext_t* uc = (ucontext_t*)uc_;
    uintptr_t pc = (uintptr_t)uc->uc_mcontext.gregs[REG_RIP];
    msg("%s in T%d",
        sig == SIGABRT   ? "process terminated (abort/terminate)"
        : sig == SIGSEGV ? "segmentation fault"
        : sig == SIGBUS  ? "bus error"
        : sig == SIGFPE  ? "arithmetic fault"
        : sig == SIGILL  ? "illegal instruction"
                         : "signal",
        cur->id);
    if (sig == SIGSEGV) {
        uintptr_t a = (uintptr_t)si->si_addr;
        if (a >= STACKS && a < STACKS + MAXT * STACK_SZ && (a - STACKS) % STACK_SZ < 8192)
            msg(" (stack overflow)");
        else if (a < 65536)
            msg(" (null pointer)");
    }
    add_stack(cur, pc, 10);
    hadd(sig);
    finish(SIM_CRASH);
}

// ---------------------------------------------------------------- API
static int
phdr_cb(dl_phdr_info* i, size_t, void*)
{
    if (exe_lo) {
        if (strstr(i->dlpi_name, "libQt5Core"))
            for (int k = 0; k < i->dlpi_phnum; ++k) {
                const auto& p = i->dlpi_phdr[k];
                if (p.p_type == PT_LOAD && (p.p_flags & PF_X)) {
                    qt_lo = i->dlpi_addr + p.p_vaddr;
                    qt_sz = p.p_memsz;
                }
            }
        return 0;
    }
    // the first entry is the executable
    exe_lo = UINTPTR_MAX;
    for (int k = 0; k < i->dlpi_phnum; ++k) {
        const auto& p = i->dlpi_phdr[k];
        if (p.p_type != PT_LOAD)
            continue;
        uintptr_t a = i->dlpi_addr + p.p_vaddr;
        if (p.p_flags & PF_X) {
            exe_lo = a;
            exe_hi = a + p.p_memsz;
        }
        if (p.p_flags & PF_W) {
            data_lo = a & ~7ull;
            data_hi = (a + p.p_memsz + 7) & ~7ull;
        }
    }
    return 0;
}
EXPORT void
sim_prepare(void)
{
    if (g_prepared)
        return;
    dl_iterate_phdr(phdr_cb, nullptr);
    raw_map(ARENA, ARENA_SZ);
    for (int i = 0; i < MAXT; ++i)
        raw_map(STACKS + i * STACK_SZ + 4096, STACK_SZ - 4096);
    raw_map(SH_ARENA, ARENA_SZ / 8 * NSLOT * sizeof(Slot));
    raw_map(SH_STACK, MAXT * STACK_SZ / 8 * NSLOT * sizeof(Slot));
    raw_map(SH_DATA, ((data_hi - data_lo) / 8 + 1) * NSLOT * sizeof(Slot));
    raw_map(ST_ARENA, ARENA_SZ / 8);
    get_pthread_create();
    get_pthread_join();
    get_pthread_detach();
    get_read();
    get_write();
    get_close();
    get_sysconf();
    get_recv();
    get_send();
    get_pthread_key_create();
    get_pthread_key_delete();
    g_prepared = true;
}
static void (*run_fn)(void*);
static void* run_arg;
static void*
main_tramp(void*)
{
    run_fn(run_arg);
    finish(SIM_OK);
    return nullptr;
}
EXPORT void
sim_run(void (*fn)(void*), void* arg, const sim_cfg* cfg, sim_result* res)
{
    C = *cfg;
    R = res;
    run_fn = fn;
    run_arg = arg;
    u64 z = cfg->seed;
    g_rng[0] = mix(z += 0x9E3779B97F4A7C15ull);
    g_rng[1] = mix(z += 0x9E3779B97F4A7C15ull) | 1;
    g_hash = 0xcbf29ce484222325ull;
    g_shash = 1;
    g_next_dl = NODL;
    g_faults = true;
    g_big = cfg->big_faults;
    g_replay = cfg->strategy == ST_REPLAY;
    ar_p = (u8*)ARENA;
    for (u32 i = 0; i < C.pct_depth && i < 16; ++i)
        pct_points[i] = 1 + rng() % (C.pct_len ? C.pct_len : 1);
    if (C.pct_depth > 16)
        C.pct_depth = 16;
    for (u32 i = 0; i < C.pct_depth; ++i)
        for (u32 j = i + 1; j < C.pct_depth; ++j)
            if (pct_points[j] < pct_points[i]) {
                u64 t = pct_points[i];
                pct_points[i] = pct_points[j];
                pct_points[j] = t;
            }
    struct sigaction sa;
    memset(&sa, 0, sizeof sa);
    sa.sa_sigaction = on_signal;
    sa.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_NODEFER;
    const int sigs[] = { SIGABRT, SIGSEGV, SIGBUS, SIGFPE, SIGILL };
    for (int s : sigs)
        sigaction(s, &sa, nullptr);
    Th* t = spawn(main_tramp, nullptr);
    t->harness = 1;
    cur = t;
    g_active = true;
    give(t);
    for (;;) {
        u32 never = 0;
        futex_wait(&never, 0);
    }
}
EXPORT int
sim_active(void)
{
    return g_active;
}
EXPORT void
sim_realtime(void)
{
    if (!C.f_stale)
        return;
    // The harness orders what it observes by time, whoever made it happen. What
    // one thread had done when it reported an event is visible to every thread
    // that reports a later one. Says nothing about data races.
    static u32* all;
    if (!all) {
        all = (u32*)pb_alloc(sizeof(VC));
        memset(all, 0, sizeof(VC));
    }
    Th* c = cur;
    if (!c->scv) {
        c->scv = (u32*)pb_alloc(sizeof(VC));
        memset(c->scv, 0, sizeof(VC));
    }
    vc_join(all, c->vc);
    vc_join(c->scv, all);
}
EXPORT int64_t
sim_now(void)
{
    sim_realtime();
    return g_now;
}
EXPORT int64_t
sim_stalled(void)
{
    return g_now - clean_now();
}
EXPORT int64_t
sim_busy(void)
{
    return (i64)g_steps * C.step_ns;
}
EXPORT uint64_t
sim_step(void)
{
    return g_steps;
}
EXPORT int
sim_tid(void)
{
    return cur->id;
}
EXPORT int
sim_nthreads_alive(void)
{
    int n = 0;
    for (int i = 1; i < nT; ++i)
        n += !T[i].harness && T[i].state != T_DONE;
    return n;
}
EXPORT void
sim_ev(uint32_t k, int64_t a, int64_t b, int64_t c)
{
    hadd(((u64)k << 32) ^ (u64)a);
    hadd((u64)b * 0x9E3779B97F4A7C15ull ^ (u64)c);
    hadd((u64)g_now);
    sim_realtime();
    VLOG("event %u: %lld %lld %lld", k, (long long)a, (long long)b, (long long)c);
}
EXPORT void
sim_fail(const char* fmt, ...)
{
    va_list ap;
    va_start(ap, fmt);
    vmsg(fmt, ap);
    va_end(ap);
    VLOG("FAIL: %s", R->message);
    finish(SIM_ORACLE);
}
EXPORT void
sim_done(void)
{
    finish(SIM_OK);
}
EXPORT void
sim_probe(int i)
{
    if (i >= 0 && i < 64)
        R->probes[i]++;
}
EXPORT void
sim_sleep(int64_t ns)
{
    if (ns <= 0) {
        yp(Y_HARNESS, 0, 0, true);
        return;
    }
    block(B_SLEEP, 0, g_now + ns, 0, RA);
}
EXPORT void
sim_sleep_event(int threads, int k, int64_t max_ns)
{
    Th* me = cur;
    me->aim_kind = threads ? Y_THREAD : Y_COND;
    me->aim_left = k;
    ++g_aims;
    block(B_SLEEP, 0, g_now + max_ns, 0, RA);
    --g_aims;
    me->aim_left = 0;
}
EXPORT int64_t
sim_idle_until(void)
{
    i64 m = NODL;
    for (int i = 0; i < nT; ++i) {
        i64 d = NODL;
        if (&T[i] == cur)
            continue;
        if (T[i].state == T_BLOCKED)
            d = eff_dl(&T[i]);
        else if (T[i].state == T_RUN)
            d = T[i].frozen > g_now ? T[i].frozen : g_now;
        if (d < m)
            m = d;
    }
    return m <= g_now ? 0 : m;
}
EXPORT int64_t
sim_deadline(int k, int64_t within)
{
    i64 last = g_now;
    for (;; --k) {
        i64 m = NODL;
        for (int i = 0; i < nT; ++i)
            if (T[i].state == T_BLOCKED && &T[i] != cur && eff_dl(&T[i]) > last && eff_dl(&T[i]) < m)
                m = eff_dl(&T[i]);
        if (m == NODL || m - g_now > within)
            return last > g_now ? last : 0;
        last = m;
        if (k <= 0)
            return last;
    }
}
EXPORT void
sim_yield(void)
{
    yp(Y_HARNESS, 0, site(RA), true);
}
EXPORT int64_t
sim_choice(int64_t n)
{
    cur->nyield++;
    i64 v = 0;
    if (C.strategy == ST_REPLAY) {
        v = replayed(D_CHOICE);
        if (v) {
            rec(D_CHOICE, v);
            v--;
        }
        if (v >= n)
            v = 0;
    } else {
        v = (i64)(rng() % (u64)n);
        if (v)
            rec(D_CHOICE, v + 1);
    }
    return v;
}
EXPORT void
sim_quiesce(int on)
{
    g_faults = !on;
    g_quiet = on;
    if (on) {
        for (int i = 0; i < nT; ++i)
            if (T[i].state == T_RUN)
                T[i].frozen = 0;
        recompute_dl();
        g_dirty = true;
    }
}
EXPORT void
sim_wall_jump(int64_t ns)
{
    g_walloff += ns;
    R->faults[D_WALL]++;
    recompute_dl();
}
EXPORT void
sim_watch_begin(const char* what, int64_t limit)
{
    Th* c = cur;
    if (c->nwatch >= 8)
        return;
    Watch& w = c->watch[c->nwatch++];
    w.what = what;
    w.clean0 = clean_now();
    w.limit = limit;
}
EXPORT void
sim_watch_end(void)
{
    check_watches();
    if (cur->nwatch)
        cur->nwatch--;
}
EXPORT void
sim_high_fds(bool on)
{
    g_vfd_base = on ? FD_SETSIZE : 400;
}
EXPORT uint64_t
sim_count_select(void)
{
    return cnt_select;
}
EXPORT uint64_t
sim_count_sleep(void)
{
    return cnt_sleep;
}
EXPORT void
sim_mark_harness(void)
{
    cur->harness = 1;
}
EXPORT int
sim_thread_blocked(int t)
{
    return t >= 0 && t < nT && T[t].state == T_BLOCKED;
}
EXPORT void
sim_backtrace(void)
{
    add_stack(cur, 0, 10);
}
EXPORT uint64_t
sim_heap_live(void)
{
    return heap_live;
}
EXPORT int
sim_census(void)
{
    return census_take();
}
EXPORT int64_t
sim_census_live(void)
{
    add_site(census_worst->pc);
    return census_worst->live;
}
EXPORT int
sim_nthreads_unreaped(void)
{
    int n = 0;
    for (int i = 1; i < nT; ++i)
        n += !T[i].harness && T[i].state == T_DONE && !T[i].reaped;
    return n;
}
EXPORT int
sim_is_freed(const void* p)
{
    return in_arena((uintptr_t)p) && (st_of((uintptr_t)p) & 0x7f) == 2;
}
EXPORT int
sim_fd_readable(int fd)
{
    Vfd* v = vfd(fd);
    return v && v->open && v_readable(v);
}
EXPORT int
sim_fd_writable(int fd)
{
    Vfd* v = vfd(fd);
    return v && v->open && v_writable(v);
}
EXPORT int64_t
sim_fd_ready_count(int fd, int w)
{
    Vfd* v = vfd(fd);
    return w ? v->wedge : v->redge;
}
