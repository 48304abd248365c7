// Common part of all workload families.
//
// Workload code is compiled with -fsanitize=thread like the library, i.e. every
// access it makes is seen by the simulator (that is how payload visibility is
// checked). Oracle book-keeping must not be seen: it lives in NOSAN functions
// working on plain arrays, which is safe as only one thread runs at a time and
// NOSAN code contains no scheduling point.
#pragma once
#include "../sim/sim.h"
#include <stdint.h>
#include <string.h>

#define NOSAN __attribute__((no_sanitize("thread"), noinline))

static const int64_t US = 1000, MS = 1000000, SEC = 1000000000;
// a promise of the kind "promptly" is considered broken after this much virtual
// time without progress (below the 30 s idle period of pool threads)
static const int64_t PROMPT = 10 * SEC;

static const int MAXINS = 160;
static const int NCFG = 32;
static const int BODY = 100; // Ins.th >= BODY: body of operation (th - BODY)
struct Ins
{
    int th, op;
    long a, b, c, d;
};
struct Prog
{
    long cfg[NCFG];
    int n;
    Ins ins[MAXINS];
};
inline Ins*
prog_add(Prog& p, int th, int op, long a = 0, long b = 0, long c = 0, long d = 0)
{
    if (p.n >= MAXINS)
        return nullptr;
    Ins& i = p.ins[p.n++];
    i.th = th;
    i.op = op;
    i.a = a;
    i.b = b;
    i.c = c;
    i.d = d;
    return &i;
}

struct Rnd
{
    uint64_t s;
    uint64_t next()
    {
        uint64_t z = (s += 0x9E3779B97F4A7C15ull);
        z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
        z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
        return z ^ (z >> 31);
    }
    int64_t in(int64_t lo, int64_t hi) { return lo + (int64_t)(next() % (uint64_t)(hi - lo + 1)); }
    bool chance(int num, int den) { return (int)(next() % (uint64_t)den) < num; }
    template<size_t N>
    long pick(const long (&v)[N])
    {
        return v[next() % N];
    }
};

struct Family
{
    const char* name;
    const char* const* opnames;
    const char* const* cfgnames; // NCFG entries or null terminated
    const char* const* probes;   // null terminated names of probes
    const char* props;           // properties a generic failure (race, crash, ...) breaks
    void (*gen)(Rnd&, Prog&, int focus);
    void (*run)(const Prog&); // runs under simulation
    void (*tune)(Rnd&, const Prog&, sim_cfg&, int focus);
    const char* const* focusnames; // null terminated
};
// which family/focus decides which property, with weights
struct Plan
{
    const char* prop;
    const Family* fam;
    int focus, weight;
};
extern const Plan g_plans[]; // plan.cpp, terminated by prop == nullptr
extern const Family* const g_families[];

// ---- oracle base (h.cpp)
int64_t o_seq();               // next event number
int64_t o_now();               // virtual time
int64_t o_clean();             // virtual time minus injected stalls
int64_t o_idle();              // ... and minus the cost of executing code
static const int64_t LATE = 50 * MS; // a timed wait may end that much late in terms of o_idle
struct Settle
{
    int64_t t0;
};
// limits far beyond every clock's range are as good as none (-1)
inline long
o_limit_of(long ms)
{
    return ms > 1000000000000l ? -1 : ms;
}
inline long
o_far_limit(Rnd& r, long ms)
{
    const long far[] = { INT64_MAX, INT64_MAX - 1, INT64_MAX / 1000000, INT64_MAX / 1000000 + 2000000, 4000000000000l };
    return ms == -1 && r.chance(1, 12) ? r.pick(far) : ms;
}
// sleeps for ns, or with k > 0 until the k-th next wake-up time of another thread (at
// most within_ms ahead) plus ns: aims at the moments where waits and timers run out
void o_sleep(int64_t ns, long k, long within_ms);
// a pause of one of the given lengths or up to about a wake-up time
template<size_t N>
void
gen_sleep(Rnd& r, Prog& p, int th, int op, const long (&naps)[N], long within_ms = 500)
{
    const long off[] = { 0, 0, 0, 200, 1000, 5000, -200, -1000, -5000, 20000, 100000, -100000 };
    if (r.chance(1, 3))
        prog_add(p, th, op, r.pick(off), r.chance(2, 3) ? 1 : r.in(2, 4), within_ms);
    else if (r.chance(1, 6)) // until somebody is about to wait or to start a thread
        prog_add(p, th, op, 0, r.chance(2, 3) ? -r.in(1, 4) : -99 - r.in(1, 2), within_ms / 10);
    else
        prog_add(p, th, op, r.pick(naps));
}
// waits (virtual time, faults off) until pred returns true or limit passes
bool o_settle(bool (*pred)(void*), void* arg, int64_t limit);
