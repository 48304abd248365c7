// Search driver: seeded runs in forked children, failure gate, minimisation,
// replay files. Usage:
//   xdsim check PROP seed=S seconds=T workers=N replay=FILE stats=FILE [known=FILE]
//   xdsim replay FILE [verbose]
//   xdsim one FAMILY FOCUS SEED [verbose] [runs]
//   xdsim determinism PROP seed=S runs=N workers=N
//   xdsim list
#include "h.h"
#include <atomic>
#include <errno.h>
#include <fcntl.h>
#include <sched.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/prctl.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

namespace {

const char* const kVerdict[] = { "ok",    "oracle", "deadlock", "race",     "memory",
                                 "crash", "stuck",  "budget",   "misuse",   "internal",
                                 "hang" };
const int V_HANG = SIM_NVERDICT;
const char* const kDec[] = { "switch",  "freeze", "tjump", "spurious_wakeup",
                             "spurious_wait_return", "weak_cas_failure",  "eintr", "notify_order",
                             "wall_jump", "syscall_failure", "choice", "stale_load" };
const char* const kStrat[] = { "walk", "pct", "site", "replay" };

struct Run
{
    Prog prog;
    sim_cfg cfg;
    const Family* fam;
    int focus;
    uint64_t seed;
};
FILE* out;
int g_verbose;

double
now_s()
{
    timespec ts;
    clock_gettime(CLOCK_MONOTONIC, &ts);
    return (double)ts.tv_sec + 1e-9 * (double)ts.tv_nsec;
}
uint64_t
mix64(uint64_t a, uint64_t b)
{
    Rnd r{ a * 0x9E3779B97F4A7C15ull ^ (b + 0x632be59bd9b4e019ull) * 0xff51afd7ed558ccdull };
    r.next();
    return r.next();
}

void
make_run(Run& r, const Family* f, int focus, uint64_t seed)
{
    memset(&r, 0, sizeof r);
    r.fam = f;
    r.focus = focus;
    r.seed = seed;
    Rnd g{ seed };
    g.next();
    f->gen(g, r.prog, focus);
    sim_cfg& c = r.cfg;
    c.seed = g.next();
    int k = (int)g.in(0, 9);
    c.strategy = k < 5 ? ST_WALK : k < 8 ? ST_PCT : ST_SITE;
    const long wi[] = { 2, 5, 20, 100 };
    c.walk_inv = (uint32_t)g.pick(wi);
    c.pct_depth = (uint32_t)g.in(1, 5);
    const long pl[] = { 200, 1000, 5000, 20000 };
    c.pct_len = (uint32_t)g.pick(pl);
    const long sm[] = { 20, 60, 200 };
    c.site_mod = (uint32_t)g.pick(sm);
    const long st[] = { 100, 1000, 1000, 20000 };
    c.step_ns = (uint32_t)g.pick(st);
    c.ncpu = (int)g.in(1, 4);
    c.heap_reuse = g.chance(1, 4);
    // faults: swarm, about a third of the runs without any
    if (g.chance(2, 3)) {
        const long rare[] = { 0, 0, 50, 200, 1000 };
        const long often[] = { 0, 0, 3, 10, 50 };
        c.f_freeze = (uint32_t)g.pick(rare) * 5;
        c.f_tjump = (uint32_t)g.pick(rare) * 5;
        c.f_spur = (uint32_t)g.pick(rare);
        c.f_spurnow = (uint32_t)g.pick(often);
        c.f_casfail = (uint32_t)g.pick(often);
        c.f_eintr = (uint32_t)g.pick(often);
        c.f_notify = (uint32_t)g.pick(often);
        c.f_wall = (uint32_t)g.pick(rare) * 5;
        c.f_sysfail = (uint32_t)g.pick(often);
#ifndef XDSIM_QT
        // QtCore's own atomics are not visible to the simulator
        const long stale[] = { 0, 0, 2, 5, 20 };
        c.f_stale = (uint32_t)g.pick(stale);
#endif
    }
    const long fz[] = { 1, 30, 1000, 40000 };
    c.freeze_max_ns = g.pick(fz) * MS;
    c.tjump_max_ns = g.pick(fz) * MS;
    c.big_faults = 3;
    c.max_steps = 400000;
    c.max_vtime = 600 * SEC;
#ifdef XDSIM_QT
    c.fine = g.chance(1, 6);
    if (c.fine) {
        c.step_ns /= 4;
        c.max_steps *= 4;
    }
#endif
    if (f->tune)
        f->tune(g, r.prog, c, focus);
    if (const char* e = getenv("XDSIM_STALE")) // for exploration by hand only
        c.f_stale = (uint32_t)atoi(e);
}

struct Arg
{
    const Family* f;
    const Prog* p;
};
void
entry(void* a)
{
    Arg* x = (Arg*)a;
    x->f->run(*x->p);
}
// executes a run in a child, returns its verdict
int
execute(Run& r, sim_result* res, unsigned limit_s = 60)
{
    static Arg a;
    a.f = r.fam;
    a.p = &r.prog;
    res->done = 0;
    res->verdict = SIM_INTERNAL;
    res->message[0] = 0;
    memset(&res->hash, 0, offsetof(sim_result, dec) - offsetof(sim_result, hash));
    memset(res->cov, 0, sizeof res->cov);
    r.cfg.verbose = g_verbose;
    pid_t pid = fork();
    if (pid < 0) {
        fprintf(out, "fork failed: %s\n", strerror(errno));
        _exit(3);
    }
    if (pid == 0) {
        prctl(PR_SET_PDEATHSIG, SIGKILL, 0l, 0l, 0l);
        // use the global futex hash: releasing a private one keeps the memory
        // of the ended process until a kernel worker gets around to it, which
        // at thousands of runs per second may take all the memory there is
        prctl(78 /* PR_FUTEX_HASH */, 1l /* SET_SLOTS */, 0l, 0l, 0l);
        signal(SIGALRM, SIG_DFL);
        alarm(limit_s);
        sim_run(entry, &a, &r.cfg, res);
    }
    int st = 0;
    while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {
    }
    if (!res->done) {
        bool alrm = WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM;
        res->verdict = alrm ? V_HANG : SIM_INTERNAL;
        snprintf(res->message,
                 sizeof res->message,
                 alrm ? "run exceeded %d s of real time"
                      : "child ended without result, status %d",
                 alrm ? (int)limit_s : st);
        return res->verdict;
    }
    return res->verdict;
}

bool
tag_matches(const char* msg, const char* prop)
{
    if (msg[0] != '[')
        return true;
    // "... on such queues keep their guarantees": every guarantee counts there
    if (!strcmp(prop, "X23"))
        return true;
    const char* e = strchr(msg, ']');
    size_t n = strlen(prop);
    for (const char* p = msg; e && p + n <= e; ++p)
        if (!strncmp(p, prop, n))
            return true;
    return false;
}
// does the outcome say that prop is violated
bool
is_violation(const sim_result* r, const char* prop)
{
    switch (r->verdict) {
        case SIM_OK:
        case SIM_INTERNAL:
        case V_HANG:
            return false;
        case SIM_ORACLE:
        case SIM_STUCK:
            return r->message[0] == '[' ? tag_matches(r->message, prop) : true;
        default:
            return true;
    }
}
// text of a failure that does not depend on the run
void
signature(const sim_result* r, char* s, size_t cap)
{
    size_t k = (size_t)snprintf(s, cap, "%s:", kVerdict[r->verdict]);
    bool num = false;
    for (const char* p = r->message; *p && *p != '\n' && k + 2 < cap; ++p) {
        if (*p >= '0' && *p <= '9') {
            // keep property names
            if (p > r->message && p[-1] == 'X') {
                s[k++] = *p++;
                s[k++] = *p;
                continue;
            }
            if (!num)
                s[k++] = '#';
            num = true;
            continue;
        }
        num = false;
        s[k++] = *p;
    }
    s[k] = 0;
}
bool
same_class(const sim_result* a, const sim_result* b)
{
    if (a->verdict != b->verdict)
        return false;
    switch (a->verdict) {
        case SIM_RACE:
        case SIM_MEMORY:
        case SIM_CRASH:
        case SIM_MISUSE: {
            if (!a->nsites || !b->nsites)
                return true;
            // same pair of sites in any order
            if (a->verdict == SIM_RACE)
                return (a->sites[0] == b->sites[0] && a->sites[1] == b->sites[1]) ||
                       (a->sites[0] == b->sites[1] && a->sites[1] == b->sites[0]);
            return a->sites[0] == b->sites[0];
        }
        case SIM_ORACLE:
        case SIM_STUCK: {
            char x[400], y[400];
            signature(a, x, sizeof x);
            signature(b, y, sizeof y);
            // compare tag and the first words
            size_t n = strcspn(x, "]");
            return !strncmp(x, y, n + 25);
        }
        default:
            return true;
    }
}

sim_result*
new_result()
{
    return (sim_result*)mmap(
      nullptr, sizeof(sim_result), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
}

// ------------------------------------------------------------------ replay files
void
write_replay(const char* path, const char* prop, const Run& r, const sim_result* res)
{
    FILE* f = fopen(path, "w");
    if (!f) {
        fprintf(out, "cannot write %s\n", path);
        _exit(3);
    }
    const sim_cfg& c = r.cfg;
    fprintf(f, "xdsim-replay 1\nproperty %s\nfamily %s\nfocus %s\nseed %llu\n", prop,
            r.fam->name, r.fam->focusnames[r.focus], (unsigned long long)r.seed);
    fprintf(f, "verdict %s\nhash %016llx\n", kVerdict[res->verdict],
            (unsigned long long)res->hash);
    char line[3100];
    snprintf(line, sizeof line, "%s", res->message);
    for (char* p = line; *p; ++p)
        if (*p == '\n')
            *p = '|';
    fprintf(f, "message %s\n", line);
    fprintf(f, "sites");
    for (uint32_t i = 0; i < res->nsites && i < 16; ++i)
        fprintf(f, " %llx", (unsigned long long)res->sites[i]);
    fprintf(f, "\ncfg seed=%llu strategy=%d walk=%u pctd=%u pctl=%u site=%u step=%u ncpu=%d "
               "reuse=%d f=%u,%u,%u,%u,%u,%u,%u,%u,%u fz=%lld tj=%lld big=%u steps=%llu "
               "vtime=%lld stale=%u fine=%d\n",
            (unsigned long long)c.seed, c.strategy, c.walk_inv, c.pct_depth, c.pct_len,
            c.site_mod, c.step_ns, c.ncpu, c.heap_reuse, c.f_freeze, c.f_tjump, c.f_spur,
            c.f_spurnow, c.f_casfail, c.f_eintr, c.f_notify, c.f_wall, c.f_sysfail,
            (long long)c.freeze_max_ns, (long long)c.tjump_max_ns, c.big_faults,
            (unsigned long long)c.max_steps, (long long)c.max_vtime, c.f_stale,
            c.fine);
    fprintf(f, "progcfg");
    for (int i = 0; i < NCFG; ++i)
        fprintf(f, " %ld", r.prog.cfg[i]);
    fprintf(f, "\n");
    for (int i = 0; r.fam->cfgnames[i]; ++i)
        if (r.prog.cfg[i])
            fprintf(f, "# %s=%ld\n", r.fam->cfgnames[i], r.prog.cfg[i]);
    for (int i = 0; i < r.prog.n; ++i) {
        const Ins& s = r.prog.ins[i];
        fprintf(f, "ins %d %d %ld %ld %ld %ld # %s %d: %s\n", s.th, s.op, s.a, s.b, s.c, s.d,
                s.th >= BODY ? "body" : "thread", s.th >= BODY ? s.th - BODY : s.th,
                r.fam->opnames[s.op]);
    }
    if (c.strategy == ST_REPLAY)
        for (uint32_t i = 0; i < c.ndec; ++i)
            fprintf(f, "dec %u %u %llu %lld # %s\n", c.dec[i].tid, c.dec[i].kind,
                    (unsigned long long)c.dec[i].n, (long long)c.dec[i].val,
                    kDec[c.dec[i].kind]);
    fclose(f);
}
sim_decrec* g_decbuf;
bool
read_replay(const char* path, Run& r, char* prop, int* verdict, uint64_t* hash, char* msg)
{
    FILE* f = fopen(path, "r");
    if (!f)
        return false;
    memset(&r, 0, sizeof r);
    static char line[8192];
    uint32_t nd = 0;
    *hash = 0;
    *verdict = -1;
    while (fgets(line, sizeof line, f)) {
        unsigned long long a, b;
        long long v;
        unsigned t, k;
        char s[64];
        if (sscanf(line, "property %15s", prop) == 1)
            continue;
        if (sscanf(line, "family %60s", s) == 1) {
            for (int i = 0; g_families[i]; ++i)
                if (!strcmp(g_families[i]->name, s))
                    r.fam = g_families[i];
            continue;
        }
        if (r.fam && sscanf(line, "focus %60s", s) == 1) {
            for (int i = 0; r.fam->focusnames[i]; ++i)
                if (!strcmp(r.fam->focusnames[i], s))
                    r.focus = i;
            continue;
        }
        if (sscanf(line, "seed %llu", &a) == 1) {
            r.seed = a;
            continue;
        }
        if (sscanf(line, "verdict %60s", s) == 1) {
            for (int i = 0; i <= V_HANG; ++i)
                if (!strcmp(kVerdict[i], s))
                    *verdict = i;
            continue;
        }
        if (sscanf(line, "hash %llx", &a) == 1) {
            *hash = a;
            continue;
        }
        if (!strncmp(line, "message ", 8)) {
            snprintf(msg, 3000, "%s", line + 8);
            msg[strcspn(msg, "\n")] = 0;
            continue;
        }
        if (!strncmp(line, "cfg ", 4)) {
            sim_cfg& c = r.cfg;
            long long fz, tj, vt;
            unsigned long long ms;
            sscanf(line,
                   "cfg seed=%llu strategy=%d walk=%u pctd=%u pctl=%u site=%u step=%u ncpu=%d "
                   "reuse=%d f=%u,%u,%u,%u,%u,%u,%u,%u,%u fz=%lld tj=%lld big=%u steps=%llu "
                   "vtime=%lld stale=%u fine=%d",
                   &a, &c.strategy, &c.walk_inv, &c.pct_depth, &c.pct_len, &c.site_mod,
                   &c.step_ns, &c.ncpu, &c.heap_reuse, &c.f_freeze, &c.f_tjump, &c.f_spur,
                   &c.f_spurnow, &c.f_casfail, &c.f_eintr, &c.f_notify, &c.f_wall,
                   &c.f_sysfail, &fz, &tj, &c.big_faults, &ms, &vt, &c.f_stale,
                   &c.fine);
            c.seed = a;
            c.freeze_max_ns = fz;
            c.tjump_max_ns = tj;
            c.max_steps = ms;
            c.max_vtime = vt;
            continue;
        }
        if (!strncmp(line, "progcfg", 7)) {
            char* p = line + 7;
            for (int i = 0; i < NCFG; ++i)
                r.prog.cfg[i] = strtol(p, &p, 10);
            continue;
        }
        int th, op;
        long x[4];
        if (sscanf(line, "ins %d %d %ld %ld %ld %ld", &th, &op, x, x + 1, x + 2, x + 3) == 6) {
            prog_add(r.prog, th, op, x[0], x[1], x[2], x[3]);
            continue;
        }
        if (sscanf(line, "dec %u %u %llu %lld", &t, &k, &b, &v) == 4 && nd < SIM_MAXDEC) {
            g_decbuf[nd].tid = t;
            g_decbuf[nd].kind = k;
            g_decbuf[nd].n = b;
            g_decbuf[nd].val = v;
            ++nd;
        }
    }
    fclose(f);
    r.cfg.dec = g_decbuf;
    r.cfg.ndec = nd;
    return r.fam != nullptr;
}

// ------------------------------------------------------------------ minimisation
struct Min
{
    Run best;
    sim_decrec* dec; // decisions of best
    uint32_t ndec;
    sim_result* ref; // reference failure
    sim_result* tmp;
    double until;
    int tries;
};
// runs candidate by replay; if it fails in the same way adopts it together with
// the decisions it really consumed
bool
try_replay(Min& m, const Prog& p, const sim_decrec* d, uint32_t n, const sim_cfg* tweak = nullptr)
{
    static Run cand;
    cand = m.best;
    cand.prog = p;
    if (tweak)
        cand.cfg = *tweak;
    cand.cfg.strategy = ST_REPLAY;
    cand.cfg.dec = d;
    cand.cfg.ndec = n;
    ++m.tries;
    execute(cand, m.tmp);
    if (!m.tmp->done || m.tmp->dec_overflow || !same_class(m.ref, m.tmp))
        return false;
    m.best = cand;
    m.ndec = m.tmp->ndec;
    memcpy(m.dec, m.tmp->dec, sizeof(sim_decrec) * m.ndec);
    m.best.cfg.dec = m.dec;
    m.best.cfg.ndec = m.ndec;
    return true;
}
bool
try_search(Min& m, const Prog& p, int seeds)
{
    static Run cand;
    for (int i = 0; i < seeds; ++i) {
        make_run(cand, m.best.fam, m.best.focus, mix64(m.best.seed, (uint64_t)(7000 + m.tries)));
        cand.seed = m.best.seed;
        cand.prog = p;
        ++m.tries;
        execute(cand, m.tmp);
        if (!m.tmp->done || m.tmp->dec_overflow || !same_class(m.ref, m.tmp))
            continue;
        if (m.tmp->ndec > 4 * m.ndec + 40)
            continue;
        static sim_decrec* save;
        if (!save)
            save = (sim_decrec*)malloc(sizeof(sim_decrec) * SIM_MAXDEC);
        uint32_t n = m.tmp->ndec;
        memcpy(save, m.tmp->dec, sizeof(sim_decrec) * n);
        Run old = m.best;
        m.best = cand;
        if (try_replay(m, p, save, n))
            return true;
        m.best = old;
    }
    return false;
}
void
minimise(Min& m)
{
    static sim_decrec* d;
    if (!d)
        d = (sim_decrec*)malloc(sizeof(sim_decrec) * SIM_MAXDEC);
    static Prog p;
    bool progress = true;
    // a plain configuration is easier to read
    while (progress && now_s() < m.until) {
        progress = false;
        // instructions
        for (int chunk = m.best.prog.n / 2 ? m.best.prog.n / 2 : 1; chunk >= 1; chunk /= 2)
            for (int i = 0; i < m.best.prog.n && now_s() < m.until;) {
                p = m.best.prog;
                int k = chunk < p.n - i ? chunk : p.n - i;
                memmove(p.ins + i, p.ins + i + k, sizeof(Ins) * (size_t)(p.n - i - k));
                p.n -= k;
                memcpy(d, m.dec, sizeof(sim_decrec) * m.ndec);
                if (try_replay(m, p, d, m.ndec) || try_search(m, p, chunk == 1 ? 12 : 4))
                    progress = true;
                else
                    i += k;
            }
        // counts and configuration values
        for (int i = 0; i < m.best.prog.n && now_s() < m.until; ++i)
            for (int f = 2; f < 4; ++f) {
                p = m.best.prog;
                long& v = f == 2 ? p.ins[i].c : p.ins[i].d;
                if (v <= 1)
                    continue;
                v = 1;
                memcpy(d, m.dec, sizeof(sim_decrec) * m.ndec);
                if (try_replay(m, p, d, m.ndec) || try_search(m, p, 4))
                    progress = true;
            }
        // decisions
        for (uint32_t chunk = m.ndec / 2 ? m.ndec / 2 : 1; chunk >= 1; chunk /= 2)
            for (uint32_t i = 0; i < m.ndec && now_s() < m.until;) {
                uint32_t k = chunk < m.ndec - i ? chunk : m.ndec - i;
                memcpy(d, m.dec, sizeof(sim_decrec) * i);
                memcpy(d + i, m.dec + i + k, sizeof(sim_decrec) * (m.ndec - i - k));
                uint32_t before = m.ndec;
                if (try_replay(m, m.best.prog, d, m.ndec - k) && m.ndec < before)
                    progress = true;
                else
                    i += k;
            }
    }
}

// ------------------------------------------------------------------ search
const int MAXW = 64;
const uint32_t HT = 1u << 22;
struct Shared
{
    std::atomic<uint64_t> next, runs, nontrivial, steps, switches, races, detruns, detbad,
      internal, other, budget, distinct, hangs, known;
    std::atomic<int64_t> vtime;
    std::atomic<int> stop;
    std::atomic<uint64_t> faults[SIM_NDEC];
    std::atomic<uint64_t> verdicts[SIM_NVERDICT + 1];
    std::atomic<uint64_t> probes[16][64];
    std::atomic<uint64_t> planruns[64];
    std::atomic<uint64_t> strat[4];
    std::atomic<uint64_t> withfault, maxthreads;
    std::atomic<uint64_t> fail_idx; // lowest failing index
    std::atomic<uint64_t> ht[HT];
    std::atomic<uint8_t> cov[SIM_COVBITS / 8];
    std::atomic<int> nmsg;
    char msgs[16][400];
    std::atomic<int> nsamp;
    char samples[8][300];
};
Shared* S;
const Plan* plans[64];
int nplans, wsum;
const char* knowns[64];
int nknown;
bool known_hit[64];

void
collect_plans(const char* prop)
{
    nplans = wsum = 0;
    for (const Plan* p = g_plans; p->prop; ++p)
        if (!strcmp(p->prop, prop)) {
            plans[nplans++] = p;
            wsum += p->weight;
        }
}
int
pick_plan(uint64_t seed)
{
    int k = (int)(mix64(seed, 0x5151) % (uint64_t)wsum), i = 0;
    while (k >= plans[i]->weight)
        k -= plans[i++]->weight;
    return i;
}
int
fam_index(const Family* f)
{
    for (int i = 0; g_families[i]; ++i)
        if (g_families[i] == f)
            return i;
    return 0;
}
int
known_index(const sim_result* res)
{
    char s[400];
    signature(res, s, sizeof s);
    for (int i = 0; i < nknown; ++i)
        if (strstr(s, knowns[i]) || strstr(res->message, knowns[i]))
            return i;
    return -1;
}
void
note(const sim_result* res, uint64_t seed)
{
    int n = S->nmsg++;
    if (n < 16)
        snprintf(S->msgs[n], sizeof S->msgs[n], "seed %llu %s: %.300s", (unsigned long long)seed,
                 kVerdict[res->verdict], res->message);
}
void
await_memory(double until)
{
    // the memory of ended runs is released in the background
    while (now_s() < until) {
        long kb = 0;
        if (FILE* f = fopen("/proc/meminfo", "r")) {
            char line[128];
            while (fgets(line, sizeof line, f))
                if (sscanf(line, "MemAvailable: %ld", &kb) == 1)
                    break;
            fclose(f);
        }
        if (!kb || kb > 4000000)
            return;
        usleep(100000);
    }
}
static void
worker(int w, const char* prop, uint64_t seed, double until, uint64_t maxruns, int det_every)
{
    cpu_set_t cs;
    CPU_ZERO(&cs);
    long nc = sysconf(_SC_NPROCESSORS_ONLN);
    CPU_SET((size_t)(w % (nc > 0 ? nc : 1)), &cs);
    sched_setaffinity(0, sizeof cs, &cs);
    sim_result* res = new_result();
    sim_result* res2 = new_result();
    static Run r;
    while (!S->stop && now_s() < until) {
        uint64_t i = S->next++;
        if (i >= maxruns)
            break;
        if (i % 256 == 0)
            await_memory(until);
        uint64_t rs = mix64(seed, i);
        int pl = pick_plan(rs);
        make_run(r, plans[pl]->fam, plans[pl]->focus, rs);
        execute(r, res);
        S->runs++;
        S->planruns[pl]++;
        S->strat[r.cfg.strategy]++;
        S->verdicts[res->verdict]++;
        S->steps += res->steps;
        S->switches += res->switches;
        S->vtime += res->vtime;
        S->races += res->races_checked;
        bool anyf = false;
        for (int k = 0; k < SIM_NDEC; ++k) {
            S->faults[k] += res->faults[k];
            if (k != D_SWITCH && k != D_CHOICE && res->faults[k])
                anyf = true;
        }
        if (anyf)
            S->withfault++;
        int fi = fam_index(r.fam);
        for (int k = 0; k < 64; ++k)
            if (res->probes[k])
                S->probes[fi][k] += res->probes[k];
        uint64_t mt = S->maxthreads;
        while (res->nthreads > mt && !S->maxthreads.compare_exchange_weak(mt, res->nthreads)) {
        }
        for (int k = 0; k < SIM_COVBITS / 8; ++k)
            if (res->cov[k] & ~S->cov[k])
                S->cov[k] |= res->cov[k];
        if (res->switches >= 2 && res->nthreads >= 2) {
            S->nontrivial++;
            uint64_t h = mix64(res->sched_hash, (uint64_t)fi + 17);
            h |= 1;
            for (uint32_t k = 0; k < 64; ++k) {
                uint32_t s = (uint32_t)(h >> 20) + k;
                uint64_t e = S->ht[s % HT];
                if (e == 0 && S->ht[s % HT].compare_exchange_strong(e, h)) {
                    S->distinct++;
                    int sn = S->nsamp < 8 ? S->nsamp++ : 8;
                    if (sn < 8)
                        snprintf(S->samples[sn], sizeof S->samples[sn],
                                 "seed=%llu %s/%s strategy=%s ncpu=%d threads=%u steps=%llu "
                                 "switches=%llu vtime_ms=%lld instructions=%d verdict=%s "
                                 "sched_hash=%016llx",
                                 (unsigned long long)rs, r.fam->name,
                                 r.fam->focusnames[r.focus], kStrat[r.cfg.strategy], r.cfg.ncpu,
                                 res->nthreads, (unsigned long long)res->steps,
                                 (unsigned long long)res->switches,
                                 (long long)(res->vtime / MS), r.prog.n,
                                 kVerdict[res->verdict], (unsigned long long)res->sched_hash);
                    break;
                }
                if (S->ht[s % HT] == h)
                    break;
            }
        }
        if (det_every && i % (uint64_t)det_every == 0) {
            execute(r, res2);
            S->detruns++;
            if (res2->hash != res->hash || res2->verdict != res->verdict) {
                S->detbad++;
                note(res2, rs);
            }
        }
        if (res->verdict == SIM_OK)
            continue;
        if (res->verdict == V_HANG)
            S->hangs++;
        if (res->verdict == SIM_INTERNAL || res->verdict == V_HANG) {
            S->internal++;
            note(res, rs);
            continue;
        }
        if (!is_violation(res, prop)) {
            S->other++;
            note(res, rs);
            continue;
        }
        if (res->verdict == SIM_BUDGET) {
            note(res, rs);
            r.cfg.max_steps *= 4;
            execute(r, res2, 300);
            if (res2->verdict == SIM_OK || !is_violation(res2, prop)) {
                S->budget++;
                continue;
            }
            memcpy((void*)res, res2, offsetof(sim_result, dec));
        }
        int k = known_index(res);
        if (k >= 0) {
            S->known |= 1ull << k;
            continue;
        }
        // must be repeatable
        execute(r, res2, 300);
        if (res2->hash != res->hash) {
            S->detbad++;
            note(res, rs);
            continue;
        }
        uint64_t cur = S->fail_idx;
        while (i < cur && !S->fail_idx.compare_exchange_weak(cur, i)) {
        }
        S->stop = 1;
    }
    _exit(0);
}
void
json_str(FILE* f, const char* s)
{
    fputc('"', f);
    for (; *s; ++s) {
        if (*s == '"' || *s == '\\')
            fprintf(f, "\\%c", *s);
        else if ((unsigned char)*s < 32)
            fprintf(f, " ");
        else
            fputc(*s, f);
    }
    fputc('"', f);
}
void
write_stats(const char* path, const char* prop, uint64_t seed, double wall, double minsecs)
{
    FILE* f = fopen(path, "w");
    if (!f)
        return;
    fprintf(f, "{\"property\":\"%s\",\"seed\":%llu,\"wall_s\":%.2f,\"minimise_s\":%.2f", prop,
            (unsigned long long)seed, wall, minsecs);
    fprintf(f, ",\"runs\":%llu,\"nontrivial\":%llu,\"distinct\":%llu,\"steps\":%llu,"
               "\"switches\":%llu,\"vtime_s\":%.3f,\"accesses_race_checked\":%llu,"
               "\"determinism_runs\":%llu,\"determinism_mismatches\":%llu,\"inconclusive\":%llu,"
               "\"failures_of_other_properties\":%llu,\"budget_extended\":%llu,\"hangs\":%llu,"
               "\"runs_with_faults\":%llu,\"max_threads\":%llu",
            (unsigned long long)S->runs, (unsigned long long)S->nontrivial,
            (unsigned long long)S->distinct, (unsigned long long)S->steps,
            (unsigned long long)S->switches, (double)S->vtime / 1e9,
            (unsigned long long)S->races, (unsigned long long)S->detruns,
            (unsigned long long)S->detbad, (unsigned long long)S->internal,
            (unsigned long long)S->other, (unsigned long long)S->budget,
            (unsigned long long)S->hangs, (unsigned long long)S->withfault,
            (unsigned long long)S->maxthreads);
    uint64_t cov = 0;
    for (int i = 0; i < SIM_COVBITS / 8; ++i)
        cov += (uint64_t)__builtin_popcount(S->cov[i]);
    fprintf(f, ",\"sync_site_pairs\":%llu", (unsigned long long)cov);
    fprintf(f, ",\"faults\":{");
    for (int i = 0; i < SIM_NDEC; ++i)
        fprintf(f, "%s\"%s\":%llu", i ? "," : "", kDec[i], (unsigned long long)S->faults[i]);
    fprintf(f, "},\"verdicts\":{");
    for (int i = 0; i <= V_HANG; ++i)
        fprintf(f, "%s\"%s\":%llu", i ? "," : "", kVerdict[i],
                (unsigned long long)S->verdicts[i]);
    fprintf(f, "},\"strategies\":{");
    for (int i = 0; i < 3; ++i)
        fprintf(f, "%s\"%s\":%llu", i ? "," : "", kStrat[i], (unsigned long long)S->strat[i]);
    fprintf(f, "},\"workloads\":{");
    for (int i = 0; i < nplans; ++i)
        fprintf(f, "%s\"%s/%s\":%llu", i ? "," : "", plans[i]->fam->name,
                plans[i]->fam->focusnames[plans[i]->focus],
                (unsigned long long)S->planruns[i]);
    fprintf(f, "},\"probes\":{");
    bool first = true;
    for (int i = 0; g_families[i]; ++i) {
        bool used = false;
        for (int k = 0; k < nplans; ++k)
            used |= plans[k]->fam == g_families[i];
        if (!used)
            continue;
        for (int k = 0; g_families[i]->probes[k]; ++k) {
            fprintf(f, "%s\"%s.%s\":%llu", first ? "" : ",", g_families[i]->name,
                    g_families[i]->probes[k], (unsigned long long)S->probes[i][k]);
            first = false;
        }
    }
    fprintf(f, "},\"known\":[");
    first = true;
    for (int i = 0; i < nknown; ++i)
        if (S->known >> i & 1) {
            if (!first)
                fputc(',', f);
            first = false;
            json_str(f, knowns[i]);
        }
    fprintf(f, "],\"notes\":[");
    for (int i = 0; i < S->nmsg && i < 16; ++i) {
        if (i)
            fputc(',', f);
        json_str(f, S->msgs[i]);
    }
    fprintf(f, "],\"samples\":[");
    for (int i = 0; i < S->nsamp && i < 8; ++i) {
        if (i)
            fputc(',', f);
        json_str(f, S->samples[i]);
    }
    fprintf(f, "]}\n");
    fclose(f);
}
const char*
opt(int argc, char** argv, const char* name, const char* def)
{
    size_t n = strlen(name);
    for (int i = 2; i < argc; ++i)
        if (!strncmp(argv[i], name, n) && argv[i][n] == '=')
            return argv[i] + n + 1;
    return def;
}
int
cmd_check(int argc, char** argv)
{
    const char* prop = argv[2];
    uint64_t seed = strtoull(opt(argc, argv, "seed", "1"), nullptr, 10);
    double secs = atof(opt(argc, argv, "seconds", "20"));
    double minsecs = atof(opt(argc, argv, "minimise", "60"));
    uint64_t maxruns = strtoull(opt(argc, argv, "runs", "1000000000"), nullptr, 10);
    int nw = atoi(opt(argc, argv, "workers", "8"));
    int det = atoi(opt(argc, argv, "det", "50"));
    const char* rp = opt(argc, argv, "replay", "/tmp/xdsim.replay");
    const char* sp = opt(argc, argv, "stats", "");
    for (int i = 3; i < argc; ++i)
        if (!strncmp(argv[i], "known=", 6) && nknown < 64)
            knowns[nknown++] = argv[i] + 6;
    collect_plans(prop);
    if (!nplans) {
        fprintf(out, "no plan for %s\n", prop);
        return 3;
    }
    S = (Shared*)mmap(
      nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    S->fail_idx = ~0ull;
    double t0 = now_s();
    sim_prepare();
    for (int w = 0; w < nw; ++w)
        if (fork() == 0) {
            prctl(PR_SET_PDEATHSIG, SIGKILL, 0l, 0l, 0l);
            worker(w, prop, seed, t0 + secs, maxruns, det);
        }
    while (waitpid(-1, nullptr, 0) > 0 || errno == EINTR) {
    }
    double wall = now_s() - t0;
    int rc = 0;
    double mt = 0;
    if (S->fail_idx != ~0ull) {
        double m0 = now_s();
        uint64_t rs = mix64(seed, S->fail_idx);
        int pl = pick_plan(rs);
        static Run r;
        make_run(r, plans[pl]->fam, plans[pl]->focus, rs);
        Min m;
        m.ref = new_result();
        m.tmp = new_result();
        m.dec = (sim_decrec*)mmap(nullptr, sizeof(sim_decrec) * SIM_MAXDEC,
                                  PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
        m.tries = 0;
        m.until = now_s() + minsecs;
        if (execute(r, m.ref, 300) == SIM_BUDGET) {
            r.cfg.max_steps *= 4;
            execute(r, m.ref, 300);
        }
        m.best = r;
        fprintf(out, "failure: index %llu seed %llu %s: %s\n",
                (unsigned long long)S->fail_idx, (unsigned long long)rs,
                kVerdict[m.ref->verdict], m.ref->message);
        bool byreplay = false;
        sim_result* fin = new_result();
        if (!m.ref->dec_overflow && m.ref->verdict != SIM_BUDGET) {
            sim_decrec* d = (sim_decrec*)malloc(sizeof(sim_decrec) * SIM_MAXDEC);
            memcpy(d, m.ref->dec, sizeof(sim_decrec) * m.ref->ndec);
            uint32_t n0 = m.ref->ndec;
            if (try_replay(m, r.prog, d, n0)) {
                byreplay = true;
                if (m.tmp->hash != m.ref->hash)
                    fprintf(out, "note: replayed decisions give the same failure by another "
                                 "history\n");
                minimise(m);
                fprintf(out, "minimised: %d -> %d instructions, %u -> %u decisions in %d runs\n",
                        r.prog.n, m.best.prog.n, n0, m.ndec, m.tries);
            } else
                fprintf(out, "note: decisions do not replay (%s: %.200s), keeping the seed\n",
                        kVerdict[m.tmp->verdict], m.tmp->message);
        }
        if (!byreplay)
            m.best = r;
        execute(m.best, fin, 300);
        uint64_t h = fin->hash;
        write_replay(rp, prop, m.best, fin);
        execute(m.best, m.tmp, 300);
        if (h != m.tmp->hash || !same_class(m.ref, fin)) {
            fprintf(out, "error: the failure does not reproduce: %s\n", fin->message);
            rc = 4;
        } else {
            fprintf(out, "final: %s: %s\n", kVerdict[fin->verdict], fin->message);
            rc = 1;
        }
        mt = now_s() - m0;
    }
    if (*sp)
        write_stats(sp, prop, seed, wall, mt);
    for (int i = 0; i < nknown; ++i)
        if (S->known >> i & 1)
            fprintf(out, "known: %s\n", knowns[i]);
    fprintf(out,
            "%s: %llu runs in %.1f s, %llu distinct, %.0f steps/run, determinism %llu/%llu bad, "
            "inconclusive %llu, other %llu, budget %llu\n",
            prop, (unsigned long long)S->runs, wall, (unsigned long long)S->distinct,
            S->runs ? (double)S->steps / (double)S->runs : 0.0, (unsigned long long)S->detbad,
            (unsigned long long)S->detruns, (unsigned long long)S->internal,
            (unsigned long long)S->other, (unsigned long long)S->budget);
    for (int i = 0; i < S->nmsg && i < 16; ++i)
        fprintf(out, "  %s\n", S->msgs[i]);
    return rc;
}
int
cmd_replay(int argc, char** argv)
{
    static Run r;
    char prop[16] = "", msg[3000] = "";
    int verdict;
    uint64_t hash;
    g_decbuf = (sim_decrec*)malloc(sizeof(sim_decrec) * SIM_MAXDEC);
    if (!read_replay(argv[2], r, prop, &verdict, &hash, msg)) {
        fprintf(out, "cannot read %s\n", argv[2]);
        return 3;
    }
    g_verbose = argc > 3;
    sim_prepare();
    sim_result* res = new_result();
    execute(r, res, 300);
    fprintf(out, "%s %016llx: %s\n", kVerdict[res->verdict], (unsigned long long)res->hash,
            res->message);
    for (uint32_t i = 0; i < res->nsites; ++i)
        fprintf(out, "site %llx\n", (unsigned long long)res->sites[i]);
    bool same = res->verdict == verdict && res->hash == hash;
    fprintf(out, same ? "reproduced exactly\n"
                      : is_violation(res, prop) ? "violation, but another history\n"
                                                : "not reproduced\n");
    return same ? 1 : is_violation(res, prop) ? 2 : 0;
}
int
cmd_one(int argc, char** argv)
{
    const Family* f = nullptr;
    int focus = -1;
    for (int i = 0; g_families[i]; ++i)
        if (!strcmp(g_families[i]->name, argv[2]))
            f = g_families[i];
    for (int i = 0; f && f->focusnames[i]; ++i)
        if (!strcmp(f->focusnames[i], argv[3]))
            focus = i;
    if (focus < 0)
        return 3;
    uint64_t seed = strtoull(argv[4], nullptr, 10);
    g_verbose = argc > 5 ? atoi(argv[5]) : 0;
    int runs = argc > 6 ? atoi(argv[6]) : 1;
    sim_prepare();
    sim_result* res = new_result();
    static Run r;
    for (int i = 0; i < runs; ++i) {
        make_run(r, f, focus, seed + (uint64_t)i);
        double t = now_s();
        execute(r, res);
        t = now_s() - t;
        fprintf(out, "seed %llu %s/%s: %s hash %016llx steps %llu switches %llu vtime %.3f "
                     "threads %u dec %u %.1f ms\n",
                (unsigned long long)r.seed, kStrat[r.cfg.strategy], f->focusnames[focus],
                kVerdict[res->verdict], (unsigned long long)res->hash,
                (unsigned long long)res->steps, (unsigned long long)res->switches,
                (double)res->vtime / 1e9, res->nthreads, res->ndec, t * 1e3);
        if (res->verdict)
        {
            fprintf(out, "  %s\n  sites", res->message);
            for (uint32_t k = 0; k < res->nsites && k < 16; ++k)
                fprintf(out, " %llx", (unsigned long long)res->sites[k]);
            fprintf(out, "\n");
        }
        if (argc > 7)
            write_replay(argv[7], "X00", r, res);
    }
    return 0;
}
} // namespace

int
main(int argc, char** argv)
{
    // identical addresses in every process
    if (!getenv("XDSIM_NOASLR")) {
        setenv("XDSIM_NOASLR", "1", 1);
        setenv("QT_NO_GLIB", "1", 1);
        setenv("QT_HASH_SEED", "0", 1);
        int p = personality(0xffffffff);
        if (p != -1 && !(p & ADDR_NO_RANDOMIZE) && personality((unsigned)p | ADDR_NO_RANDOMIZE) != -1)
            execv("/proc/self/exe", argv);
    }
    int fd = dup(1);
    fcntl(fd, F_SETFD, FD_CLOEXEC);
    out = fdopen(fd, "w");
    setvbuf(out, nullptr, _IONBF, 0);
    if (argc < 2)
        return 3;
    bool verbose = (!strcmp(argv[1], "replay") && argc > 3) ||
                   (!strcmp(argv[1], "one") && argc > 5 && atoi(argv[5]));
    if (!verbose) {
        // messages of the code under test
        int n = open("/dev/null", O_RDWR);
        dup2(n, 1);
        dup2(n, 2);
    }
    if (!strcmp(argv[1], "check") && argc > 2)
        return cmd_check(argc, argv);
    if (!strcmp(argv[1], "replay") && argc > 2)
        return cmd_replay(argc, argv);
    if (!strcmp(argv[1], "one") && argc > 4)
        return cmd_one(argc, argv);
    if (!strcmp(argv[1], "list")) {
        for (const Plan* p = g_plans; p->prop; ++p)
            fprintf(out, "%s %s/%s %d\n", p->prop, p->fam->name, p->fam->focusnames[p->focus],
                    p->weight);
        return 0;
    }
    return 3;
}
