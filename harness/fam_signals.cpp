// Family "signals": X14, X15, X16, X17 (and X02, X21 for their handlers).
//
// Rules the generated programs obey, as any user has to: nobody but the handlers
// connected to a signal uses it once its destruction has begun (and they only as
// long as they are connected); handler c only disconnects itself or handlers with
// a higher number (two handlers waiting for each other are the user's deadlock);
// one holder object is used by one thread at a time.
#include "qkit.h"
#include <xdispatch/signals.h>
#include <xdispatch/signals_barrier.h>
using namespace xdispatch;
using std::chrono::milliseconds;

namespace {
static const int NS = 2, NC = 10, NE = 72, NB = 4;
enum
{
    C_THREADS,
    C_NSIG,
    C_NC,
    C_CHAIN, // signal 0 forwards to signal 1
    C_GROUP, // signal 0 uses a group
    C_NQ,
    C_Q0,
    C_POOL = C_Q0 + 4,
    C_PRE,  // bit mask: connections made before the threads start
    C_DUR0, // duration of handlers: index modulo 3
    C_DUR1,
    C_DUR2,
    C_MGR, // 1: the manager is destroyed first
    C_TWIN // 1: a second signal per signal, with a value which cannot be default constructed
};
const char* const kCfg[] = { "threads", "signals", "connections", "chained", "group", "queues",
                             "kind0",   "kind1",   "kind2",       "kind3",   "pool",  "connected",
                             "duration0", "duration1", "duration2", "manager", "twin", nullptr };
enum
{
    I_CONN, // a: connection b: signal c: queue d: batch | holder << 1 | member << 4
    I_SLEEP,
    I_EMIT,       // a: signal
    I_DISC,       // a: connection
    I_DROP,       // a: connection, destroys its holder
    I_MRESET,     // resets the connection manager
    I_MRESETWITH, // a: signal
    I_SKIP,       // a: signal
    I_DESTROY,    // a: signal
    I_BNEW,       // a: barrier b: signal
    I_BWAIT,      // a: barrier b: ms
    I_BDROP,      // a: barrier
    I_GWAIT,
    I_LOAD, // a: queue b: ns
    I_UNCHAIN
};
const char* const kOps[] = { "connection", "sleep",   "emit",         "disconnect", "drop_holder",
                             "manager_reset", "manager_reset_with", "skip_all",   "destroy",
                             "barrier_new", "barrier_wait", "barrier_drop", "group_wait",
                             "load",       "unchain", nullptr };
enum Holder
{
    H_RAW,
    H_SCOPED,
    H_MANAGER
};
enum
{
    P_DISC_WAITED,
    P_DISC_INSIDE,
    P_DISC_COMPETING,
    P_PARALLEL_SELF,
    P_EMIT_INSIDE,
    P_CONNECT_INSIDE,
    P_DESTROY_RUNNING,
    P_DESTROY_REEMIT,
    P_SKIP_PENDING,
    P_AFTER_SKIP,
    P_BATCH_COALESCED,
    P_BARRIER_BEFORE_END,
    P_BARRIER_COMPETING,
    P_QUEUED_AT_DISC,
    P_DISC_AFTER_DESTROY,
    P_CHAINED,
    P_RESET_INSIDE,
    P_MANAGER_DESTROYED,
    P_GROUP_WAITED
};
const char* const kProbes[] = { "disconnect_waited_for_running_handler",
                                "disconnected_inside_handler",
                                "competing_disconnects",
                                "handler_running_twice_in_parallel",
                                "emit_inside_handler",
                                "connect_inside_handler",
                                "signal_destroyed_while_handler_running",
                                "emit_while_signal_is_destroyed",
                                "invocation_suppressed_by_skip",
                                "delivered_after_skip",
                                "emits_coalesced",
                                "barrier_released_during_construction",
                                "barrier_with_competing_emits",
                                "invocations_queued_at_disconnect",
                                "disconnect_after_signal_is_gone",
                                "delivered_through_chain",
                                "manager_reset_inside_handler",
                                "manager_with_connections_destroyed",
                                "group_of_signal_waited_for",
                                nullptr };
const Prog* P;

struct Val
{
    long id, neg;
    long* cell;
};
using Sig = signal<void(long, Val)>;
using Barrier = signal_barrier<void(long, Val)>;
// the same by another way of storing the values
struct NVal
{
    NVal(long i, const Val& x)
      : id(i)
      , v(x)
    {}
    long id;
    Val v;
};
using NSig = signal<void(NVal, long)>;
using NBarrier = signal_barrier<void(NVal, long)>;

// ---------------------------------------------------------------- oracle
struct CR
{
    bool known;
    int sig, q, holder;
    bool batch, uses, member;
    bool con_begun, con_done, adding, managed, taken;
    int64_t con_seq; // connect returned
    bool disc_begun; // by anybody
    bool final;      // a disconnect from outside has returned
    bool inside;     // a disconnect from inside has returned
    bool lost;       // the handler must not rely on its signal anymore
    bool silent;     // disconnected by somebody not reporting a result
    int discs_now, explicit_done, trues;
    int active, inuse, later;
    int64_t begins, last_begin;
    int64_t bseq[NE], done_begin; // latest begin of an invocation that has ended
    int64_t end1, end2; // end of the last and the one before the last invocation
    int destroyed;
    int since_skip;
    uint8_t cnt[NE];
    uint8_t ended[NE];
};
struct ER
{
    int sig;
    int64_t b, e; // seq of begin and end, 0: not yet
    bool inside;
};
struct SR
{
    int ext; // calls from the outside in progress
    bool destroy_begun, destroyed;
    int64_t skip_b[8], skip_e[8];
    int skips;
};
struct BR
{
    bool used, dropped;
    int sig;
    int64_t c0, c1;
    long got;
};
CR C[NC];
ER E[NE];
SR S[NS];
BR B[NB];
int ne, threads_done, nsig;
bool chained, unchain_begun, unchain_done;
int64_t chain_seq, busy;
int resets_now;

NOSAN bool
via(int sig, const ER& e) // emit e concerns signal sig
{
    return e.sig == sig || (e.sig == 0 && sig == 1 && chained);
}
NOSAN int
emit_begin(int s, bool inside)
{
    if (ne >= NE || S[s].destroyed)
        return -1;
    if (S[s].destroy_begun)
        sim_probe(P_DESTROY_REEMIT);
    if (inside)
        sim_probe(P_EMIT_INSIDE);
    ER& e = E[ne];
    e.sig = s;
    e.inside = inside;
    e.b = o_seq();
    sim_ev(1, s, ne, inside);
    return ne++;
}
NOSAN void
emit_end(int id)
{
    E[id].e = o_seq();
    sim_ev(2, id, 0, 0);
}
// may emit e be suppressed by a skip of signal s
NOSAN bool
skippable(int s, const ER& e)
{
    for (int i = 0; i < S[s].skips; ++i)
        if (!S[s].skip_e[i] || S[s].skip_e[i] > e.b)
            return true;
    return false;
}
NOSAN bool
after_skip(int s, const ER& e)
{
    for (int i = 0; i < S[s].skips; ++i)
        if (S[s].skip_e[i] && S[s].skip_e[i] < e.b)
            return true;
    return false;
}
NOSAN void
h_begin(int c, long id, const Val& v)
{
    CR& r = C[c];
    sim_ev(3, c, id, 0);
    if (id < 0 || id >= ne || v.id != id || v.neg != ~id)
        sim_fail("[X14,X15] handler %d is invoked with values no emit supplied", c);
    ER& e = E[id];
    if (!via(r.sig, e))
        sim_fail("[X14,X15] handler %d of signal %d is invoked with values of signal %d", c, r.sig, e.sig);
    if (r.destroyed)
        sim_fail("[X16,X04] handler %d runs after it was destroyed", c);
    if (r.final)
        sim_fail("[X16] handler %d is invoked after %s has returned",
                 c,
                 S[r.sig].destroyed ? "the destruction of its signal" : "its disconnect");
    if (r.inside && qkit::serial(r.q))
        sim_fail("[X16] handler %d is invoked after it has disconnected itself", c);
    if (r.inside && ++r.later > 32)
        sim_fail("[X16] handler %d keeps being invoked after it has disconnected itself", c);
    if (r.cnt[id]++)
        sim_fail("[X14,X15] handler %d is invoked twice for emit %ld", c, id);
    if (e.e && !r.con_begun)
        sim_fail("[X14] handler %d is invoked for emit %ld made before it was connected", c, id);
    // order
    if (qkit::serial(r.q) && !r.batch)
        for (int i = 0; i < ne; ++i)
            if (i != id && r.cnt[i] && e.e && e.e < E[i].b)
                sim_fail("[X14] handler %d on a serial queue is invoked for emit %ld after emit %d "
                         "which was made later",
                         c,
                         id,
                         i);
    if (qkit::serial(r.q) && r.batch && r.end2 && e.e && e.e < r.end2)
        sim_fail("[X15] batched handler %d is invoked for emit %ld although an invocation was "
                 "still pending at that time",
                 c,
                 id);
    // a skip leaves at most the call that is about to be made
    if (qkit::serial(r.q) && !r.disc_begun && !S[r.sig].destroy_begun) {
        for (int i = 0; i < S[r.sig].skips; ++i)
            if (S[r.sig].skip_e[i] && e.e && e.e < S[r.sig].skip_b[i] && !chained) {
                if (r.since_skip == i + 1)
                    sim_fail("[X17] handler %d is invoked for a second emit made before a skip "
                             "that has returned",
                             c);
                r.since_skip = i + 1;
            }
    }
    if (after_skip(r.sig, e))
        sim_probe(P_AFTER_SKIP);
    if (e.sig != r.sig)
        sim_probe(P_CHAINED);
    if (r.active)
        sim_probe(P_PARALLEL_SELF);
    r.active++;
    r.begins++;
    r.bseq[id] = r.last_begin = o_seq();
}
NOSAN void
h_end(int c, long id)
{
    CR& r = C[c];
    if (r.final)
        sim_fail("[X16] handler %d was still running when its disconnect returned", c);
    r.active--;
    r.ended[id] = 1;
    if (r.bseq[id] > r.done_begin)
        r.done_begin = r.bseq[id];
    r.end2 = r.end1;
    r.end1 = o_seq();
    sim_ev(4, c, id, 0);
}
NOSAN int64_t
begins_of(int c)
{
    return C[c].begins;
}
// --- use of a signal by somebody not protected by its destructor
NOSAN bool
gate_in(int s)
{
    if (S[s].destroy_begun)
        return false;
    S[s].ext++;
    return true;
}
NOSAN void
gate_dec(int s)
{
    S[s].ext--;
}
// orders the use before the destruction, but not the uses among themselves
std::atomic<int> gate_sync[NS];
void
gate_out(int s)
{
    gate_sync[s].fetch_add(1, std::memory_order_release);
    gate_dec(s);
}
NOSAN bool
pred_gate(void* a)
{
    int s = *(int*)a;
    if (S[s].ext)
        return false;
    for (int c = 0; c < NC; ++c)
        if (C[c].known && C[c].lost && C[c].inuse)
            return false;
    return true;
}
// T0 destroys the manager at the end, a handler that is late must not use it
std::atomic<int> mgr_sync{ 0 };
int mgr_users;
bool mgr_closed;
NOSAN bool
mgr_in()
{
    return !mgr_closed && ++mgr_users;
}
NOSAN void
mgr_left()
{
    mgr_users--;
}
void
mgr_out()
{
    mgr_sync.fetch_add(1, std::memory_order_release);
    mgr_left();
}
NOSAN bool
mgr_close()
{
    mgr_closed = true;
    return !mgr_users;
}
// use of signal s by handler c
NOSAN bool
use_in(int c, int s)
{
    if (c < 0 || C[c].sig != s || (chained && s == 0))
        return gate_in(s);
    if (C[c].lost || S[s].destroyed)
        return false;
    C[c].inuse++;
    return true;
}
NOSAN bool
use_gated(int c, int s)
{
    return c < 0 || C[c].sig != s || (chained && s == 0);
}
NOSAN void
use_dec(int c)
{
    C[c].inuse--;
}
void
use_out(int c, int s)
{
    if (use_gated(c, s))
        gate_out(s);
    else {
        gate_sync[s].fetch_add(1, std::memory_order_release);
        use_dec(c);
    }
}
NOSAN bool
conn_ready(int c)
{
    return C[c].known && C[c].con_done;
}
NOSAN bool
conn_claim(int c)
{
    if (!C[c].known || C[c].con_begun)
        return false;
    C[c].con_begun = true;
    return true;
}
NOSAN void
conn_done(int c, bool inside)
{
    C[c].con_seq = o_seq();
    C[c].con_done = true;
    if (inside)
        sim_probe(P_CONNECT_INSIDE);
    sim_ev(5, c, inside, 0);
}
NOSAN bool
pending_of(int c)
{
    for (int i = 0; i < ne; ++i)
        if (via(C[c].sig, E[i]) && E[i].b > C[c].con_seq && !C[c].cnt[i])
            return true;
    return false;
}
// begin of anything that disconnects c
NOSAN void
disc_begin(int c, bool inside, bool silent)
{
    CR& r = C[c];
    sim_ev(6, c, inside, silent);
    if (inside)
        sim_probe(P_DISC_INSIDE);
    else if (r.active)
        sim_probe(P_DISC_WAITED);
    if (r.discs_now++)
        sim_probe(P_DISC_COMPETING);
    if (!r.disc_begun && pending_of(c))
        sim_probe(P_QUEUED_AT_DISC);
    if (S[r.sig].destroyed)
        sim_probe(P_DISC_AFTER_DESTROY);
    r.disc_begun = true;
    r.lost = true;
    if (silent)
        r.silent = true;
}
NOSAN void
disc_end(int c, bool inside, int result)
{
    CR& r = C[c];
    r.discs_now--;
    sim_ev(7, c, inside, result);
    if (result >= 0) {
        if (result && ++r.trues > 1)
            sim_fail("[X16] two competing disconnects of handler %d both report success", c);
        if (!S[r.sig].destroy_begun)
            r.explicit_done++;
    }
    if (inside)
        r.inside = true;
    else {
        if (r.active)
            sim_fail("[X16] handler %d is still running when its disconnect returns", c);
        r.final = true;
    }
}
// a reset of the manager may or may not concern c which is being added
NOSAN void
unsure(int c)
{
    C[c].disc_begun = C[c].lost = C[c].silent = true;
}
NOSAN bool
managed(int c)
{
    return C[c].managed;
}
NOSAN bool
take_scoped(int c)
{
    bool r = !C[c].taken;
    C[c].taken = true;
    return r;
}
NOSAN void
adding(int c, bool begin)
{
    C[c].adding = begin;
    C[c].managed = !begin;
    if (resets_now)
        unsure(c);
}
NOSAN void
reset_mark(int d)
{
    resets_now += d;
    for (int c = 0; c < NC; ++c)
        if (C[c].adding)
            unsure(c);
}
NOSAN bool
uses_of(int c)
{
    return C[c].uses;
}
NOSAN int
sig_of(int c)
{
    return C[c].sig;
}
NOSAN int
holder_of(int c)
{
    return C[c].holder;
}
NOSAN int
skip_slot(int s)
{
    if (S[s].skips >= 8)
        return -1;
    int i = S[s].skips++;
    S[s].skip_b[i] = o_seq();
    S[s].skip_e[i] = 0;
    sim_ev(8, s, i, 0);
    return i;
}
NOSAN void
skip_end(int s, int i)
{
    S[s].skip_e[i] = o_seq();
    sim_ev(9, s, i, 0);
}
NOSAN bool
destroy_begin(int s)
{
    if (S[s].destroy_begun)
        return false;
    S[s].destroy_begun = true;
    sim_ev(10, s, 0, 0);
    return true;
}
NOSAN void
destroy_run(int s)
{
    for (int c = 0; c < NC; ++c)
        if (C[c].known && C[c].sig == s && C[c].active)
            sim_probe(P_DESTROY_RUNNING);
}
NOSAN void
destroy_end(int s)
{
    sim_ev(11, s, 0, 0);
    for (int c = 0; c < NC; ++c) {
        CR& r = C[c];
        // somebody else has disconnected it and may not be done yet
        if (!r.known || r.sig != s || r.disc_begun)
            continue;
        if (r.active)
            sim_fail("[X16] handler %d is still running when the destruction of its signal returns", c);
        r.disc_begun = r.lost = r.silent = r.final = true;
    }
    S[s].destroyed = true;
}
NOSAN bool
destroyed(int s)
{
    return S[s].destroy_begun;
}
NOSAN void
unchain_mark()
{
    unchain_begun = true;
}
NOSAN void
unchain_end()
{
    unchain_done = true;
}
NOSAN bool
chain_gone()
{
    return !chained || unchain_done || S[0].destroyed;
}
std::atomic<int> chain_sync;
NOSAN bool
can_unchain()
{
    return chained && !unchain_begun && !S[0].destroy_begun;
}
// must handler c be invoked for emit i
NOSAN bool
due(int c, int i)
{
    const CR& r = C[c];
    const ER& e = E[i];
    if (!r.known || !r.con_done || r.disc_begun || S[r.sig].destroy_begun || !via(r.sig, e) ||
        e.b < r.con_seq || skippable(r.sig, e))
        return false;
    if (e.sig != r.sig && (unchain_begun || skippable(0, e) || S[0].destroy_begun))
        return false;
    return true;
}
NOSAN bool
met(int c, int i)
{
    return C[c].batch ? C[c].last_begin > E[i].b : C[c].cnt[i] != 0;
}
NOSAN bool
pred_all(void* out)
{
    for (int c = 0; c < NC; ++c) {
        if (!C[c].known)
            continue;
        for (int i = 0; i < ne; ++i)
            if (due(c, i) && !met(c, i)) {
                ((int*)out)[0] = c;
                ((int*)out)[1] = i;
                return false;
            }
        if (C[c].active)
            return false;
    }
    return true;
}
NOSAN bool
pred_idle(void*)
{
    for (int c = 0; c < NC; ++c)
        if (C[c].known && C[c].active)
            return false;
    return true;
}
NOSAN void
report_missing(int c, int i)
{
    const char* why = after_skip(C[c].sig, E[i]) ? " made after a skip" : "";
    if (C[c].batch)
        sim_fail("[X15%s] batched handler %d is not invoked again after emit %d%s",
                 *why ? ",X17" : "",
                 c,
                 i,
                 why);
    sim_fail("[X14%s] handler %d is never invoked for emit %d%s", *why ? ",X17" : "", c, i, why);
}
NOSAN void
check_group(int64_t w0)
{
    for (int c = 0; c < NC; ++c) {
        const CR& r = C[c];
        if (!r.known || r.sig != 0)
            continue;
        for (int i = 0; i < ne; ++i)
            if (E[i].sig == 0 && E[i].e && E[i].e < w0 && due(c, i) &&
                (r.batch ? r.done_begin < E[i].b : !r.ended[i]))
                sim_fail("[X06,%s] waiting for the group of a signal returns before handler %d has "
                         "been executed for emit %d",
                         r.batch ? "X15" : "X14",
                         c,
                         i);
        sim_probe(P_GROUP_WAITED);
    }
}
// --- barriers
NOSAN bool
b_claim(int b, int s)
{
    if (B[b].used)
        return false;
    B[b].used = true;
    B[b].sig = s;
    B[b].got = -1;
    B[b].c0 = o_seq();
    return true;
}
NOSAN void
b_made(int b)
{
    B[b].c1 = o_seq();
    sim_ev(12, b, 0, 0);
}
NOSAN void
b_value(int b, long id, const Val& v)
{
    BR& r = B[b];
    sim_ev(13, b, id, 0);
    if (id < 0 || id >= ne || v.id != id || v.neg != ~id || !via(r.sig, E[id]))
        sim_fail("[X17] barrier %d carries values no emit supplied", b);
    const ER& e = E[id];
    if (e.e && e.e < r.c0)
        sim_fail("[X17] barrier %d carries the values of emit %ld made before its construction", b, id);
    if (e.b < r.c1)
        sim_probe(P_BARRIER_BEFORE_END);
    int more = 0;
    for (int i = 0; i < ne; ++i) {
        if (i == id || !via(r.sig, E[i]))
            continue;
        if (E[i].sig != r.sig && unchain_begun)
            continue;
        if (E[i].b > r.c1) {
            more++;
            if (E[i].e && E[i].e < e.b)
                sim_fail("[X17] barrier %d carries the values of emit %ld instead of emit %d, the "
                         "first after its construction",
                         b,
                         id,
                         i);
        }
    }
    if (more > 1)
        sim_probe(P_BARRIER_COMPETING);
    if (r.got >= 0 && r.got != id)
        sim_fail("[X17] values of barrier %d change from emit %ld to emit %ld", b, r.got, id);
    r.got = id;
}
NOSAN bool
b_open(int b) // not released before, although an emit is complete
{
    return B[b].used && !B[b].dropped && B[b].c1;
}
NOSAN void
b_drop(int b)
{
    B[b].dropped = true;
}
NOSAN int
b_sig(int b)
{
    return B[b].sig;
}
NOSAN void
b_timeout(int b, int64_t from, int64_t ms)
{
    if (sim_now() - from < ms * MS)
        sim_fail("[X17,X08] a wait of %ld ms for barrier %d gives up after %ld us",
                 (long)ms,
                 b,
                 (long)((sim_now() - from) / US));
}
NOSAN void
thread_done()
{
    threads_done++;
}
NOSAN bool
pred_threads(void* n)
{
    return threads_done >= *(int*)n;
}
NOSAN void
token_gone(int c)
{
    C[c].destroyed++;
}
struct Token
{
    int c;
    explicit Token(int x)
      : c(x)
    {}
    ~Token() { token_gone(c); }
};
NOSAN bool
pred_token(void* a)
{
    return C[*(int*)a].destroyed > 0;
}
NOSAN int64_t
seq_now()
{
    return o_seq();
}
NOSAN bool
live(int c)
{
    return C[c].known && C[c].con_done && !C[c].disc_begun && !S[C[c].sig].destroy_begun;
}
NOSAN bool
made(int c)
{
    return C[c].known && C[c].con_done;
}
NOSAN void
check_trues(int c)
{
    const CR& r = C[c];
    if (r.known && r.explicit_done && !r.silent && r.trues != 1)
        sim_fail("[X16] handler %d was disconnected %d times and %d calls report success",
                 c,
                 r.explicit_done,
                 r.trues);
}

// ---------------------------------------------------------------- workload
struct Obj
{
    int c;
    void on(long id, Val v);
};
struct World
{
    std::unique_ptr<Sig> s[NS];
    std::unique_ptr<group> g;
    std::atomic<bool> pub[NC]; // set once the handles below may be used
    connection raw[NC];
    std::unique_ptr<scoped_connection> scoped[NC];
    std::unique_ptr<connection_manager> manager;
    std::unique_ptr<Barrier> b[NB];
    std::unique_ptr<NSig> n[NS];
    std::unique_ptr<NBarrier> nb[NB];
    connection chain, nchain;
    Obj obj[NC];
    long cells[NE];
};
World* W;
Sig* sig_raw[NS];

void handler_body(int c, long id, const Val& v);
void
Obj::on(long id, Val v)
{
    handler_body(c, id, v);
}
void
do_emit(int s, int c)
{
    if (!use_in(c, s))
        return;
    int id = emit_begin(s, c >= 0);
    if (id >= 0) {
        W->cells[id] = id * 3 + 1;
        Val v{ id, ~(long)id, &W->cells[id] };
        sim_watch_begin(c >= 0 ? "[X17] emit inside a handler" : "[X17] emit", 30 * SEC);
        (*sig_raw[s])(id, v);
        if (W->n[s])
            (*W->n[s])(NVal(id, v), ~(long)id);
        sim_watch_end();
        emit_end(id);
    }
    use_out(c, s);
}
NOSAN void
check_gone(int c, const char* what, bool connected, bool to, bool again)
{
    if (connected || to || again)
        sim_fail("[X16] the connection object of handler %d still claims to be in charge after it was %s "
                 "(connected %d, to its signal %d, disconnects again %d)",
                 c,
                 what,
                 connected,
                 to,
                 again);
}
// c does not own a connection to s, these have no effect
void
check_moved(int c, int s, connection& cn, const char* what)
{
    bool a = cn.connected(), b = cn.is_connected_to(*sig_raw[s]);
    check_gone(c, what, a, b, cn.disconnect());
}
void
do_connect(const Ins& d, int by)
{
    int c = (int)d.a, s = (int)d.b;
    if (!use_in(by, s))
        return;
    if (conn_claim(c)) {
        sim_watch_begin("[X17] connect", 30 * SEC);
        notification_mode m =
          (d.d & 1) ? notification_mode::batch_updates : notification_mode::single_updates;
        int h = (int)((d.d >> 1) & 3);
        connection cn;
        if (d.d & 16)
            cn = sig_raw[s]->connect(&W->obj[c], &Obj::on, *qkit::get((int)d.c), m);
        else {
            auto tok = std::make_shared<Token>(c);
            cn = sig_raw[s]->connect([tok, c](long id, Val v) { handler_body(c, id, v); },
                                     *qkit::get((int)d.c),
                                     m);
        }
        sim_watch_end();
        W->raw[c] = cn;
        if (!cn.connected() || !cn.is_connected_to(*sig_raw[s]) || cn != W->raw[c])
            sim_fail("[X16] the connection object of handler %d does not describe its connection", c);
        if (h == H_SCOPED) {
            // the ways to hand over ownership, none of which may disconnect
            W->scoped[c].reset(new scoped_connection);
            switch ((d.a + d.b + d.c) % 5) {
                case 0:
                    W->scoped[c].reset(new scoped_connection(cn));
                    break;
                case 1:
                    *W->scoped[c] = cn;
                    break;
                case 2: {
                    scoped_connection other(cn);
                    *W->scoped[c] = std::move(other);
                    check_moved(c, s, other, "moved from");
                    break;
                }
                case 3: {
                    scoped_connection other(cn);
                    W->scoped[c].reset(new scoped_connection(std::move(other)));
                    check_moved(c, s, other, "moved from");
                    break;
                }
                case 4: {
                    scoped_connection other(cn);
                    W->scoped[c].reset(new scoped_connection(other.take()));
                    check_moved(c, s, other, "taken from");
                    break;
                }
            }
            if (*W->scoped[c] != cn || !W->scoped[c]->is_connected_to(*sig_raw[s]))
                sim_fail("[X16] the scope of handler %d does not hold its connection", c);
        }
        W->pub[c].store(true, std::memory_order_release);
        if (h == H_MANAGER && mgr_in()) {
            sim_watch_begin("[X17] adding a connection to a manager", 30 * SEC);
            adding(c, true);
            *W->manager += cn;
            sim_watch_end();
            adding(c, false);
            mgr_out();
        }
        conn_done(c, by >= 0);
    }
    use_out(by, s);
}
// by: the handler calling, -1 from a thread
void
do_disc(int c, int by)
{
    if (!conn_ready(c))
        return;
    bool u = uses_of(c);
    if (u && !gate_in(sig_of(c)))
        return;
    W->pub[c].load(std::memory_order_seq_cst);
    connection cn = W->raw[c];
    bool inside = by == c;
    disc_begin(c, inside, false);
    sim_watch_begin(inside ? "[X16,X17] disconnect inside its handler" : "[X16,X17] disconnect", 30 * SEC);
    bool r = cn.disconnect();
    sim_watch_end();
    bool on = cn.connected(), again = cn.disconnect();
    check_gone(c, "disconnected", on, false, again);
    disc_end(c, inside, r);
    if (u)
        gate_out(sig_of(c));
}
void
do_drop(int c)
{
    if (!conn_ready(c) || holder_of(c) != H_SCOPED)
        return;
    bool u = uses_of(c);
    if (u && !gate_in(sig_of(c)))
        return;
    std::unique_ptr<scoped_connection> h;
    W->pub[c].load(std::memory_order_seq_cst);
    if (take_scoped(c))
        h = std::move(W->scoped[c]);
    if (h) {
        disc_begin(c, false, true);
        sim_watch_begin("[X16,X17] destroying a scoped connection", 30 * SEC);
        int way = (c + P->n) % 3;
        if (way == 1)
            *h = scoped_connection();
        else if (way == 2)
            *h = connection();
        else {
            scoped_connection moved(std::move(*h));
        }
        sim_watch_end();
        disc_end(c, false, -1);
    }
    if (u)
        gate_out(sig_of(c));
}
// s: signal or -1 for all
void
do_mreset(int s, int by)
{
    for (int i = 0; i < nsig; ++i)
        if (!gate_in(i)) {
            while (i--)
                gate_out(i);
            return;
        }
    if (!mgr_in()) {
        for (int i = 0; i < nsig; ++i)
            gate_out(i);
        return;
    }
    bool mine[NC] = {};
    reset_mark(1);
    for (int c = 0; c < NC; ++c)
        mine[c] = managed(c) && (s < 0 || sig_of(c) == s);
    for (int c = 0; c < NC; ++c)
        if (mine[c])
            disc_begin(c, c == by, true);
    if (by >= 0)
        sim_probe(P_RESET_INSIDE);
    sim_watch_begin(by >= 0 ? "[X16,X17] resetting a connection manager inside a handler"
                            : "[X16,X17] resetting a connection manager",
                    30 * SEC);
    if (s < 0)
        W->manager->reset_connections();
    else
        W->manager->reset_connections_with(*sig_raw[s]);
    sim_watch_end();
    reset_mark(-1);
    for (int c = 0; c < NC; ++c)
        if (mine[c])
            disc_end(c, c == by, -1);
    mgr_out();
    for (int i = 0; i < nsig; ++i)
        gate_out(i);
}
void
do_skip(int s, int by)
{
    if (!use_in(by, s))
        return;
    int i = skip_slot(s);
    if (i >= 0) {
        sim_watch_begin("[X17] skip_all", 30 * SEC);
        sig_raw[s]->skip_all();
        sim_watch_end();
        skip_end(s, i);
    }
    use_out(by, s);
}
void
do_unchain()
{
    if (!can_unchain())
        return;
    unchain_mark();
    sim_watch_begin("[X16,X17] disconnecting a chained signal", 30 * SEC);
    bool r = W->chain.disconnect();
    sim_watch_end();
    if (P->cfg[C_TWIN])
        W->nchain.disconnect();
    if (!r && !destroyed(0))
        sim_fail("[X16] disconnecting a chained signal reports that there was nothing to disconnect");
    chain_sync.fetch_add(1, std::memory_order_release);
    unchain_end();
}
void
do_destroy(int s)
{
    if (!destroy_begin(s))
        return;
    // nobody forwards to a signal that is gone
    if (s == 1) {
        do_unchain();
        while (!chain_gone())
            sim_sleep(50 * US);
        chain_sync.load(std::memory_order_seq_cst);
    }
    while (!pred_gate(&s))
        sim_sleep(50 * US);
    gate_sync[s].load(std::memory_order_seq_cst);
    destroy_run(s);
    sim_watch_begin("[X17] destroying a signal", 30 * SEC);
    W->s[s].reset();
    W->n[s].reset();
    sim_watch_end();
    if (s == 0)
        chain_sync.fetch_add(1, std::memory_order_release);
    destroy_end(s);
}
void
barrier_values(int b)
{
    long id;
    Val v;
    if (W->nb[b]) {
        id = W->nb[b]->value().id;
        v = std::get<0>(W->nb[b]->values()).v;
        if (W->nb[b]->value<1>() != ~id)
            sim_fail("[X17] barrier %d mixes the values of several emits", b);
    } else {
        id = std::get<0>(W->b[b]->values());
        v = W->b[b]->value<1>();
        if (W->b[b]->value() != id)
            sim_fail("[X17] barrier %d mixes the values of several emits", b);
    }
    b_value(b, id, v);
    if (*v.cell != id * 3 + 1)
        sim_fail("[X17,X03] barrier %d does not see what was written before the emit", b);
}
bool
barrier_wait(int b, int64_t ms)
{
    return W->nb[b] ? W->nb[b]->wait(milliseconds(ms)) : W->b[b]->wait(milliseconds(ms));
}
void
barrier_peek(int b) // either not released, or the values are there
{
    try {
        W->nb[b] ? (void)W->nb[b]->values() : (void)W->b[b]->values();
    } catch (const std::runtime_error&) {
        return;
    }
    barrier_values(b);
}
void
exec_ins(const Ins& s)
{
    switch (s.op) {
        case I_CONN:
            do_connect(s, -1);
            break;
        case I_SLEEP:
            o_sleep(s.a, s.b, s.c);
            break;
        case I_EMIT:
            do_emit((int)s.a, -1);
            break;
        case I_DISC:
            do_disc((int)s.a, -1);
            break;
        case I_DROP:
            do_drop((int)s.a);
            break;
        case I_MRESET:
            do_mreset(-1, -1);
            break;
        case I_MRESETWITH:
            do_mreset((int)s.a, -1);
            break;
        case I_SKIP:
            do_skip((int)s.a, -1);
            break;
        case I_DESTROY:
            do_destroy((int)s.a);
            break;
        case I_UNCHAIN:
            do_unchain();
            break;
        case I_BNEW: {
            int b = (int)s.a, g = (int)s.b;
            if (!gate_in(g))
                break;
            if (b_claim(b, g)) {
                sim_watch_begin("[X17] constructing a barrier", 30 * SEC);
                if (W->n[g] && (b & 1))
                    W->nb[b].reset(new NBarrier(*W->n[g]));
                else
                    W->b[b].reset(new Barrier(*sig_raw[g]));
                sim_watch_end();
                b_made(b);
            }
            gate_out(g);
            break;
        }
        case I_BWAIT: {
            int b = (int)s.a;
            if (!b_open(b))
                break;
            int64_t t0 = sim_now();
            sim_watch_begin("[X17] timed wait for a barrier", s.b * MS + 30 * SEC);
            bool r = barrier_wait(b, s.b);
            sim_watch_end();
            if (r)
                barrier_values(b);
            else {
                b_timeout(b, t0, s.b);
                barrier_peek(b);
            }
            break;
        }
        case I_BDROP: {
            int b = (int)s.a;
            if (!b_open(b) || !gate_in(b_sig(b)))
                break;
            b_drop(b);
            sim_watch_begin("[X17] destroying a barrier", 30 * SEC);
            W->b[b].reset();
            W->nb[b].reset();
            sim_watch_end();
            gate_out(b_sig(b));
            break;
        }
        case I_GWAIT: {
            if (!W->g)
                break;
            int64_t w0 = seq_now();
            sim_watch_begin("[X06] waiting for the group of a signal", 60 * SEC);
            bool r = W->g->wait();
            sim_watch_end();
            if (r)
                check_group(w0);
            break;
        }
        case I_LOAD: {
            int q = (int)s.a;
            int64_t d = s.b;
            qkit::get(q)->async([q, d] {
                qkit::enter(q, "an operation");
                sim_sleep(d);
                qkit::leave(q);
            });
            break;
        }
        default:
            break;
    }
}
void
handler_body(int c, long id, const Val& v)
{
    int q = C[c].q;
    h_begin(c, id, v);
    int64_t n = begins_of(c);
    qkit::enter(q, "a signal handler");
    if (*v.cell != id * 3 + 1)
        sim_fail("[X14,X03] handler %d does not see what was written before the emit", c);
    for (int i = 0; i < P->n; ++i) {
        const Ins& s = P->ins[i];
        if (s.th != BODY + c || s.op == I_CONN)
            continue;
        if (s.c != n)
            continue;
        switch (s.op) {
            case I_EMIT:
                do_emit((int)s.a, c);
                break;
            case I_DISC:
                do_disc((int)s.a, c);
                break;
            case I_SKIP:
                do_skip((int)s.a, c);
                break;
            case I_MRESET:
                do_mreset(-1, c);
                break;
            case I_MRESETWITH:
                do_mreset((int)s.a, c);
                break;
            case I_SLEEP:
                sim_sleep(s.a);
                break;
            case I_LOAD: // connect another one
                for (int k = 0; k < P->n; ++k)
                    if (P->ins[k].op == I_CONN && P->ins[k].a == s.a)
                        do_connect(P->ins[k], c);
                break;
            default:
                break;
        }
    }
    sim_sleep(P->cfg[C_DUR0 + c % 3]);
    qkit::leave(q);
    h_end(c, id);
}

void
settle(const char* what)
{
    int miss[2] = { -1, -1 };
    if (!o_settle(pred_all, miss, PROMPT + 80 * busy)) {
        if (miss[0] >= 0 && due(miss[0], miss[1]) && !met(miss[0], miss[1]))
            report_missing(miss[0], miss[1]);
        sim_fail("[X17] a handler does not finish %s", what);
    }
}
void
run(const Prog& prog)
{
    P = &prog;
    W = new World;
    nsig = (int)prog.cfg[C_NSIG];
    int nq = (int)prog.cfg[C_NQ];
    for (int i = 0; i < nq; ++i)
        qkit::kind[i] = (int)prog.cfg[C_Q0 + i];
    qkit::setup(nq, (int)prog.cfg[C_POOL]);
    if (prog.cfg[C_GROUP])
        W->g.reset(new group);
    for (int i = 0; i < nsig; ++i) {
        W->s[i].reset(i == 0 && W->g ? new Sig(*W->g) : new Sig);
        sig_raw[i] = W->s[i].get();
        if (prog.cfg[C_TWIN])
            W->n[i].reset(new NSig);
    }
    W->manager.reset(new connection_manager);
    for (int i = 0; i < prog.n; ++i) {
        const Ins& d = prog.ins[i];
        if (d.op == I_LOAD && d.th < BODY)
            busy += d.b;
        if (d.op == I_SLEEP)
            busy += d.a;
        if (d.op != I_CONN)
            continue;
        CR& r = C[d.a];
        r.known = true;
        r.sig = (int)d.b;
        r.q = (int)d.c;
        r.batch = d.d & 1;
        r.holder = (int)((d.d >> 1) & 3);
        r.member = (d.d & 16) != 0;
        W->obj[d.a].c = (int)d.a;
        for (int k = 0; k < prog.n; ++k)
            if (prog.ins[k].th == BODY + (int)d.a && prog.ins[k].op != I_DISC &&
                prog.ins[k].op != I_SLEEP && prog.ins[k].op != I_CONN)
                r.uses = true;
        busy += prog.cfg[C_DUR0 + d.a % 3];
    }
    if (prog.cfg[C_CHAIN] && nsig > 1) {
        chained = true;
        W->chain = W->s[0]->connect(*W->s[1]);
        if (W->n[0])
            W->nchain = W->n[0]->connect(*W->n[1]);
    }
    for (int i = 0; i < prog.n; ++i)
        if (prog.ins[i].op == I_CONN && (prog.cfg[C_PRE] >> prog.ins[i].a & 1))
            do_connect(prog.ins[i], -1);
    int nth = (int)prog.cfg[C_THREADS];
    std::vector<std::thread> th;
    for (int x = 0; x < nth; ++x)
        th.emplace_back([x] {
            sim_mark_harness();
            for (int i = 0; i < P->n; ++i)
                if (P->ins[i].th == x)
                    exec_ins(P->ins[i]);
            thread_done();
        });
    o_settle(pred_threads, &nth, 10 * SEC);
    sim_quiesce(1);
    if (!o_settle(pred_threads, &nth, 60 * SEC))
        sim_fail("[X17] a call to a signal does not return");
    for (auto& t : th)
        t.join();
    settle("after the threads ended");
    // every connection left is still served, barriers are released
    for (int round = 0; round < 2; ++round) {
        for (int i = 0; i < nsig; ++i)
            if (!destroyed(i))
                do_emit(i, -1);
        settle("after the final emits");
    }
    for (int b = 0; b < NB; ++b)
        if (b_open(b) && !destroyed(b_sig(b))) {
            if (!barrier_wait(b, 2000))
                sim_fail("[X17] barrier %d is not released by an emit", b);
            barrier_values(b);
            W->b[b].reset();
            W->nb[b].reset();
            b_drop(b);
        }
    // destroying the manager is final for all of its connections
    if (prog.cfg[C_MGR]) {
        while (!mgr_close())
            sim_sleep(1 * MS);
        mgr_sync.load(std::memory_order_seq_cst); // ordered after what handlers did with it
        bool mine[NC] = {};
        for (int c = 0; c < NC; ++c)
            if (managed(c) && live(c)) {
                mine[c] = true;
                sim_probe(P_MANAGER_DESTROYED);
                disc_begin(c, false, true);
            }
        sim_watch_begin("[X16,X17] destroying a connection manager", 30 * SEC);
        W->manager.reset();
        sim_watch_end();
        for (int c = 0; c < NC; ++c)
            if (mine[c])
                disc_end(c, false, -1);
        for (int i = 0; i < nsig; ++i)
            if (!destroyed(i))
                do_emit(i, -1);
        settle("after the manager was destroyed");
    }
    // disconnect some, destroy the signals for the others
    for (int c = 0; c < NC; ++c)
        if (live(c) && (c & 1)) {
            do_disc(c, -1);
        }
    for (int i = 0; i < nsig; ++i)
        do_destroy(i);
    for (int c = 0; c < NC; ++c)
        if (made(c))
            check_trues(c);
    // nothing is left, whatever is still queued does not run
    if (!o_settle(pred_idle, nullptr, PROMPT))
        sim_fail("[X17] a handler does not finish after its signal was destroyed");
    for (int b = 0; b < NB; ++b) {
        W->b[b].reset();
        W->nb[b].reset();
    }
    for (int c = 0; c < NC; ++c) {
        W->scoped[c].reset();
        if (made(c) && !C[c].member && !o_settle(pred_token, &c, PROMPT + 80 * busy))
            sim_fail("[X16,X04] handler %d is still alive long after its signal was destroyed", c);
    }
    W->manager.reset();
    sim_done();
}

void
gen(Rnd& r, Prog& p, int focus)
{
    enum
    {
        F_SINGLE,
        F_BATCH,
        F_DISC,
        F_RECURSE,
        F_BARRIER,
        F_QT
    };
    const bool qt = focus == F_QT;
    if (qt)
        focus = (int)r.in(0, F_QT - 1);
    int nth = (int)r.in(focus == F_BARRIER ? 2 : 1, 3), ns = r.chance(1, 3) ? 2 : 1;
    int nq = (int)r.in(1, 3), n = (int)r.in(focus == F_BARRIER ? 0 : 1, focus == F_DISC ? 7 : 5);
    p.cfg[C_THREADS] = nth;
    p.cfg[C_NSIG] = ns;
    p.cfg[C_NC] = n;
    p.cfg[C_CHAIN] = ns > 1 && r.chance(2, 3);
    p.cfg[C_GROUP] = r.chance(1, 4);
    p.cfg[C_NQ] = nq;
    p.cfg[C_POOL] = r.in(1, 3);
    for (int i = 0; i < nq; ++i)
        p.cfg[C_Q0 + i] = qkit::pick_kind(r, qt);
    const long du[] = { 0, 0, 20 * US, 100 * US, 1 * MS, 5 * MS };
    for (int i = 0; i < 3; ++i)
        p.cfg[C_DUR0 + i] = r.pick(du);
    long pre = 0;
    for (int c = 0; c < n; ++c) {
        bool batch = focus == F_BATCH ? r.chance(4, 5) : focus == F_SINGLE ? r.chance(1, 8) : r.chance(1, 3);
        int holder = r.chance(1, 2) ? H_RAW : r.chance(1, 2) ? H_SCOPED : H_MANAGER;
        int th = (int)r.in(0, nth - 1);
        bool early = r.chance(3, 4);
        if (early)
            pre |= 1l << c;
        prog_add(p,
                 early ? BODY + 50 : th,
                 I_CONN,
                 c,
                 r.in(0, ns - 1),
                 r.in(0, nq - 1),
                 (batch ? 1 : 0) | holder << 1 | (r.chance(1, 4) ? 16 : 0));
    }
    int spare = n; // connections only made by handlers
    // what handlers do
    int den = focus == F_RECURSE ? 2 : focus == F_DISC ? 4 : 8;
    for (int c = 0; c < n; ++c) {
        const long naps[] = { 0, 50 * US, 1 * MS, 3 * MS };
        int m = r.chance(1, den) ? (int)r.in(1, 3) : 0;
        for (int i = 0; i < m; ++i) {
            int k = (int)r.in(0, 9);
            long nth_inv = r.in(1, 3);
            if (r.chance(1, 3))
                prog_add(p, BODY + c, I_SLEEP, r.pick(naps), 0, nth_inv);
            if (k < 4)
                prog_add(p, BODY + c, I_EMIT, r.in(0, ns - 1), 0, nth_inv);
            else if (k < 5)
                prog_add(p, BODY + c, I_SKIP, r.in(0, ns - 1), 0, nth_inv);
            else if (k < 7 && spare < NC) {
                prog_add(p, BODY + 50, I_CONN, spare, r.in(0, ns - 1), r.in(0, nq - 1),
                         (r.chance(1, 3) ? 1 : 0) | (r.chance(1, 2) ? H_RAW : H_MANAGER) << 1);
                prog_add(p, BODY + c, I_LOAD, spare++, 0, nth_inv);
            } else
                prog_add(p, BODY + c, I_DISC, c, 0, nth_inv);
        }
        if (r.chance(1, focus == F_DISC ? 3 : 10))
            prog_add(p, BODY + c, I_DISC, r.chance(1, 2) ? c : r.in(c, n - 1), 0, r.in(1, 3));
    }
    // one handler may reset the manager unless another one waits for it
    if (n && r.chance(1, focus == F_DISC ? 4 : 12)) {
        bool ok = true;
        for (int i = 0; i < p.n; ++i)
            if (p.ins[i].th >= BODY && p.ins[i].th < BODY + NC && p.ins[i].op == I_DISC &&
                p.ins[i].a != p.ins[i].th - BODY)
                ok = false;
        if (ok)
            prog_add(p, BODY + (int)r.in(0, n - 1), r.chance(1, 2) ? I_MRESET : I_MRESETWITH,
                     r.in(0, ns - 1), 0, r.in(1, 3));
    }
    p.cfg[C_MGR] = r.chance(1, 3);
    p.cfg[C_TWIN] = focus == F_BARRIER && r.chance(1, 2);
    p.cfg[C_PRE] = pre;
    p.cfg[C_NC] = spare;
    const long naps[] = { 0, 10 * US, 50 * US, 200 * US, 1 * MS, 5 * MS };
    int bar = 0, emits = 0;
    for (int t = 0; t < nth; ++t) {
        int m = (int)r.in(4, 12);
        int own[4], nown = 0;
        for (int i = 0; i < m; ++i) {
            int k = (int)r.in(0, 99);
            int s = (int)r.in(0, ns - 1);
            if (k < 40) {
                int b = r.chance(1, 3) ? (int)r.in(2, 5) : 1;
                while (b-- && emits < 44) {
                    prog_add(p, t, I_EMIT, s);
                    emits++;
                }
                if (p.cfg[C_GROUP] && r.chance(1, 4))
                    prog_add(p, t, I_GWAIT);
            } else if (k < 50)
                gen_sleep(r, p, t, I_SLEEP, naps);
            else if (k < 58)
                prog_add(p, t, I_LOAD, r.in(0, nq - 1), r.in(0, 20) * 100 * US);
            else if (k < 60 && p.cfg[C_GROUP])
                prog_add(p, t, I_GWAIT);
            else if (k < 62)
                prog_add(p, t, I_UNCHAIN);
            else if (k < 80 && (focus == F_BARRIER || r.chance(1, 6))) {
                const long to[] = { 0, 0, 1, 3, 10 };
                if (nown && r.chance(2, 3)) {
                    int b = own[r.in(0, nown - 1)];
                    if (r.chance(1, 4))
                        prog_add(p, t, I_BDROP, b);
                    else
                        prog_add(p, t, I_BWAIT, b, r.pick(to));
                } else if (bar < NB) {
                    own[nown++] = bar;
                    prog_add(p, t, I_BNEW, bar++, s);
                }
            } else if (k < 90 && n && (focus == F_DISC || focus == F_RECURSE || r.chance(1, 4))) {
                int c = (int)r.in(0, n - 1);
                int w = (int)r.in(0, 9);
                if (w < 5)
                    prog_add(p, t, I_DISC, c);
                else if (w < 7)
                    prog_add(p, t, I_DROP, c);
                else if (w < 8)
                    prog_add(p, t, I_MRESET);
                else
                    prog_add(p, t, I_MRESETWITH, s);
            } else if (k < 95 && (focus == F_RECURSE || r.chance(1, 5)))
                prog_add(p, t, I_SKIP, s);
            else if (k < 99 && (focus == F_RECURSE || focus == F_DISC || r.chance(1, 8)) && r.chance(1, 2))
                prog_add(p, t, I_DESTROY, s);
        }
    }
}
void
tune(Rnd& r, const Prog& p, sim_cfg& c, int focus)
{
    (void)p;
    (void)focus;
    (void)r;
    if (c.freeze_max_ns > 1000 * MS)
        c.freeze_max_ns = 1000 * MS;
    if (c.tjump_max_ns > 1000 * MS)
        c.tjump_max_ns = 1000 * MS;
    c.max_vtime = 900 * SEC;
    c.max_steps = 2000000;
}
const char* const kFocus[] = { "single", "batch", "disconnect", "recursion", "barrier", "qt", nullptr };
} // namespace

extern const Family fam_signals;
const Family fam_signals = { "signals", kOps, kCfg, kProbes, "X14,X15,X16,X17", gen, run, tune, kFocus };
