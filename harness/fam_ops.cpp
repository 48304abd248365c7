// Family "ops": queues, groups, apply, delayed operations, completion barriers,
// waitable queues, blocking scopes, pool elasticity. One interpreter; the focus
// decides what the generator produces.
#include "h.h"
#include <array>
#include <atomic>
#include <condition_variable>
#include <deque>
#include <memory>
#include <mutex>
#include <thread>
#include <vector>
#include <xdispatch/barrier_operation.h>
#include <xdispatch/dispatch.h>
#include <xdispatch/impl/iqueue_impl.h>
#include <xdispatch/waitable_queue.h>
#include <xdispatch/backend_naive.h>
#include "ops_qt.h"

using namespace xdispatch;
using std::chrono::milliseconds;

namespace {

enum
{
    C_THREADS,
    C_NQ,
    C_Q0,
    C_NG = C_Q0 + 8,
    C_NB,
    C_POOL,   // threads of the custom or Qt pool
    C_FINAL,  // 1: idle expiry and revival at the end
    C_PROBE,  // 1: measure capacity at begin and end
    C_PRIO,   // 1: priority order oracle active
    C_TIGHT,  // 1: strict bound on the number of workers
    C_LONG,   // 1: a long running operation is present
    C_WARM,   // 1: warm up the pool first
    C_QTLATE, // the Qt thread is started only after this time
    C_NESTED  // operations of the custom pool run inside one of another pool
};
const char* const kCfg[] = { "threads", "queues", "q0",   "q1",   "q2",    "q3",
                             "q4",      "q5",     "q6",   "q7",   "groups", "barriers",
                             "pool",    "final",  "probe", "prio", "tight", "long",
                             "warm",    "qtlate", "nested", nullptr };
enum QK
{
    QK_GLOBAL,
    QK_SERIAL,
    QK_MAIN,
    QK_CSERIAL,
    QK_CPAR,
    QK_WQ,
    QK_WQG,
    QK_QTTHREAD,
    QK_QTPOOL,
    QK_N
};
enum
{
    I_SLEEP,
    I_YIELD,
    I_ASYNC,
    I_GASYNC,
    I_APPLY,
    I_AFTER,
    I_GWAIT,
    I_GNOTIFY,
    I_BWAIT,
    I_BEXEC,
    I_BPOLL,
    I_BLOCK,
    I_MEET,
    I_DROP,
    I_DROPG,
    I_WALL,
    I_WQONE,
    I_WQALL,
    I_LONG,
    I_HOLD,
    I_N
};
const char* const kOps[] = { "sleep",  "yield",   "async", "group_async", "apply",
                             "after",  "group_wait", "group_notify", "barrier_wait",
                             "barrier_exec", "barrier_poll", "block", "meet", "drop_queue",
                             "drop_group", "wall_jump", "wq_wait_one", "wq_wait_all",
                             "long",    "hold",    nullptr };
enum
{
    P_IDLE_REVIVE,
    P_GWAIT_TIMEOUT,
    P_CPOOL_LENT,
    P_GWAIT_LATER,
    P_BWAIT_TIMEOUT,
    P_BWAIT_MANY,
    P_DROP_LAST_IN_OP,
    P_WQ_INLINE,
    P_APPLY_NESTED,
    P_DESTROY_IN_OP,
    P_NOTIFY_PENDING,
    P_SATURATED,
    P_MULTI_DRAIN,
    P_BLOCKED_PEAK,
    P_PRIO_CHECK,
    P_GWAIT_CONCURRENT,
    P_GROUP_REUSED
};
const char* const kProbes[] = { "worker_revived_after_idle",
                                "group_wait_timed_out",
                                "custom_pool_thread_blocked",
                                "group_wait_ends_before_later_operations",
                                "barrier_wait_timed_out",
                                "barrier_with_many_waiters",
                                "last_handle_dropped_in_operation",
                                "waitable_op_ran_on_waiter",
                                "apply_nested",
                                "operation_destroyed_inside_operation",
                                "notify_registered_while_pending",
                                "pool_saturated",
                                "more_than_ten_jobs_pending_on_serial",
                                "blocked_above_pool_size",
                                "priority_checked_under_contention",
                                "concurrent_group_waits",
                                "group_reused_after_wait",
                                nullptr };

// ------------------------------------------------------------------ oracle
enum SK
{
    K_ASYNC,
    K_GASYNC,
    K_APPLY,
    K_AFTER,
    K_NOTIFY,
    K_INTERNAL
};
const int64_t INF = INT64_MAX;
const int MAXOPS = 4000;
struct OpRec
{
    int kind, q, g, body;
    int submitter; // sim tid
    int64_t sb, se, tb;
    int64_t bseq, eseq, btime, etime;
    int begins, ends, destroyed, btid, exempt_destroy;
    int64_t delay;
    int64_t sclean, eclean; // o_idle() at submission and end
};
OpRec O[MAXOPS];
int nO;
const Prog* P;
int q_kind[8], q_prio[8], q_running[8];
int64_t q_submitted[8];
int64_t wq_idle_seq[8], wq_claims[8], wq_ended[8];
int ncpu_cfg;
int run_depth[256]; // operations currently executing per sim thread
int run_op[256];
int blk_depth[256];
int64_t last_free_seq[256]; // end of the previous pool operation of a thread
bool is_harness_tid[256], is_main_tid[256], is_cpool_tid[256], is_qt_tid[256];
int qt_thread_tid = -1;
int running_unblocked, running_global, peak_blocked, now_blocked, lib_blockers;
struct Cur
{
    const char* what;
    int ins;
} cur_stack[256][16];
int cur_n[256];
long g_out[MAXOPS];
long g_qcell[8 * 8];

NOSAN bool
o_on_qt_pool()
{
#ifdef XDSIM_QT
    return qt_on_pool_thread();
#else
    return true;
#endif
}
NOSAN bool
is_serial(int q)
{
    int k = q_kind[q];
    return k == QK_SERIAL || k == QK_MAIN || k == QK_CSERIAL || k == QK_WQ || k == QK_WQG ||
           k == QK_QTTHREAD;
}
NOSAN bool
is_wq(int q)
{
    return q_kind[q] == QK_WQ || q_kind[q] == QK_WQG;
}
NOSAN bool
on_pool(int q)
{
    int k = q_kind[q];
    return k == QK_GLOBAL || k == QK_SERIAL;
}
NOSAN int
o_new(int kind, int q, int g, int body, int64_t delay)
{
    if (nO >= MAXOPS) {
        sim_fail("[HARNESS] too many operations");
    }
    OpRec& o = O[nO];
    memset(&o, 0, sizeof o);
    o.kind = kind;
    o.q = q;
    o.g = g;
    o.body = body;
    o.submitter = sim_tid();
    o.sb = o.se = INF;
    o.bseq = o.eseq = INF;
    o.delay = delay;
    return nO++;
}
NOSAN void
o_sub_begin(int id)
{
    O[id].sb = o_seq();
    O[id].tb = sim_now();
    O[id].sclean = o_idle();
    if (is_wq(O[id].q))
        ++lib_blockers; // a worker of the inner queue may have to wait for its turn
    sim_ev(1, id, O[id].q, O[id].kind);
}
NOSAN void
o_sub_end(int id)
{
    O[id].se = o_seq();
    sim_ev(2, id, 0, 0);
}
NOSAN int
free_workers_but(int tid)
{
    // pool workers which might hold a dequeued but not yet started operation
    int n = sim_nthreads_alive() - 1; // without the manager thread
    for (int i = 0; i < 256; ++i)
        if (run_depth[i] && !is_harness_tid[i] && !is_main_tid[i] && !is_cpool_tid[i] && i != tid)
            --n;
    return n - 1; // without the thread itself
}
NOSAN int
prio_rank(int p)
{
    switch (p) {
        case 1:
            return 0;
        case 2:
            return 1;
        case 4:
            return 3;
        default:
            return 2;
    }
}
NOSAN void
o_begin(int id)
{
    OpRec& o = O[id];
    int tid = sim_tid();
    sim_ev(3, id, tid, 0);
    if (o.begins++)
        sim_fail("[X01,%s] operation %d executed %d times (%s)",
                 o.kind == K_AFTER    ? "X09"
                 : o.kind == K_APPLY  ? "X05"
                 : o.kind == K_NOTIFY ? "X07"
                 : is_wq(o.q)         ? "X18"
                 : q_kind[o.q] >= QK_QTTHREAD ? "X23"
                                      : "X02",
                 id,
                 o.begins,
                 kOps[o.kind == K_ASYNC    ? I_ASYNC
                      : o.kind == K_GASYNC ? I_GASYNC
                      : o.kind == K_APPLY  ? I_APPLY
                      : o.kind == K_AFTER  ? I_AFTER
                                           : I_GNOTIFY]);
    if (o.sb == INF)
        sim_fail("[X01] operation %d executed before it was submitted", id);
    o.bseq = o_seq();
    o.btime = sim_now();
    o.btid = tid;
    const int q = o.q;
    const char* serial_props = is_wq(q)                      ? "X18,X02"
                               : q_kind[q] == QK_QTTHREAD    ? "X23,X02"
                               : o.kind == K_APPLY           ? "X05,X02"
                                                             : "X02";
    if (is_serial(q)) {
        if (q_running[q])
            sim_fail("[%s] operation %d starts on serial queue %d while %d other "
                     "operation(s) of it are running",
                     serial_props,
                     id,
                     q,
                     q_running[q]);
        int pend = 0;
        for (int i = 0; i < nO; ++i) {
            OpRec& y = O[i];
            if (y.q != q || i == id)
                continue;
            if (y.sb != INF && !y.begins)
                ++pend;
            if (y.se < o.sb && !y.ends)
                sim_fail("[%s] operation %d starts on serial queue %d before operation "
                         "%d which was submitted earlier",
                         serial_props,
                         id,
                         q,
                         i);
            if (o.kind == K_APPLY && y.kind == K_APPLY && y.sb == o.sb && i < id && !y.ends)
                sim_fail("[X05,X02] apply index order on serial queue: %d before %d", id, i);
        }
        if (pend > 10)
            sim_probe(P_MULTI_DRAIN);
    }
    q_running[q]++;
    if (o.kind == K_AFTER && o.btime < o.tb + o.delay)
        sim_fail("[X09%s] operation %d delayed by %.3f ms runs after %.3f ms",
                 q_kind[q] >= QK_QTTHREAD ? ",X23" : "",
                 id,
                 o.delay / 1e6,
                 (o.btime - o.tb) / 1e6);
    if (o.kind == K_NOTIFY) {
        for (int i = 0; i < nO; ++i)
            if (O[i].kind == K_GASYNC && O[i].g == o.g && O[i].se < o.sb && !O[i].ends)
                sim_fail("[X07] notification %d of group %d runs before operation %d which "
                         "was submitted before the registration has finished",
                         id,
                         o.g,
                         i);
    }
    // affinity
    const bool nested = run_depth[tid] > 0;
    if (q_kind[q] == QK_MAIN && !is_main_tid[tid])
        sim_fail("[X21] main queue operation %d runs on another thread", id);
    if ((q_kind[q] == QK_CSERIAL || q_kind[q] == QK_CPAR) && !is_cpool_tid[tid])
        sim_fail("[X21] operation %d of a custom pool queue runs outside the pool", id);
    if (on_pool(q) && (is_harness_tid[tid] || is_main_tid[tid] || is_cpool_tid[tid]))
        sim_fail("[X21,X01] operation %d of a pool queue runs on a foreign thread", id);
    if (q_kind[q] == QK_QTTHREAD && tid != qt_thread_tid)
        sim_fail("[X23,X21] operation %d of a Qt thread queue runs on another thread", id);
    if (q_kind[q] == QK_QTPOOL &&
        (is_harness_tid[tid] || is_main_tid[tid] || tid == qt_thread_tid || !o_on_qt_pool()))
        sim_fail("[X23,X21] operation %d of a Qt pool queue runs on a foreign thread", id);
    if (is_wq(q) && is_harness_tid[tid])
        sim_probe(P_WQ_INLINE);
    // priorities
    if (P->cfg[C_PRIO] && q_kind[q] == QK_GLOBAL && !nested && last_free_seq[tid] &&
        o.kind != K_AFTER && o.kind != K_NOTIFY) {
        int higher = 0, earlier = 0, ph = -1, pe = -1;
        for (int i = 0; i < nO; ++i) {
            OpRec& y = O[i];
            if (i == id || y.begins || q_kind[y.q] != QK_GLOBAL || y.kind == K_AFTER ||
                y.kind == K_NOTIFY)
                continue;
            if (y.se < last_free_seq[tid] && prio_rank(q_prio[y.q]) < prio_rank(q_prio[q])) {
                ++higher;
                ph = i;
            }
            if (y.q == q && y.submitter == o.submitter && y.se < o.sb) {
                ++earlier;
                pe = i;
            }
        }
        int others = free_workers_but(tid);
        if (higher || earlier)
            sim_probe(P_PRIO_CHECK);
        if (higher > others)
            sim_fail("[X22] operation %d (priority class %d) is started by a worker that "
                     "became free while %d operation(s) of higher priority were pending, "
                     "e.g. %d (at most %d can be in transit)",
                     id,
                     prio_rank(q_prio[q]),
                     higher,
                     ph,
                     others);
        if (earlier > others)
            sim_fail("[X22] operation %d is started before %d operation(s) submitted earlier "
                     "by the same thread with the same priority, e.g. %d (at most %d can be "
                     "in transit)",
                     id,
                     earlier,
                     pe,
                     others);
    }
    if (run_depth[tid] < 0)
        run_depth[tid] = 0;
    run_depth[tid]++;
    run_op[tid] = id;
    if (!nested)
        ++running_unblocked;
    if (running_unblocked >= 2 * ncpu_cfg)
        sim_probe(P_SATURATED);
}
NOSAN void
o_end(int id)
{
    OpRec& o = O[id];
    int tid = sim_tid();
    sim_ev(4, id, tid, 0);
    o.ends++;
    o.eseq = o_seq();
    o.etime = sim_now();
    o.eclean = o_idle();
    q_running[o.q]--;
    run_depth[tid]--;
    if (!run_depth[tid]) {
        --running_unblocked;
        last_free_seq[tid] = o.eseq;
    }
    if (is_wq(o.q)) {
        wq_ended[o.q]++;
        bool pend = false;
        for (int i = 0; i < nO; ++i)
            if (O[i].q == o.q && O[i].se != INF && !O[i].ends)
                pend = true;
        if (!pend)
            wq_idle_seq[o.q] = o.eseq;
    }
}
NOSAN void
o_destroyed(int id)
{
    OpRec& o = O[id];
    sim_ev(5, id, sim_tid(), 0);
    if (o.destroyed++)
        sim_fail("[X04] operation %d destroyed twice", id);
    if (o.begins != o.ends)
        sim_fail("[X04] operation %d destroyed while it is executing", id);
    if (!o.begins && o.kind != K_APPLY && o.kind != K_INTERNAL)
        sim_fail("[X01,X04%s] operation %d destroyed without having been executed",
                 o.kind == K_AFTER                ? ",X09"
                 : o.kind == K_NOTIFY             ? ",X07"
                 : is_wq(o.q)                     ? ",X18"
                 : q_kind[o.q] >= QK_QTTHREAD     ? ",X23"
                 : q_kind[o.q] == QK_MAIN || q_kind[o.q] == QK_CSERIAL || q_kind[o.q] == QK_CPAR
                   ? ",X21"
                   : "",
                 id);
    if (run_depth[sim_tid()] > 0)
        sim_probe(P_DESTROY_IN_OP);
}
NOSAN void
cur_push(const char* what, int ins)
{
    int t = sim_tid();
    if (cur_n[t] < 16) {
        cur_stack[t][cur_n[t]].what = what;
        cur_stack[t][cur_n[t]].ins = ins;
    }
    cur_n[t]++;
}
NOSAN void
cur_pop()
{
    cur_n[sim_tid()]--;
}
NOSAN void
o_blocked(int d)
{
    int t = sim_tid();
    if (d > 0) {
        if (!blk_depth[t]++ && run_depth[t]) {
            --running_unblocked;
            ++now_blocked;
        }
        if (now_blocked > peak_blocked)
            peak_blocked = now_blocked;
        if (now_blocked >= 2 * ncpu_cfg)
            sim_probe(P_BLOCKED_PEAK);
    } else {
        if (!--blk_depth[t] && run_depth[t]) {
            ++running_unblocked;
            --now_blocked;
        }
    }
}
NOSAN void
o_mark(bool* set)
{
    set[sim_tid()] = true;
}
NOSAN int
o_count()
{
    return nO;
}
struct Waitrec
{
    int64_t sb, tb, clean;
    bool idle; // nothing outstanding at begin
};
int gwaiting[4], gwaited[4];
int timed_waits; // timed waits in progress
NOSAN Waitrec
gwait_begin(int g, long ms)
{
    timed_waits += ms >= 0;
    Waitrec w;
    w.idle = true;
    for (int i = 0; i < nO; ++i)
        if (O[i].kind == K_GASYNC && O[i].g == g && O[i].sb != INF && !O[i].destroyed)
            w.idle = false;
    w.sb = o_seq();
    w.tb = sim_now();
    w.clean = o_idle();
    sim_ev(6, g, 0, 0);
    if (gwaiting[g]++)
        sim_probe(P_GWAIT_CONCURRENT);
    return w;
}
// collects the operations whose results must be visible, returns their number
NOSAN int
gwait_end(int g, const Waitrec& w, long ms, bool res, int* ids)
{
    int64_t now = sim_now();
    sim_ev(7, g, res, 0);
    gwaiting[g]--;
    timed_waits -= ms >= 0;
    gwaited[g]++;
    int n = 0;
    bool all = true;
    int64_t fin = w.tb;
    int open = -1;
    for (int i = 0; i < nO; ++i) {
        OpRec& o = O[i];
        if (o.kind != K_GASYNC || o.g != g || o.se > w.sb)
            continue;
        if (!o.ends) {
            all = false;
            open = i;
        } else {
            if (o.etime > fin)
                fin = o.etime;
            if (n < MAXOPS)
                ids[n++] = i;
        }
    }
    if (res) {
        if (!all)
            sim_fail("[X06] wait(%ld ms) on group %d returned success although operation %d "
                     "submitted before has not finished",
                     ms,
                     g,
                     open);
    } else {
        sim_probe(P_GWAIT_TIMEOUT);
        if (ms < 0)
            sim_fail("[X06] unlimited wait on group %d returned failure", g);
        if (now - w.tb < ms * MS)
            sim_fail("[X06] wait(%ld ms) on group %d failed after %.3f ms already",
                     ms,
                     g,
                     (now - w.tb) / 1e6);
        if (w.idle) {
            bool more = false;
            for (int i = 0; i < nO; ++i)
                if (O[i].kind == K_GASYNC && O[i].g == g && O[i].sb > w.sb && O[i].sb != INF)
                    more = true;
            if (!more)
                sim_fail("[X06] wait(%ld ms) on group %d without outstanding operations failed",
                         ms,
                         g);
        }
        for (int i = 0; i < nO; ++i) // later ones may keep the group busy
            if (O[i].kind == K_GASYNC && O[i].g == g && O[i].sb != INF) {
                if (!O[i].ends)
                    all = false;
                else if (O[i].etime > fin)
                    fin = O[i].etime;
            }
        if (all && w.tb + ms * MS - fin > LATE + sim_busy() + sim_stalled())
            sim_fail("[X06] wait(%ld ms) on group %d failed although all operations submitted "
                     "before had finished %.3f s before its end",
                     ms,
                     g,
                     (w.tb + ms * MS - fin) / 1e9);
    }
    // what was submitted well after the wait began does not concern it
    bool over = true;
    int64_t late = w.clean, last = w.sb;
    for (int i = 0; i < nO; ++i)
        if (O[i].kind == K_GASYNC && O[i].g == g && O[i].sb != INF &&
            (O[i].sb < w.sb || O[i].sclean <= w.clean + LATE)) {
            over = over && O[i].ends;
            if (O[i].ends && O[i].eseq > last) {
                last = O[i].eseq;
                late = O[i].eclean;
            }
        } else if (O[i].kind == K_GASYNC && O[i].g == g && O[i].sb != INF && !O[i].ends)
            sim_probe(P_GWAIT_LATER);
    if (over && o_idle() - late > LATE)
        sim_fail("[X06] wait(%ld ms) on group %d returned %s %.3f s after all operations "
                 "submitted before it had finished",
                 ms,
                 g,
                 res ? "success" : "failure",
                 (o_idle() - late) / 1e9);
    if (ms >= 0 && o_idle() - w.clean > ms * MS + LATE)
        sim_fail("[X06] wait(%ld ms) on group %d returned only after %.3f s",
                 ms,
                 g,
                 (o_idle() - w.clean) / 1e9);
    return n;
}
// ---- barriers
struct BRec
{
    int64_t submitted, ebegin, eend, etime;
    int direct_q;
    int64_t direct_sb;
    bool seen;
    int waiters;
} B[8];
NOSAN void
b_exec_begin(int k)
{
    sim_ev(8, k, 0, 0);
    if (B[k].ebegin == 0)
        B[k].ebegin = o_seq();
}
NOSAN void
b_exec_end(int k)
{
    sim_ev(9, k, 0, 0);
    if (B[k].eend == 0) {
        B[k].eend = o_seq();
        B[k].etime = sim_now();
    }
}
NOSAN void
b_direct(int k, int q)
{
    B[k].direct_q = q;
    if (!B[k].direct_sb)
        B[k].direct_sb = o_seq();
    B[k].submitted++;
}
NOSAN bool
b_may_exec(int k)
{
    return B[k].ebegin != 0 || B[k].direct_sb != 0;
}
NOSAN int
b_passed(int k, const char* how, int* ids)
{
    if (!b_may_exec(k))
        sim_fail("[X08] %s on barrier %d reports completion although the barrier was never "
                 "executed",
                 how,
                 k);
    int n = 0;
    // submitted behind other work of a serial queue: all of it must be done
    if (!B[k].ebegin && B[k].submitted == 1 && is_serial(B[k].direct_q)) {
        for (int i = 0; i < nO; ++i)
            if (O[i].q == B[k].direct_q && O[i].se < B[k].direct_sb) {
                if (!O[i].ends)
                    sim_fail("[X08,X02] %s on barrier %d reports completion before operation "
                             "%d queued ahead of it has finished",
                             how,
                             k,
                             i);
                ids[n++] = i;
            }
    }
    B[k].seen = true;
    return n;
}
struct BWait
{
    int64_t sb, tb, clean;
};
NOSAN BWait
b_wait_begin(int k, long ms)
{
    timed_waits += ms >= 0;
    sim_ev(10, k, 0, 0);
    if (B[k].waiters++)
        sim_probe(P_BWAIT_MANY);
    BWait w;
    w.sb = o_seq();
    w.tb = sim_now();
    w.clean = o_idle();
    return w;
}
NOSAN int
b_wait_end(int k, const BWait& w, long ms, bool res, int* ids)
{
    sim_ev(11, k, res, 0);
    B[k].waiters--;
    timed_waits -= ms >= 0;
    if (ms >= 0 && o_idle() - w.clean > ms * MS + LATE)
        sim_fail("[X08] wait(%ld ms) on barrier %d returned only after %.3f s",
                 ms,
                 k,
                 (o_idle() - w.clean) / 1e9);
    if (res)
        return b_passed(k, "wait", ids);
    sim_probe(P_BWAIT_TIMEOUT);
    if (ms < 0)
        sim_fail("[X08] unlimited wait on barrier %d returned failure", k);
    if (sim_now() - w.tb < ms * MS)
        sim_fail("[X08] wait(%ld ms) on barrier %d failed after %.3f ms already",
                 ms,
                 k,
                 (sim_now() - w.tb) / 1e6);
    if (B[k].eend && B[k].etime < w.tb + ms * MS)
        sim_fail("[X08] wait(%ld ms) on barrier %d failed although the barrier was executed "
                 "before the timeout",
                 ms,
                 k);
    if (B[k].eend && B[k].eend < w.sb)
        sim_fail("[X08] wait(%ld ms) on executed barrier %d failed", ms, k);
    return 0;
}
NOSAN int
b_poll_begin(int k)
{
    sim_realtime();
    return B[k].eend != 0 || B[k].seen;
}
NOSAN int
b_poll_end(int k, int was, bool res, int* ids)
{
    sim_ev(12, k, res, 0);
    if (res)
        return b_passed(k, "has_passed", ids);
    if (was)
        sim_fail("[X08] has_passed of barrier %d is false after it was executed", k);
    return 0;
}
NOSAN bool
b_open(int k)
{
    return B[k].ebegin == 0;
}
// ---- waitable queue
NOSAN int64_t
wq_begin(int q)
{
    sim_ev(13, q, 0, 0);
    ++lib_blockers; // may have to wait for the active operation
    return o_seq();
}
NOSAN int
wq_all_end(int q, int64_t sb, int* ids)
{
    sim_ev(14, q, 0, 0);
    int n = 0;
    for (int i = 0; i < nO; ++i)
        if (O[i].q == q && O[i].se < sb) {
            if (!O[i].ends)
                sim_fail("[X18] wait_for_all on waitable queue %d returned although operation %d "
                         "submitted before has not finished",
                         q,
                         i);
            ids[n++] = i;
        }
    return n;
}
NOSAN void
wq_one_end(int q, int64_t sb)
{
    sim_ev(15, q, 0, 0);
    bool pend = false;
    for (int i = 0; i < nO; ++i)
        if (O[i].q == q && O[i].se < sb && O[i].se != INF && !O[i].ends)
            pend = true;
    // the queue may have been empty when the call looked at it, in this case it
    // did not need to claim anything: only count what was claimed for certain
    for (int i = 0; i < nO && !pend; ++i)
        if (O[i].q == q && O[i].se < sb && O[i].eseq > sb && O[i].ends)
            pend = true;
    if (!pend || wq_idle_seq[q] > sb)
        return;
    if (++wq_claims[q] <= wq_ended[q])
        return;
    sim_fail("[X18] wait_for_one on waitable queue %d returned although nothing unclaimed has "
             "completed and operations were pending all the time",
             q);
}
// ---- apply
NOSAN void
apply_done(int base, long n)
{
    for (int i = base; i < base + n; ++i)
        if (!O[i].ends)
            sim_fail("[X05] apply returned before index %d has finished", i - base);
}
NOSAN void
apply_index(long i, long n)
{
    if (i < 0 || i >= n)
        sim_fail("[X05] apply(%ld) invoked with index %ld", n, i);
}
// ---- workers
NOSAN void
o_check_workers(const char* when)
{
    int alive = sim_nthreads_alive() - 1; // manager thread
    if (alive < 0)
        alive = 0;
    int blockers = peak_blocked + lib_blockers;
    int slack = P->cfg[C_TIGHT] ? 1 : (int)P->cfg[C_THREADS] + 2 * ncpu_cfg + 2;
    if (alive > 2 * ncpu_cfg + blockers + slack)
        sim_fail("[X20,X19] %d pool workers are alive %s with %d processors and at most %d "
                 "threads ever declared blocked",
                 alive,
                 when,
                 ncpu_cfg,
                 blockers);
}
NOSAN void
o_lib_blocker()
{
    ++lib_blockers;
}

// ------------------------------------------------------------------ custom pool
int lent[256], lent_total;
NOSAN void
o_lent(int d)
{
    int t = sim_tid();
    if (!is_cpool_tid[t])
        sim_fail("[X19,X21] a custom pool is told that a thread of another pool %s",
                 d > 0 ? "blocks" : "continues");
    lent[t] += d;
    lent_total += d > 0;
    if (lent[t] < 0)
        sim_fail("[X19] a custom pool is told that a thread continues which was not blocked");
    if (lent[t])
        sim_probe(P_CPOOL_LENT);
}
NOSAN bool
pred_lent(void*)
{
    for (int i = 0; i < 256; ++i)
        if (lent[i])
            return false;
    return true;
}
class MyPool : public naive::ithreadpool
{
public:
    explicit MyPool(int n)
    {
        for (int i = 0; i < n; ++i)
            std::thread([this] {
                sim_mark_harness();
                o_mark(is_cpool_tid);
                run();
            }).detach();
    }
    void execute(const operation_ptr& work, queue_priority priority) override
    {
        std::lock_guard<std::mutex> l(m_cs);
        if (expected_prio >= 0 && (int)priority != expected_prio)
            sim_fail("[X21] work is handed to the custom pool with priority %d instead of %d",
                     (int)priority,
                     expected_prio);
        m_work.push_back(work);
        m_cond.notify_one();
    }
    int expected_prio = -1;
    naive::ithreadpool* outer = nullptr; // pretend to run inside this one

protected:
    void notify_thread_blocked() override { o_lent(1); }
    void notify_thread_unblocked() override { o_lent(-1); }

private:
    struct Nested : operation
    {
        MyPool* p;
        operation_ptr op;
        void operator()() override
        {
            run_with_threadpool(*op, p);
            op.reset();
            if (ithreadpool::current() != p->outer)
                sim_fail("[X21] the current pool is not restored after an operation of another "
                         "pool was executed");
        }
    };
    void run()
    {
        for (;;) {
            operation_ptr op;
            {
                std::unique_lock<std::mutex> l(m_cs);
                while (m_work.empty())
                    m_cond.wait(l);
                op = m_work.front();
                m_work.pop_front();
            }
            if (outer) {
                Nested n;
                n.p = this;
                n.op = std::move(op);
                run_with_threadpool(n, outer);
            } else
                run_with_threadpool(*op, this);
            if (ithreadpool::current())
                sim_fail("[X21] there is a current pool outside of any operation");
        }
    }
    std::mutex m_cs;
    std::condition_variable m_cond;
    std::deque<operation_ptr> m_work;
};

// ------------------------------------------------------------------ world
struct Ctx
{
    std::array<std::shared_ptr<queue>, 8> q;
    std::array<std::shared_ptr<group>, 4> g;
};
struct World
{
    std::shared_ptr<MyPool> pool;
    std::array<std::shared_ptr<barrier_operation>, 8> b;
    std::array<std::weak_ptr<iqueue_impl>, 8> impl;
    std::mutex mx;
    std::condition_variable cv;
    int arrived[8] = {};
    bool released = false;
    int expect[8] = {};
};
World* W;
unsigned needQ[80], needG[80];

NOSAN void
compute_needs()
{
    // bodies only refer to bodies of higher index: one backward pass suffices
    for (int b = 79; b >= 0; --b) {
        needQ[b] = needG[b] = 0;
        for (int i = 0; i < P->n; ++i) {
            const Ins& s = P->ins[i];
            if (s.th != BODY + b)
                continue;
            switch (s.op) {
                case I_ASYNC:
                    needQ[b] |= 1u << s.a | needQ[s.b];
                    needG[b] |= needG[s.b];
                    if (s.d > 0) {
                        needQ[b] |= needQ[s.d - 1] | 1u << s.a;
                        needG[b] |= needG[s.d - 1];
                    }
                    break;
                case I_APPLY:
                case I_AFTER:
                    needQ[b] |= 1u << s.a | needQ[s.b];
                    needG[b] |= needG[s.b];
                    break;
                case I_GASYNC:
                case I_GNOTIFY:
                    needQ[b] |= 1u << s.c | needQ[s.b];
                    needG[b] |= 1u << s.a | needG[s.b];
                    break;
                case I_GWAIT:
                case I_DROPG:
                    needG[b] |= 1u << s.a;
                    break;
                case I_WQONE:
                case I_WQALL:
                case I_DROP:
                    needQ[b] |= 1u << s.a;
                    break;
                case I_BEXEC:
                    if (s.b >= 0)
                        needQ[b] |= 1u << s.b;
                    break;
                default:
                    break;
            }
        }
    }
    for (int i = 0; i < 8; ++i)
        W->expect[i] = 0;
    for (int i = 0; i < P->n; ++i) {
        const Ins& s = P->ins[i];
        if (s.op != I_MEET || s.th < BODY)
            continue;
        for (int j = 0; j < P->n; ++j) {
            const Ins& t = P->ins[j];
            if (t.op == I_ASYNC && t.b == s.th - BODY)
                W->expect[s.a] += (int)t.c;
            else if (t.op == I_GASYNC && t.b == s.th - BODY)
                W->expect[s.a] += (int)t.d;
        }
    }
}
bool
ctx_has(const Ctx& c, unsigned nq, unsigned ng)
{
    for (int i = 0; i < 8; ++i)
        if ((nq >> i & 1) && !c.q[i])
            return false;
    for (int i = 0; i < 4; ++i)
        if ((ng >> i & 1) && !c.g[i])
            return false;
    return true;
}
void
ctx_copy(Ctx& d, const Ctx& s, unsigned nq, unsigned ng)
{
    for (int i = 0; i < 8; ++i)
        if (nq >> i & 1)
            d.q[i] = s.q[i];
    for (int i = 0; i < 4; ++i)
        if (ng >> i & 1)
            d.g[i] = s.g[i];
}
void run_body(int body, Ctx& c);
void dtor_submit(int q, int body, Ctx& c);

void
check_pool_current(int q)
{
    const ithreadpool_probe p = current_pool();
    switch (q_kind[q]) {
        case QK_CSERIAL:
        case QK_CPAR:
            if (p != W->pool.get())
                sim_fail("[X21] current pool inside a custom pool operation is not that pool");
            break;
        case QK_GLOBAL:
        case QK_SERIAL:
            if (!p || p == W->pool.get())
                sim_fail("[X21] current pool inside a pool operation is wrong");
            break;
        case QK_MAIN:
            if (p)
                sim_fail("[X21] the main thread claims to execute on a pool");
            break;
        default:
            break;
    }
}

void
enter_op(int id, long in)
{
    o_begin(id);
    if (in != 7000 + id)
        sim_fail("[X03] operation %d does not see the data written before submission", id);
    int q = O[id].q;
    if (is_serial(q))
        g_qcell[q * 8]++;
    g_out[id] = id + 1;
    check_pool_current(q);
}

struct OpObj : public operation
{
    OpObj(int i, int bd)
      : id(i)
      , in(7000 + i)
      , body(bd)
    {}
    ~OpObj() override
    {
        long v = in;
        if (v != 7000 + id)
            sim_fail("[X03,X04] operation %d corrupted at destruction", id);
        o_destroyed(id);
        if (dtor_q >= 0)
            dtor_submit(dtor_q, dtor_body, ctx);
    }
    void operator()() override
    {
        enter_op(id, in);
        if (nread > 0)
            for (int i = 0; i < nread; ++i)
                if (g_out[reads[i]] != reads[i] + 1)
                    sim_fail("[X03,X07] result of operation %d not visible", reads[i]);
        run_body(body, ctx);
        o_end(id);
    }
    const int id;
    long in;
    const int body;
    int dtor_q = -1, dtor_body = 0;
    int nread = 0;
    std::vector<int> reads;
    Ctx ctx;
};
void
dtor_submit(int q, int body, Ctx& c)
{
    if (!c.q[q])
        return;
    int id = o_new(K_ASYNC, q, -1, body, 0);
    auto op = std::make_shared<OpObj>(id, body);
    ctx_copy(op->ctx, c, needQ[body], needG[body]);
    o_sub_begin(id);
    c.q[q]->async(op);
    o_sub_end(id);
}
void
read_outs(const int* ids, int n, const char* props)
{
    for (int i = 0; i < n; ++i)
        if (g_out[ids[i]] != ids[i] + 1)
            sim_fail("[%s] result of operation %d is not visible after a successful wait",
                     props,
                     ids[i]);
}
struct Cursor
{
    Cursor(const char* w, int i) { cur_push(w, i); }
    ~Cursor() { cur_pop(); }
};
int
notify_reads(int g, int64_t, int* ids);
NOSAN int
notify_reads(int g, int64_t sb, int* ids)
{
    int n = 0;
    for (int i = 0; i < nO; ++i)
        if (O[i].kind == K_GASYNC && O[i].g == g && O[i].se < sb) {
            ids[n++] = i;
            if (!O[i].ends)
                sim_probe(P_NOTIFY_PENDING);
        }
    return n;
}

void
exec_ins(const Ins& s, int idx, Ctx& c)
{
    int ids[MAXOPS];
    switch (s.op) {
        case I_SLEEP:
            if (s.b)
                o_sleep(s.a, s.b, s.c);
            else
                std::this_thread::sleep_for(std::chrono::nanoseconds(s.a));
            break;
        case I_YIELD:
            for (long i = 0; i < s.a; ++i)
                sim_yield();
            break;
        case I_ASYNC: {
            if (!c.q[s.a] || !ctx_has(c, needQ[s.b], needG[s.b]))
                break;
            Cursor cu("async", idx);
            for (long i = 0; i < s.c; ++i) {
                int id = o_new(K_ASYNC, (int)s.a, -1, (int)s.b, 0);
                auto op = std::make_shared<OpObj>(id, (int)s.b);
                ctx_copy(op->ctx, c, needQ[s.b], needG[s.b]);
                if (s.d > 0 && ctx_has(c, needQ[s.d - 1], needG[s.d - 1])) {
                    op->dtor_q = (int)s.a;
                    op->dtor_body = (int)s.d - 1;
                    ctx_copy(op->ctx, c, needQ[s.d - 1] | 1u << s.a, needG[s.d - 1]);
                }
                o_sub_begin(id);
                c.q[s.a]->async(op);
                o_sub_end(id);
            }
            break;
        }
        case I_GASYNC: {
            if (!c.g[s.a] || !c.q[s.c] || !ctx_has(c, needQ[s.b], needG[s.b]))
                break;
            Cursor cu("group_async", idx);
            for (long i = 0; i < s.d; ++i) {
                int id = o_new(K_GASYNC, (int)s.c, (int)s.a, (int)s.b, 0);
                auto op = std::make_shared<OpObj>(id, (int)s.b);
                ctx_copy(op->ctx, c, needQ[s.b], needG[s.b]);
                if (gwaited[s.a])
                    sim_probe(P_GROUP_REUSED);
                o_sub_begin(id);
                c.g[s.a]->async(op, *c.q[s.c]);
                o_sub_end(id);
            }
            break;
        }
        case I_APPLY: {
            if (!c.q[s.a] || !ctx_has(c, needQ[s.b], needG[s.b]))
                break;
            Cursor cu("apply", idx);
            int base = o_count();
            long n = s.c;
            for (long i = 0; i < n; ++i)
                o_new(K_APPLY, (int)s.a, -1, (int)s.b, 0);
            auto sub = std::make_shared<Ctx>();
            ctx_copy(*sub, c, needQ[s.b], needG[s.b]);
            int body = (int)s.b;
            for (long i = 0; i < n; ++i)
                o_sub_begin(base + (int)i);
            o_lib_blocker();
            o_blocked(1);
            sim_watch_begin("apply", 60 * SEC);
            auto q = c.q[s.a];
            q->apply((size_t)n, [base, n, sub, body](size_t i) {
                apply_index((long)i, n);
                int id = base + (int)i;
                enter_op(id, 7000 + id);
                Ctx mine;
                ctx_copy(mine, *sub, needQ[body], needG[body]);
                run_body(body, mine);
                o_end(id);
            });
            sim_watch_end();
            o_blocked(-1);
            apply_done(base, n);
            for (long i = 0; i < n; ++i) {
                ids[i] = base + (int)i;
                o_sub_end(base + (int)i);
            }
            read_outs(ids, (int)n, "X03,X05");
            break;
        }
        case I_AFTER: {
            if (!c.q[s.a] || !ctx_has(c, needQ[s.b], needG[s.b]))
                break;
            Cursor cu("after", idx);
            int id = o_new(K_AFTER, (int)s.a, -1, (int)s.b, s.c * MS);
            auto op = std::make_shared<OpObj>(id, (int)s.b);
            ctx_copy(op->ctx, c, needQ[s.b], needG[s.b]);
            o_lib_blocker();
            o_sub_begin(id);
            c.q[s.a]->after(milliseconds(s.c), op);
            break;
        }
        case I_GWAIT: {
            if (!c.g[s.a])
                break;
            Cursor cu("group_wait", idx);
            o_lib_blocker();
            o_blocked(1);
            const long ms = o_limit_of(s.b);
            Waitrec w = gwait_begin((int)s.a, ms);
            bool r = c.g[s.a]->wait(milliseconds(s.b));
            int n = gwait_end((int)s.a, w, ms, r, ids);
            o_blocked(-1);
            if (r)
                read_outs(ids, n, "X03,X06");
            break;
        }
        case I_GNOTIFY: {
            if (!c.g[s.a] || !c.q[s.c] || !ctx_has(c, needQ[s.b], needG[s.b]))
                break;
            Cursor cu("group_notify", idx);
            int id = o_new(K_NOTIFY, (int)s.c, (int)s.a, (int)s.b, 0);
            auto op = std::make_shared<OpObj>(id, (int)s.b);
            ctx_copy(op->ctx, c, needQ[s.b], needG[s.b]);
            int n = notify_reads((int)s.a, INF, ids);
            op->nread = n;
            op->reads.assign(ids, ids + n);
            o_lib_blocker();
            o_sub_begin(id);
            c.g[s.a]->notify(op, *c.q[s.c]);
            break;
        }
        case I_BWAIT: {
            Cursor cu("barrier_wait", idx);
            auto b = W->b[s.a];
            std::unique_ptr<naive_block_scope> sc;
            if (s.c) {
                o_blocked(1);
                sc.reset(new naive_block_scope);
            }
            const long ms = o_limit_of(s.b);
            BWait w = b_wait_begin((int)s.a, ms);
            bool r = b->wait(milliseconds(s.b));
            int n = b_wait_end((int)s.a, w, ms, r, ids);
            if (s.c) {
                sc.reset();
                o_blocked(-1);
            }
            read_outs(ids, n, "X03,X08");
            break;
        }
        case I_BEXEC: {
            Cursor cu("barrier_exec", idx);
            auto b = W->b[s.a];
            if (s.b < 0) {
                b_exec_begin((int)s.a);
                execute_operation_on_this_thread(*b);
                b_exec_end((int)s.a);
            } else if (c.q[s.b]) {
                if (s.c) {
                    b_direct((int)s.a, (int)s.b);
                    c.q[s.b]->async(b);
                } else {
                    int k = (int)s.a;
                    c.q[s.b]->async([k, b] {
                        b_exec_begin(k);
                        execute_operation_on_this_thread(*b);
                        b_exec_end(k);
                    });
                }
            }
            break;
        }
        case I_BPOLL: {
            Cursor cu("barrier_poll", idx);
            auto b = W->b[s.a];
            int was = b_poll_begin((int)s.a);
            bool r = b->has_passed();
            int n = b_poll_end((int)s.a, was, r, ids);
            read_outs(ids, n, "X03,X08");
            break;
        }
        case I_BLOCK: {
            o_blocked(1);
            {
                naive_block_scope sc;
                std::this_thread::sleep_for(std::chrono::nanoseconds(s.a));
            }
            o_blocked(-1);
            break;
        }
        case I_MEET: {
            Cursor cu("meet", idx);
            std::unique_ptr<naive_block_scope> sc;
            if (s.c) {
                o_blocked(1);
                sc.reset(new naive_block_scope);
            }
            {
                std::unique_lock<std::mutex> l(W->mx);
                if (++W->arrived[s.a] >= W->expect[s.a])
                    W->cv.notify_all();
                while (W->arrived[s.a] < W->expect[s.a])
                    W->cv.wait(l);
            }
            if (s.c) {
                sc.reset();
                o_blocked(-1);
            }
            break;
        }
        case I_DROP:
            if (c.q[s.a] && c.q[s.a].use_count() == 1 && run_depth[sim_tid()] > 0)
                sim_probe(P_DROP_LAST_IN_OP);
            c.q[s.a].reset();
            break;
        case I_DROPG:
            c.g[s.a].reset();
            break;
        case I_WALL:
            sim_wall_jump(s.a);
            break;
        case I_WQONE: {
            if (!c.q[s.a])
                break;
            Cursor cu("wq_wait_one", idx);
            int64_t sb = wq_begin((int)s.a);
            static_cast<waitable_queue*>(c.q[s.a].get())->wait_for_one();
            wq_one_end((int)s.a, sb);
            break;
        }
        case I_WQALL: {
            if (!c.q[s.a])
                break;
            Cursor cu("wq_wait_all", idx);
            int64_t sb = wq_begin((int)s.a);
            static_cast<waitable_queue*>(c.q[s.a].get())->wait_for_all();
            int n = wq_all_end((int)s.a, sb, ids);
            read_outs(ids, n, "X03,X18");
            break;
        }
        case I_HOLD: {
            // lasts until all timed waits in progress have run out
            Cursor cu("hold", idx);
            o_blocked(1);
            {
                naive_block_scope sc;
                std::unique_lock<std::mutex> l(W->mx);
                while (!W->released)
                    W->cv.wait(l);
            }
            o_blocked(-1);
            break;
        }
        case I_LONG:
            sim_sleep(25 * SEC);
            break;
        default:
            break;
    }
}
void
run_body(int body, Ctx& c)
{
    for (int i = 0; i < P->n; ++i)
        if (P->ins[i].th == BODY + body)
            exec_ins(P->ins[i], i, c);
}

// ------------------------------------------------------------------ run
int threads_done;
bool has_long(int body);
NOSAN bool
has_long(int body)
{
    for (int i = 0; i < P->n; ++i)
        if (P->ins[i].th == BODY + body && P->ins[i].op == I_LONG)
            return true;
    return false;
}
NOSAN void
o_thread_done()
{
    ++threads_done;
}
NOSAN const char*
prop_of_ins(const char* w)
{
    if (!strcmp(w, "group_wait"))
        return "X06";
    if (!strcmp(w, "barrier_wait") || !strcmp(w, "barrier_poll") || !strcmp(w, "barrier_exec"))
        return "X08";
    if (!strcmp(w, "apply"))
        return "X05";
    if (!strncmp(w, "wq_", 3))
        return "X18";
    if (!strcmp(w, "meet"))
        return "X19";
    if (!strcmp(w, "after"))
        return "X09";
    if (!strcmp(w, "group_notify"))
        return "X07";
    return "X01";
}
int64_t due(const OpRec& o);
NOSAN void
fail_stuck(const char* stage)
{
    // is there an operation which should have been started
    bool waiting = false;
    for (int i = 0; i < nO; ++i)
        if (O[i].sb != INF && !O[i].begins && !has_long(O[i].body) &&
            !(O[i].kind == K_AFTER && sim_now() < due(O[i])))
            waiting = true;
    for (int t = 0; t < 256; ++t)
        if (cur_n[t] > 0) {
            int d = cur_n[t] < 16 ? cur_n[t] : 16;
            const char* w = cur_stack[t][d - 1].what;
            sim_fail("[%s%s%s] %s (instruction %d) of T%d does not return (%s)",
                     prop_of_ins(w),
                     !strcmp(w, "meet") || !strcmp(w, "apply") || !strcmp(w, "group_wait")
                       ? ",X19,X20"
                       : "",
                     waiting ? ",X01" : "",
                     w,
                     cur_stack[t][d - 1].ins,
                     t,
                     stage);
        }
    for (int i = 0; i < nO; ++i) {
        OpRec& o = O[i];
        if (o.sb == INF || o.begins || has_long(o.body) ||
            (o.kind == K_AFTER && sim_now() < due(o)))
            continue;
        const char* p = o.kind == K_AFTER            ? "X09,X01"
                        : o.kind == K_NOTIFY         ? "X07,X01"
                        : o.kind == K_APPLY          ? "X05,X01"
                        : is_wq(o.q)                 ? "X18,X01"
                        : q_kind[o.q] >= QK_QTTHREAD ? "X23,X01"
                        : q_kind[o.q] == QK_MAIN || q_kind[o.q] == QK_CSERIAL ||
                            q_kind[o.q] == QK_CPAR
                          ? "X01,X21"
                          : "X01,X19,X20";
        sim_fail("[%s] operation %d submitted to queue %d (kind %d) is not executed (%s)",
                 p,
                 i,
                 o.q,
                 q_kind[o.q],
                 stage);
    }
    for (int i = 0; i < nO; ++i)
        if (O[i].begins && !O[i].ends && !has_long(O[i].body))
            sim_fail("[X01] operation %d started but does not finish (%s)", i, stage);
    sim_fail("[X01] threads do not finish (%s)", stage);
}
NOSAN bool
pred_threads(void* n)
{
    return threads_done >= *(int*)n;
}
// when a delayed operation has to be available; threads may have been stalled before
// they began to wait
NOSAN int64_t
due(const OpRec& o)
{
    return o.tb + o.delay + sim_stalled() + sim_busy();
}
NOSAN bool
pred_no_timed(void*)
{
    return timed_waits == 0;
}
NOSAN bool
pred_ops(void* all)
{
    for (int i = 0; i < nO; ++i) {
        if (O[i].sb == INF)
            continue;
        if (!*(bool*)all && has_long(O[i].body))
            continue;
        if (!O[i].ends && !(O[i].kind == K_AFTER && sim_now() < due(O[i])))
            return false;
    }
    return true;
}
NOSAN int64_t
next_delayed()
{
    int64_t m = 0;
    for (int i = 0; i < nO; ++i)
        if (O[i].kind == K_AFTER && O[i].sb != INF && !O[i].begins && due(O[i]) > sim_now() &&
            (!m || due(O[i]) < m))
            m = due(O[i]);
    return m;
}
NOSAN bool
pred_destroyed(void*)
{
    for (int i = 0; i < nO; ++i)
        if (O[i].ends && O[i].kind != K_APPLY && O[i].kind != K_INTERNAL && !O[i].destroyed &&
            !has_long(O[i].body))
            return false;
    return true;
}
NOSAN void
fail_destroyed()
{
    for (int i = 0; i < nO; ++i)
        if (O[i].ends && O[i].kind != K_APPLY && O[i].kind != K_INTERNAL && !O[i].destroyed)
            sim_fail("[X04%s] operation %d was executed but is still not destroyed %.0f s later",
                     O[i].kind == K_AFTER ? ",X09" : is_wq(O[i].q) ? ",X18" : "",
                     i,
                     PROMPT / 1e9);
}
int g_after_on_queue(int q);
NOSAN int
g_after_on_queue(int q)
{
    for (int i = 0; i < nO; ++i)
        if (O[i].kind == K_AFTER && O[i].q == q)
            return 1;
    return 0;
}
bool
pred_impl(void*)
{
    for (int i = 0; i < 8; ++i)
        if (!W->impl[i].expired())
            return false;
    return true;
}
NOSAN bool
pred_idle(void* n)
{
    return sim_nthreads_alive() <= *(int*)n;
}
int probe_now, probe_max, probe_left;
NOSAN void
probe_in()
{
    if (++probe_now > probe_max)
        probe_max = probe_now;
}
NOSAN void
probe_out()
{
    --probe_now;
    --probe_left;
}
NOSAN bool
pred_probe(void*)
{
    return probe_left <= 0;
}
NOSAN void
probe_reset(int n)
{
    probe_now = probe_max = 0;
    probe_left = n;
}
int
capacity_probe()
{
    int n = 4 * ncpu_cfg + 6;
    probe_reset(n);
    for (int i = 0; i < n; ++i)
        global_queue().async([] {
            probe_in();
            sim_sleep(300 * MS);
            probe_out();
        });
    if (!o_settle(pred_probe, nullptr, 30 * SEC))
        sim_fail("[X01,X20,X19] operations submitted to the global queue are not executed "
                 "while the pool should be idle");
    return probe_max;
}

#ifdef XDSIM_QT
// how many operations the Qt pool executes at once, and in which order
int qt_order[8], qt_ordered;
NOSAN void
qt_order_add(int rank)
{
    if (qt_ordered < 8)
        qt_order[qt_ordered++] = rank;
}
void
qt_pool_probe(int threads)
{
    int n = 2 * threads + 3;
    probe_reset(n);
    {
        auto q = qt_make_queue(true, "probe", queue_priority::DEFAULT);
        for (int i = 0; i < n; ++i)
            q->async([] {
                probe_in();
                sim_sleep(300 * MS);
                probe_out();
            });
    }
    if (!o_settle(pred_probe, nullptr, 30 * SEC))
        sim_fail("[X23,X01,X19] operations submitted to the idle Qt pool are not executed");
    if (probe_max != threads)
        sim_fail("[X19,X23] a Qt pool of %d threads executes %d operations at once after its "
                 "threads were blocked and unblocked",
                 threads,
                 probe_max);
    // all threads busy, then one operation of each priority
    static const int prios[] = { 3, 0, 4, 1, 2 };
    probe_reset(threads + 5);
    auto q = qt_make_queue(true, "busy", queue_priority::DEFAULT);
    for (int i = 0; i < threads; ++i)
        q->async([i] {
            sim_sleep(300 * MS + i * 100 * MS);
            probe_out();
        });
    sim_sleep(200 * MS);
    qt_ordered = 0;
    for (int k = 0; k < 5; ++k) {
        int pr = prios[(k + threads) % 5];
        int rank = prio_rank(pr);
        qt_make_queue(true, "prio", (queue_priority)pr)->async([rank] {
            qt_order_add(rank);
            sim_sleep(1 * MS);
            probe_out();
        });
    }
    if (!o_settle(pred_probe, nullptr, 30 * SEC))
        sim_fail("[X23,X01,X19] operations submitted to the Qt pool are not executed");
    for (int k = 1; k < qt_ordered; ++k)
        if (qt_order[k] < qt_order[k - 1])
            sim_fail("[X23,X22,X21] an operation of priority class %d is executed before one of "
                     "class %d on a Qt pool",
                     qt_order[k - 1],
                     qt_order[k]);
}
#endif

std::shared_ptr<queue>
make_queue(int i)
{
    static const char* names[] = { "q0", "q1", "q2", "q3", "q4", "q5", "q6", "q7" };
    queue_priority pr = (queue_priority)q_prio[i];
    switch (q_kind[i]) {
        case QK_GLOBAL:
            return std::make_shared<queue>(global_queue(pr));
        case QK_SERIAL:
            return std::make_shared<queue>(names[i], pr);
        case QK_MAIN:
            return std::make_shared<queue>(main_queue());
        case QK_CSERIAL:
            return std::make_shared<queue>(naive::create_serial_queue(names[i], W->pool, pr));
        case QK_CPAR:
            return std::make_shared<queue>(naive::create_parallel_queue(names[i], W->pool, pr));
        case QK_WQ:
            return std::make_shared<waitable_queue>(names[i], pr);
        case QK_WQG:
            return std::make_shared<waitable_queue>(names[i], global_queue(pr));
#ifdef XDSIM_QT
        case QK_QTTHREAD:
        case QK_QTPOOL:
            return qt_make_queue(q_kind[i] == QK_QTPOOL, names[i], pr);
#endif
        default:
            return std::make_shared<queue>(names[i], pr);
    }
}

void
run(const Prog& prog)
{
    P = &prog;
    ncpu_cfg = (int)std::thread::hardware_concurrency();
    is_harness_tid[0] = true;
    W = new World;
    compute_needs();
    const int nq = (int)prog.cfg[C_NQ], ng = (int)prog.cfg[C_NG], nb = (int)prog.cfg[C_NB];
    bool use_main = false, use_pool = false, use_qt = false;
    int cprio = -1;
    for (int i = 0; i < nq; ++i) {
        q_kind[i] = (int)(prog.cfg[C_Q0 + i] & 15);
        q_prio[i] = (int)(prog.cfg[C_Q0 + i] >> 4);
        use_main |= q_kind[i] == QK_MAIN;
        use_qt |= q_kind[i] == QK_QTTHREAD || q_kind[i] == QK_QTPOOL;
        if (q_kind[i] == QK_CSERIAL || q_kind[i] == QK_CPAR) {
            use_pool = true;
            cprio = q_prio[i]; // the generator uses one priority for all of them
        }
    }
    if (use_pool) {
        W->pool = std::make_shared<MyPool>((int)prog.cfg[C_POOL]);
        W->pool->expected_prio = cprio;
        if (prog.cfg[C_NESTED])
            W->pool->outer = new MyPool(0);
    }
#ifdef XDSIM_QT
    if (use_qt) {
        // event loops need an application, it belongs to the main thread
        static std::atomic<bool> created{ false };
        std::thread([] {
            sim_mark_harness();
            o_mark(is_main_tid);
            qt_app_create();
            created = true;
            main_queue();
            exec();
        }).detach();
        while (!created)
            sim_sleep(1 * MS);
        use_main = false;
    }
    if (use_qt)
        qt_world_start(
          [] {
              o_mark(is_qt_tid);
              qt_thread_tid = sim_tid();
          },
          prog.cfg[C_QTLATE],
          (int)prog.cfg[C_POOL]);
#else
    (void)use_qt;
#endif
    for (int i = 0; i < nb; ++i)
        W->b[i] = std::make_shared<barrier_operation>();
    Ctx all;
    for (int i = 0; i < nq; ++i) {
        all.q[i] = make_queue(i);
        if (q_kind[i] == QK_SERIAL || q_kind[i] >= QK_CSERIAL)
            W->impl[i] = all.q[i]->implementation();
    }
    for (int i = 0; i < ng; ++i)
        all.g[i] = std::make_shared<group>();
    if (use_main) {
        std::thread([] {
            sim_mark_harness();
            o_mark(is_main_tid);
            main_queue();
            exec();
        }).detach();
    }
    int cap0 = 0;
    if ((prog.cfg[C_PROBE] && !use_qt) || prog.cfg[C_WARM]) {
        sim_quiesce(1); // a reference measurement, undisturbed by stalls
        cap0 = capacity_probe();
        sim_quiesce(0);
    }
    int nt = (int)prog.cfg[C_THREADS];
    std::vector<std::thread> th;
    for (int t = 0; t < nt; ++t) {
        auto mine = std::make_shared<Ctx>(all);
        th.emplace_back([t, mine]() mutable {
            sim_mark_harness();
            o_mark(is_harness_tid);
            Ctx c = *mine;
            mine.reset();
            for (int i = 0; i < P->n; ++i)
                if (P->ins[i].th == t) {
                    exec_ins(P->ins[i], i, c);
                    o_check_workers("during the run");
                }
            for (auto& q : c.q)
                q.reset();
            for (auto& g : c.g)
                g.reset();
            o_thread_done();
        });
    }
    for (auto& q : all.q)
        q.reset();
    for (auto& g : all.g)
        g.reset();
    // phase 1: normal operation
    o_settle(pred_threads, &nt, 3 * SEC);
    // phase 2: faults stop, everything has to complete promptly
    sim_quiesce(1);
    // timed waits end although nothing else happens
    o_settle([](void*) { return pred_no_timed(nullptr); }, nullptr, 25 * SEC);
    {
        std::lock_guard<std::mutex> l(W->mx);
        W->released = true;
        W->cv.notify_all();
    }
    for (int k = 0; k < nb; ++k)
        if (b_open(k)) {
            b_exec_begin(k);
            execute_operation_on_this_thread(*W->b[k]);
            b_exec_end(k);
        }
    if (!o_settle(pred_threads, &nt, PROMPT + 40 * SEC * (prog.cfg[C_FINAL] ? 8 : 0) +
                                       (prog.cfg[C_LONG] ? 0 : 10 * SEC)))
        fail_stuck("threads");
    for (auto& t : th)
        t.join();
    bool incl_long = false;
    if (!o_settle(pred_ops, &incl_long, PROMPT))
        fail_stuck("promptly");
    while (next_delayed()) {
        // the next delayed operations are due
        sim_sleep(next_delayed() - sim_now() + 10 * MS);
        if (!o_settle(pred_ops, &incl_long, PROMPT))
            fail_stuck("promptly");
    }
    if (!o_settle(pred_destroyed, nullptr, PROMPT))
        fail_destroyed();
    o_check_workers("at the end");
    if (prog.cfg[C_LONG]) {
        incl_long = true;
        if (!o_settle(pred_ops, &incl_long, 40 * SEC))
            fail_stuck("long");
    }
    if (!o_settle([](void*) { return pred_impl(nullptr); }, nullptr, PROMPT)) {
        for (int i = 0; i < 8; ++i)
            if (!W->impl[i].expired())
                sim_fail("[X04%s] queue %d is still alive %.0f s after its last handle was "
                         "dropped and its last operation has run",
                         q_kind[i] == QK_WQ || q_kind[i] == QK_WQG ? ",X18,X09"
                         : g_after_on_queue(i)                     ? ",X09"
                                                                   : "",
                         i,
                         PROMPT / 1e9);
    }
    if (use_pool && !o_settle(pred_lent, nullptr, PROMPT))
        sim_fail("[X19] a custom pool was not told that a blocked thread continues");
#ifdef XDSIM_QT
    if (use_qt && prog.cfg[C_PROBE])
        qt_pool_probe((int)prog.cfg[C_POOL]);
#endif
    if (prog.cfg[C_FINAL]) {
        // all pool threads expire ...
        int keep = 1 + (use_qt ? 2 : 0);
        if (!o_settle(pred_idle, &keep, 100 * SEC))
            sim_fail("[X20] %d threads are still alive long after the idle period",
                     sim_nthreads_alive());
        sim_probe(P_IDLE_REVIVE);
        if (prog.cfg[C_PROBE]) {
            int cap1 = capacity_probe();
            if (cap1 < cap0)
                sim_fail("[X20,X19] the pool executed %d operations concurrently at first but "
                         "only %d after its workers expired",
                         cap0,
                         cap1);
            if (cap1 > cap0)
                sim_fail("[X19,X20] the pool executed %d operations concurrently at first and "
                         "%d after threads were blocked and unblocked: lent capacity is not "
                         "taken back",
                         cap0,
                         cap1);
        } else {
            capacity_probe();
        }
    }
    sim_done();
}

// ------------------------------------------------------------------ generator
enum Focus
{
    F_BASIC,
    F_APPLY,
    F_GROUP,
    F_NOTIFY,
    F_BARRIER,
    F_AFTER,
    F_WQ,
    F_PROGRESS,
    F_ELASTIC,
    F_AFFINITY,
    F_PRIO,
    F_LIFE,
    F_QT
};
struct Gen
{
    Rnd& r;
    Prog& p;
    int focus;
    int nq, ng, nb;
    int nbody;
    int kind[8];
    bool gleaf[4];
    int meets;
    int budget;
    int nhold = 0;
    int nburst = 0, nbulk = 0;

    int rank(int q)
    {
        switch (kind[q]) {
            case QK_GLOBAL:
            case QK_QTPOOL:
                return 1000;
            case QK_MAIN:
                return 50;
            case QK_CSERIAL:
            case QK_CPAR:
                return 60;
            case QK_QTTHREAD:
                return 70;
            default:
                return q + 1;
        }
    }
    long dur()
    {
        const long v[] = { 0, 0, 1000, 20000, 500000, 2000000, 15000000 };
        return r.pick(v);
    }
    bool wq(int q) { return kind[q] == QK_WQ || kind[q] == QK_WQG; }
    int pickq()
    {
        return (int)r.in(0, nq - 1);
    }
    // a body that never blocks on other operations
    int leaf_body()
    {
        if (nbody >= 78)
            return 79;
        int b = nbody++;
        if (r.chance(1, 2))
            prog_add(p, BODY + b, I_SLEEP, dur());
        else if (r.chance(1, 2))
            prog_add(p, BODY + b, I_YIELD, r.in(1, 4));
        if (focus == F_PROGRESS && r.chance(1, 3))
            prog_add(p, BODY + b, I_BLOCK, dur());
        return b;
    }
    int body(int depth, int floor)
    {
        if (depth <= 0 || nbody >= 60 || r.chance(1, 3))
            return leaf_body();
        int b = nbody++;
        int n = (int)r.in(1, 3);
        for (int i = 0; i < n; ++i)
            instr(BODY + b, depth, floor);
        return b;
    }
    int child_floor(int q) { return rank(q) >= 1000 ? 0 : rank(q); }
    // rarely: more than any buffer, chunk or counter is likely to hold
    long bulk(int th, int one_in)
    {
        const long ns[] = { 100, 130, 260, 300, 520, 700, 1030, 1300 };
        if (th >= BODY || nbulk || focus == F_PRIO || !r.chance(1, one_in))
            return 0;
        ++nbulk;
        return r.pick(ns) + r.in(0, 3);
    }
    void gasync(int th, int depth)
    {
        if (!ng)
            return;
        if (long n = bulk(th, 120)) {
            prog_add(p, th, I_GASYNC, r.in(0, ng - 1), 79, pickq(), n);
            return;
        }
        if (th < BODY && nhold < 2 && (focus == F_GROUP || focus == F_NOTIFY) && r.chance(1, 8) &&
            nbody < 70) {
            // an operation which does not finish until the timed waits are over
            ++nhold;
            int b = nbody++;
            prog_add(p, BODY + b, I_HOLD);
            prog_add(p, th, I_GASYNC, r.in(0, ng - 1), b, pickq(), 1);
            return;
        }
        int g = (int)r.in(0, ng - 1), q = pickq();
        int b = gleaf[g] ? leaf_body() : body(depth - 1, child_floor(q));
        prog_add(p, th, I_GASYNC, g, b, q, r.chance(1, 4) ? r.in(2, 4) : 1);
    }
    void gwait(int th, int depth, int floor)
    {
        if (!ng)
            return;
        int g = (int)r.in(0, ng - 1);
        const long v[] = { -1, -1, 0, 1, 5, 50, 1000, 20000 };
        long ms = r.pick(v);
        if (th >= BODY) {
            // inside operations only short waits, or unlimited ones on leaf
            // groups whose queues we do not hold: only from global operations
            if (ms < 0 && !(gleaf[g] && floor == 0))
                ms = 1;
            if (ms > 50)
                ms = 5;
        }
        prog_add(p, th, I_GWAIT, g, o_far_limit(r, ms));
    }
    void apply(int th, int depth, int floor)
    {
        int q = pickq();
        if (rank(q) <= floor)
            q = 0; // q0 is always global
        if (rank(q) <= floor)
            return;
        int nf = rank(q) >= 1000 ? floor : (rank(q) > floor ? rank(q) : floor);
        const long ns[] = { 0, 1, 2, 3, 5, 12 };
        long n = r.pick(ns);
        if (n > budget / 4)
            n = 2;
        if (long m = bulk(th, 120)) {
            prog_add(p, th, I_APPLY, q, 79, m);
            return;
        }
        int save = focus;
        int b;
        if (depth > 1 && r.chance(1, 3) && nbody < 60) {
            b = nbody++;
            apply(BODY + b, depth - 1, nf);
            sim_probe_gen();
        } else
            b = leaf_body();
        focus = save;
        prog_add(p, th, I_APPLY, q, b, n);
        budget -= (int)n;
    }
    void sim_probe_gen() {}
    void instr(int th, int depth, int floor)
    {
        static const int W[][I_N] = {
            // sleep yld asy gasy app aft gwt gnot bwt bex bpo blk meet drop drpg wall w1 wa long
            { 3, 2, 12, 2, 1, 1, 0, 0, 1, 1, 0, 1, 0, 1, 0, 0, 0, 0, 0 },  // BASIC
            { 2, 1, 3, 1, 10, 0, 0, 0, 0, 0, 0, 1, 0, 0, 0, 0, 0, 0, 0 },  // APPLY
            { 3, 1, 1, 10, 0, 0, 9, 1, 0, 0, 0, 0, 0, 0, 1, 0, 0, 0, 0 },  // GROUP
            { 3, 1, 1, 8, 0, 0, 2, 7, 0, 0, 0, 0, 0, 0, 2, 0, 0, 0, 0 },   // NOTIFY
            { 2, 1, 2, 0, 0, 0, 0, 0, 10, 6, 5, 0, 0, 0, 0, 1, 0, 0, 0 },  // BARRIER
            { 3, 1, 3, 0, 0, 9, 0, 0, 0, 0, 0, 0, 0, 2, 0, 1, 0, 0, 0 },   // AFTER
            { 3, 1, 9, 1, 2, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 6, 5, 0 },   // WQ
            { 2, 1, 8, 2, 2, 0, 1, 0, 1, 1, 0, 4, 0, 0, 0, 0, 0, 0, 0 },   // PROGRESS
            { 3, 1, 9, 1, 1, 1, 1, 0, 0, 0, 0, 3, 0, 0, 0, 0, 0, 0, 0 },   // ELASTIC
            { 3, 1, 9, 2, 1, 2, 0, 1, 0, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0 },   // AFFINITY
            { 1, 1, 12, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0 },  // PRIO
            { 2, 1, 10, 2, 1, 3, 0, 1, 1, 1, 0, 0, 0, 6, 1, 0, 0, 0, 0 },  // LIFE
            { 3, 1, 10, 2, 2, 2, 1, 1, 1, 1, 0, 0, 0, 1, 0, 0, 0, 0, 0 },  // QT
        };
        int tot = 0;
        for (int i = 0; i < I_N; ++i)
            tot += W[focus][i];
        int k = (int)r.in(0, tot - 1), op = 0;
        while (k >= W[focus][op])
            k -= W[focus][op++];
        if (budget <= 0)
            op = I_YIELD;
        switch (op) {
            case I_SLEEP:
                if (th < BODY && focus != F_PRIO) {
                    const long naps[] = { 0, 1000, 20000, 500000, 2000000, 15000000 };
                    gen_sleep(r, p, th, I_SLEEP, naps);
                } else
                    prog_add(p, th, I_SLEEP, dur());
                break;
            case I_YIELD:
                prog_add(p, th, I_YIELD, r.in(1, 6));
                break;
            case I_ASYNC: {
                int q = pickq();
                int b = body(depth - 1, child_floor(q));
                long cnt = r.chance(1, 6) ? r.in(2, 5) : r.chance(1, 12) ? 13 : 1;
                if (th >= BODY && cnt > 3)
                    cnt = 2;
                if (long n = bulk(th, 240)) {
                    prog_add(p, th, I_ASYNC, q, 79, n, 0);
                    break;
                }
                if (th < BODY && nburst < 3 && r.chance(1, 16)) {
                    // enough to make the lock-free queues reuse their blocks
                    ++nburst;
                    prog_add(p, th, I_ASYNC, q, leaf_body(), r.in(30, 75), 0);
                    break;
                }
                long d = 0;
                if (focus == F_LIFE && r.chance(1, 4))
                    d = 1 + leaf_body();
                prog_add(p, th, I_ASYNC, q, b, cnt, d);
                budget -= (int)cnt;
                break;
            }
            case I_GASYNC:
                gasync(th, depth);
                budget--;
                break;
            case I_APPLY:
                apply(th, depth, floor);
                break;
            case I_AFTER: {
                int q = pickq();
                const long ms[] = { 0, 1, 1, 3, 10, 50, 500 };
                // also far beyond what an int holds in micro- or milliseconds
                const long far[] = { 2200000, 4400000, 2200000000, 4500000000, 36000000, 40000 };
                prog_add(p, th, I_AFTER, q, body(depth - 1, child_floor(q)),
                         focus == F_AFTER && th < BODY && r.chance(1, 12) ? r.pick(far) : r.pick(ms));
                budget--;
                break;
            }
            case I_GWAIT:
                gwait(th, depth, floor);
                break;
            case I_GNOTIFY: {
                if (!ng)
                    break;
                int q = pickq();
                prog_add(p, th, I_GNOTIFY, r.in(0, ng - 1), leaf_body(), q);
                break;
            }
            case I_BWAIT: {
                if (!nb)
                    break;
                const long v[] = { -1, -1, 0, 1, 5, 50, 400 };
                long ms = r.pick(v);
                bool decl = false;
                if (th >= BODY) {
                    if (ms < 0 || ms > 50)
                        ms = 5;
                    decl = floor == 0 && r.chance(1, 2);
                }
                prog_add(p, th, I_BWAIT, r.in(0, nb - 1), o_far_limit(r, ms), decl);
                break;
            }
            case I_BEXEC:
                if (nb)
                    prog_add(p, th, I_BEXEC, r.in(0, nb - 1), r.chance(1, 3) ? -1 : pickq(), r.in(0, 1));
                break;
            case I_BPOLL:
                if (nb)
                    prog_add(p, th, I_BPOLL, r.in(0, nb - 1));
                break;
            case I_BLOCK:
                prog_add(p, th, I_BLOCK, dur());
                break;
            case I_DROP:
                prog_add(p, th, I_DROP, pickq());
                break;
            case I_DROPG:
                if (ng)
                    prog_add(p, th, I_DROPG, r.in(0, ng - 1));
                break;
            case I_WALL:
                prog_add(p, th, I_WALL, r.in(-3600, 3600) * SEC);
                break;
            case I_WQONE:
            case I_WQALL: {
                int q = pickq();
                for (int i = 0; i < 8 && !wq(q); ++i)
                    q = pickq();
                if (wq(q) && rank(q) > floor)
                    prog_add(p, th, op, q);
                break;
            }
            default:
                break;
        }
    }
};

void
gen(Rnd& r, Prog& p, int focus)
{
    memset(&p, 0, sizeof p);
    Gen g{ r, p, focus, 0, 0, 0, 0, {}, {}, 0, 40 };
    int nt = (int)r.in(1, 3);
    p.cfg[C_THREADS] = nt;
    g.nq = (int)r.in(1, focus == F_PRIO ? 4 : 4);
    if (focus == F_WQ || focus == F_AFFINITY || focus == F_LIFE || focus == F_QT)
        g.nq = (int)r.in(2, 4);
    int cprio = (int)r.in(0, 4);
    for (int i = 0; i < g.nq; ++i) {
        int k = QK_GLOBAL, pr = (int)r.in(0, 4);
        if (i == 0)
            k = QK_GLOBAL;
        else {
            const long basic[] = { QK_SERIAL, QK_SERIAL, QK_SERIAL, QK_GLOBAL, QK_MAIN, QK_CSERIAL };
            const long wq[] = { QK_WQ, QK_WQ, QK_WQG, QK_SERIAL };
            const long aff[] = { QK_MAIN, QK_CSERIAL, QK_CPAR, QK_CSERIAL, QK_SERIAL, QK_MAIN };
            const long life[] = { QK_SERIAL, QK_SERIAL, QK_CSERIAL, QK_CPAR, QK_WQ };
            const long pool[] = { QK_SERIAL, QK_GLOBAL, QK_SERIAL };
            const long aft[] = { QK_SERIAL, QK_SERIAL, QK_WQ, QK_CSERIAL, QK_GLOBAL };
            const long qt[] = { QK_QTTHREAD, QK_QTPOOL, QK_QTTHREAD, QK_SERIAL, QK_MAIN };
            switch (focus) {
                case F_WQ:
                    k = (int)(i == 1 ? QK_WQ + r.in(0, 1) : r.pick(wq));
                    break;
                case F_AFFINITY:
                    k = (int)r.pick(aff);
                    break;
                case F_LIFE:
                    k = (int)r.pick(life);
                    break;
                case F_PRIO:
                    k = QK_GLOBAL;
                    break;
                case F_PROGRESS:
                case F_ELASTIC:
                    k = (int)r.pick(pool);
                    break;
                case F_AFTER:
                    k = (int)r.pick(aft);
                    break;
                case F_QT:
                    k = (int)(i == 1 ? QK_QTTHREAD + r.in(0, 1) : r.pick(qt));
                    break;
                default:
                    k = (int)r.pick(basic);
            }
        }
        if (k == QK_CSERIAL || k == QK_CPAR)
            pr = cprio;
        if (focus == F_PRIO) {
            static const int prs[] = { 3, 1, 4, 2 };
            pr = prs[(i + (int)r.in(0, 1)) % 4];
        }
        g.kind[i] = k;
        p.cfg[C_Q0 + i] = k | pr << 4;
    }
    p.cfg[C_NQ] = g.nq;
    bool wants_group = focus == F_GROUP || focus == F_NOTIFY;
    g.ng = wants_group ? (int)r.in(1, 2) : (int)r.in(0, 1);
    for (int i = 0; i < g.ng; ++i)
        g.gleaf[i] = r.chance(2, 3);
    g.nb = focus == F_BARRIER ? (int)r.in(1, 2) : (int)r.in(0, 1);
    p.cfg[C_NG] = g.ng;
    p.cfg[C_NB] = g.nb;
    p.cfg[C_POOL] = r.in(1, 2);
    if (focus == F_QT) {
        p.cfg[C_POOL] = r.in(1, 3);
        const long late[] = { 0, 0, 100 * US, 5 * MS };
        p.cfg[C_QTLATE] = r.pick(late);
        p.cfg[C_PROBE] = r.chance(1, 3);
    }
    p.cfg[C_NESTED] = r.chance(1, 4);
    p.cfg[C_WARM] = r.chance(1, 3);
    if (focus == F_ELASTIC) {
        p.cfg[C_FINAL] = 1;
        p.cfg[C_PROBE] = r.chance(1, 2);
    } else if (focus == F_PROGRESS)
        p.cfg[C_PROBE] = p.cfg[C_FINAL] = r.chance(1, 3);
    p.cfg[C_PRIO] = focus == F_PRIO;
    if ((focus == F_BASIC || focus == F_PROGRESS || focus == F_ELASTIC) && r.chance(1, 5)) {
        int b = g.nbody++;
        prog_add(p, BODY + b, I_LONG);
        p.cfg[C_LONG] = 1;
        prog_add(p, 0, I_ASYNC, 0, b, 1);
    }
    if (focus == F_PROGRESS && r.chance(2, 3)) {
        // operations that wait for one another in declared blocking sections
        int n = (int)r.in(2, 12);
        int b = g.nbody++;
        prog_add(p, BODY + b, I_MEET, 0, 0, 1);
        int th = (int)r.in(0, nt - 1);
        for (int i = 0; i < n; ++i)
            if (g.ng && r.chance(1, 4))
                prog_add(p, th, I_GASYNC, 0, b, 0, 1);
            else
                prog_add(p, th, I_ASYNC, 0, b, 1);
    } else if ((focus == F_PROGRESS || focus == F_BASIC) && !p.cfg[C_LONG] && r.chance(1, 4)) {
        // two operations that wait for each other without telling: the pool
        // always has at least two threads
        int b = g.nbody++;
        prog_add(p, BODY + b, I_MEET, 1, 0, 0);
        prog_add(p, (int)r.in(0, nt - 1), I_ASYNC, 0, b, 2);
    }
    if (wants_group && nt > 1 && r.chance(1, 4)) {
        // a long wait while operations keep being added
        int gr = (int)r.in(0, g.ng - 1), b = g.nbody++, l = g.nbody++;
        prog_add(p, BODY + b, I_SLEEP, r.in(1, 9) * 100 * MS);
        prog_add(p, BODY + l, I_SLEEP, r.in(3, 15) * 100 * MS);
        for (int i = (int)r.in(0, 2); i >= 0; --i)
            prog_add(p, 0, I_GASYNC, gr, b, g.pickq(), 1);
        prog_add(p, 0, I_GWAIT, gr, r.chance(1, 2) ? -1 : 20000);
        prog_add(p, 1, I_SLEEP, r.in(60, 400) * MS);
        prog_add(p, 1, I_GASYNC, gr, l, g.pickq(), r.in(1, 2));
        if (r.chance(1, 2))
            prog_add(p, 1, I_GWAIT, gr, r.chance(1, 2) ? -1 : 1000);
    }
    if (focus == F_ELASTIC && r.chance(1, 2))
        p.cfg[C_TIGHT] = 0;
    if (focus == F_PRIO) {
        p.cfg[C_WARM] = r.chance(1, 2);
        int b = g.nbody++;
        prog_add(p, BODY + b, I_SLEEP, 5 * MS);
        prog_add(p, 0, I_ASYNC, 0, b, 8);
    }
    int n = (int)r.in(2, focus == F_BARRIER ? 8 : 7);
    int depth = (int)r.in(1, 3);
    for (int t = 0; t < nt; ++t)
        for (int i = 0; i < n; ++i) {
            if (focus == F_ELASTIC && r.chance(1, 5)) {
                // around the idle period of the workers
                const long d[] = { 30000, 29999, 30001, 29990, 30010, 31000 };
                const long off[] = { 0, 0, 200, 1000, 5000, -1000, -5000, 20000 };
                if (r.chance(3, 4)) // until a worker expires
                    prog_add(p, t, I_SLEEP, r.pick(off), r.in(1, 3), 31000);
                else
                    prog_add(p, t, I_SLEEP, r.pick(d) * MS + r.in(-2000, 2000) * 500);
                continue;
            }
            g.instr(t, depth, 0);
        }
}
void
tune(Rnd& r, const Prog& p, sim_cfg& c, int focus)
{
    if (focus == F_ELASTIC)
        c.max_vtime = 3000 * SEC;
    if (focus == F_AFTER)
        c.max_vtime = 1000000000 * SEC;
    if (focus == F_PRIO)
        c.ncpu = (int)r.in(1, 2);
    // a dequeue racing with other dequeues may miss an operation if their
    // counters are seen late, which the containers document
    if (focus == F_PRIO)
        c.f_stale = 0;
    else if (focus != F_QT && r.chance(1, 6))
        c.f_stale = 2;
    (void)p;
}

const char* const kFocus[] = { "basic", "apply", "group", "notify", "barrier",
                               "after", "wq", "progress", "elastic", "affinity",
                               "prio", "life", "qt", nullptr };
} // namespace

extern const Family fam_ops;
const Family fam_ops = { "ops",
                         kOps,
                         kCfg,
                         kProbes,
                         "X01,X02,X03,X04,X05,X06,X07,X08,X09,X18,X19,X20,X21,X22,X23",
                         gen,
                         run,
                         tune,
                         kFocus };
