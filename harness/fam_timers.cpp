// Family "timers": X10, X11 (and X21, X02 for their handlers).
#include "qkit.h"
using namespace xdispatch;
using std::chrono::milliseconds;

namespace {
enum
{
    C_THREADS,
    C_NT,
    C_K0, // queue of timer i
    C_IV0 = C_K0 + 3,
    C_DUR0 = C_IV0 + 3, // handler duration, ns
    C_NQ = C_DUR0 + 3,
    C_Q0, // kinds
    C_POOL = C_Q0 + 4,
    C_CONV, // timers made periodic only by interval(), bit mask
    C_IDLE  // timers suspended before they were ever resumed, bit mask
};
const char* const kCfg[] = { "threads", "timers",  "queue0", "queue1",   "queue2",   "interval0",
                             "interval1", "interval2", "duration0", "duration1", "duration2",
                             "queues",  "kind0",   "kind1",  "kind2",    "kind3",    "pool",
                             "converted", "suspended",
                             nullptr };
enum
{
    I_SLEEP,
    I_RESUME,
    I_SUSPEND,
    I_CANCEL,
    I_INTERVAL,
    I_RELEASE,
    I_LOAD,
    I_AWAIT_SELF, // wait until the handler has suspended its timer, then resume
    I_WALL,
    I_HANDLER
};
const char* const kOps[] = { "sleep",   "resume", "suspend", "cancel", "interval",
                             "release", "load",   "resume_after_self_suspend", "wall_jump",
                             "handler",
                             nullptr };
enum
{
    P_SUSPENDED_ONWAY,
    P_CANCEL_WAITED,
    P_CANCEL_INSIDE,
    P_RESUME_WHILE_RUNNING,
    P_QUICK_RESUME,
    P_CONCURRENT_CANCEL,
    P_SUSPEND_INSIDE,
    P_RESUME_AFTER_CANCEL,
    P_LATE_FIRING,
    P_HANDLER_REPLACED,
    P_OLD_HANDLER_ONWAY
};
const char* const kProbes[] = { "invocation_on_its_way_after_suspend",
                                "cancel_waited_for_running_handler",
                                "cancelled_inside_handler",
                                "resumed_while_handler_running",
                                "resumed_before_old_loop_ended",
                                "concurrent_cancels",
                                "suspended_inside_handler",
                                "resumed_after_cancel",
                                "firing_delayed_by_busy_queue",
                                "handler_replaced_while_firing",
                                "old_handler_ran_once_more",
                                nullptr };

const Prog* P;
struct Iv
{
    int64_t t, v;
};
const int MAXG = 6;
struct TR
{
    int q;
    int level;      // resume/suspend balance
    int avail;
    bool running;   // a resume has begun and no suspend has ended
    int64_t stream; // number of streams started
    int64_t rt, delay;
    bool fresh; // no firing of this stream seen yet
    bool carry; // an invocation of an older stream may still come
    bool ambiguous;
    int active;
    int64_t begins, stream_begins, since_suspend;
    int64_t lastb, prevb, laste;
    bool cancel_begun, cancel_ret; // cancel_ret: some cancel call returned
    int cancels_now;
    bool self_suspended;
    int resumed_after_cancel;
    int gen, newest;     // handlers handed over / the newest whose call has returned
    int old_ok;          // invocations of an older handler which may still come
    int running_gen;
    int dead[MAXG + 1];  // handlers destroyed
    int64_t dur, maxdelay;
    Iv iv[40];
    int niv;
    bool singleshot;
    int handles;
};
TR T[3];
int nt, threads_done;
int64_t busy;

NOSAN int64_t
min_interval(TR& t, int64_t since)
{
    int64_t m = t.iv[t.niv - 1].v;
    for (int i = t.niv - 1; i >= 0; --i) {
        if (t.iv[i].v < m)
            m = t.iv[i].v;
        if (t.iv[i].t <= since)
            break;
    }
    return m;
}
NOSAN int64_t
max_interval(TR& t)
{
    int64_t m = 0;
    for (int i = 0; i < t.niv; ++i)
        if (t.iv[i].v > m)
            m = t.iv[i].v;
    return m;
}
NOSAN void
h_begin(int k, int gen)
{
    TR& t = T[k];
    int64_t now = sim_now();
    sim_ev(1, k, t.begins, gen);
    if (t.active)
        sim_fail("[X10,X11] handler of timer %d starts while another invocation of it is running", k);
    if (t.dead[gen])
        sim_fail("[X11,X04] handler of timer %d runs after it was destroyed", k);
    t.running_gen = gen;
    if (gen < t.newest) {
        if (!t.old_ok)
            sim_fail("[X11] a handler of timer %d runs although it was replaced before the timer "
                     "fired",
                     k);
        t.old_ok--;
        sim_probe(P_OLD_HANDLER_ONWAY);
    }
    if (t.cancel_ret)
        sim_fail("[X11] handler of timer %d starts after cancel has returned", k);
    if (!t.stream)
        sim_fail("[X10] handler of timer %d starts although it was never resumed", k);
    if (!t.running) {
        if (!t.carry)
            sim_fail("[X11] handler of timer %d starts for the second time after suspend has returned", k);
        t.carry = false;
        sim_probe(P_SUSPENDED_ONWAY);
    } else if (t.carry && (t.fresh || t.ambiguous)) {
        // either the old stream's last or the first of this one
        t.carry = false;
        t.ambiguous = true;
        t.fresh = now < t.rt + t.delay;
        if (!t.fresh)
            t.stream_begins++;
        t.lastb = -1;
    } else {
        if (t.fresh || t.lastb < 0) {
            if (now < t.rt + t.delay)
                sim_fail("[X10] timer %d fired %.3f ms after resume, the start delay is %.3f ms",
                         k,
                         (now - t.rt) / 1e6,
                         t.delay / 1e6);
        } else {
            int64_t m = min_interval(t, t.prevb < 0 ? t.rt : t.prevb);
            if (now - t.lastb < m)
                sim_fail("[X10,X11] timer %d fired %.3f ms after its previous firing, the "
                         "interval is %.3f ms",
                         k,
                         (now - t.lastb) / 1e6,
                         m / 1e6);
        }
        if (t.singleshot && t.stream_begins >= (t.ambiguous ? 2 : 1))
            sim_fail("[X10,X11] single-shot timer %d fired twice", k);
        t.stream_begins++;
        t.fresh = false;
        t.prevb = t.lastb;
        t.lastb = now;
    }
    t.begins++;
    t.active++;
}
NOSAN void
h_end(int k)
{
    T[k].active--;
    T[k].laste = sim_now();
    sim_ev(2, k, 0, 0);
}
NOSAN void
resume_begin(int k, int64_t delay)
{
    TR& t = T[k];
    sim_ev(3, k, delay, 0);
    if (delay > t.maxdelay)
        t.maxdelay = delay;
    if (t.cancel_begun) {
        t.resumed_after_cancel++;
        sim_probe(P_RESUME_AFTER_CANCEL);
    }
    if (t.level++ == 0) {
        t.running = true;
        if (t.active)
            sim_probe(P_RESUME_WHILE_RUNNING);
        if (t.stream && sim_now() < t.laste + t.iv[t.niv - 1].v)
            sim_probe(P_QUICK_RESUME);
        t.stream++;
        t.rt = sim_now();
        t.delay = delay;
        t.fresh = true;
        t.ambiguous = false;
        t.stream_begins = 0;
        t.lastb = t.prevb = -1;
    }
}
NOSAN void
suspend_end(int k)
{
    TR& t = T[k];
    sim_ev(4, k, 0, 0);
    if (--t.level == 0) {
        t.running = false;
        t.carry = true;
    }
}
NOSAN void
resume_end(int k)
{
    T[k].avail++;
}
// takes one of the resumes that have returned: there is never a suspend too many
NOSAN bool
can_suspend(int k)
{
    if (T[k].avail <= 0)
        return false;
    T[k].avail--;
    return true;
}
NOSAN void
set_interval(int k, int64_t v, bool begin)
{
    TR& t = T[k];
    // the old value may be used until the call has returned and vice versa
    if (t.niv < 40 && (begin || v > t.iv[t.niv - 1].v)) {
        t.iv[t.niv].t = begin && v > t.iv[t.niv - 1].v ? INT64_MAX : sim_now();
        if (t.iv[t.niv].t != INT64_MAX) {
            t.iv[t.niv].v = v;
            t.niv++;
        }
    }
}
NOSAN void
cancel_begin(int k)
{
    TR& t = T[k];
    sim_ev(5, k, 0, 0);
    t.cancel_begun = true;
    if (t.active)
        sim_probe(P_CANCEL_WAITED);
    if (t.cancels_now++)
        sim_probe(P_CONCURRENT_CANCEL);
}
NOSAN void
cancel_end(int k, bool inside)
{
    TR& t = T[k];
    sim_ev(6, k, inside, 0);
    t.cancels_now--;
    if (inside)
        sim_probe(P_CANCEL_INSIDE);
    else if (t.active)
        sim_fail("[X11] cancel of timer %d returned while its handler is running", k);
    t.cancel_ret = true;
}
NOSAN void
tok_destroyed(int k, int gen)
{
    TR& t = T[k];
    sim_ev(7, k, gen, 0);
    if (t.active && t.running_gen == gen)
        sim_fail("[X04,X11] handler of timer %d destroyed while it is running", k);
    if (t.dead[gen]++)
        sim_fail("[X04,X11] handler of timer %d destroyed twice", k);
}
NOSAN int
next_gen(int k)
{
    TR& t = T[k];
    if (t.gen >= MAXG)
        return -1;
    sim_ev(8, k, t.gen + 1, 0);
    if (t.active)
        sim_probe(P_HANDLER_REPLACED);
    return ++t.gen;
}
// the call has returned: what is on its way may still be the old one, except
// when it is the running handler which has replaced itself
NOSAN void
gen_end(int k, int gen, bool inside)
{
    T[k].newest = gen;
    T[k].old_ok = inside ? 0 : 1;
}
struct Token
{
    int k, gen;
    Token(int i, int g)
      : k(i)
      , gen(g)
    {}
    ~Token() { tok_destroyed(k, gen); }
};

struct World
{
    std::shared_ptr<timer> t[3];
    std::atomic<int> left{ 0 }; // handlers are done with the timer object
};
World* W;
NOSAN void
mark_self_suspended(int k)
{
    T[k].self_suspended = true;
    sim_probe(P_SUSPEND_INSIDE);
}
NOSAN bool
take_self_suspended(int k)
{
    if (!T[k].self_suspended)
        return false;
    T[k].self_suspended = false;
    return true;
}
NOSAN void
thread_done()
{
    threads_done++;
}
bool closing; // the timer objects are about to go
NOSAN bool
is_closing(bool set)
{
    return closing |= set;
}
NOSAN bool
pred_inactive(void* k)
{
    return !T[*(int*)k].active;
}
void
set_handler(int k, timer* self, bool inside);
void
handler_body(int k, int gen, timer* self, int64_t n)
{
    h_begin(k, gen);
    qkit::enter(T[k].q, "a timer handler");
    for (int i = 0; i < P->n; ++i) {
        const Ins& s = P->ins[i];
        if (s.th != BODY + k || s.b != n || is_closing(false))
            continue;
        switch (s.op) {
            case I_SUSPEND:
                if (can_suspend(k)) {
                    self->suspend();
                    suspend_end(k);
                    mark_self_suspended(k);
                }
                break;
            case I_CANCEL:
                cancel_begin(k);
                sim_watch_begin("[X11] cancel inside its handler", 30 * SEC);
                self->cancel();
                sim_watch_end();
                cancel_end(k, true);
                break;
            case I_INTERVAL:
                set_interval(k, s.c * MS, true);
                self->interval(milliseconds(s.c));
                set_interval(k, s.c * MS, false);
                break;
            case I_HANDLER:
                set_handler(k, self, true);
                break;
            default:
                break;
        }
    }
    if (P->cfg[C_DUR0 + k])
        sim_sleep(P->cfg[C_DUR0 + k]);
    qkit::leave(T[k].q);
    W->left.fetch_add(1, std::memory_order_acq_rel);
    h_end(k);
}
NOSAN int64_t
begins_of(int k)
{
    return T[k].begins;
}
void
set_handler(int k, timer* self, bool inside)
{
    int gen = next_gen(k);
    if (gen < 0)
        return;
    auto tok = std::make_shared<Token>(k, gen);
    self->handler([tok, k, gen, self] { handler_body(k, gen, self, begins_of(k)); });
    gen_end(k, gen, inside);
}
void
exec_ins(const Ins& s, std::shared_ptr<timer>* mine)
{
    int k = (int)s.a;
    switch (s.op) {
        case I_SLEEP:
            o_sleep(s.a, s.b, s.c);
            break;
        case I_RESUME:
            if (!mine[k])
                break;
            resume_begin(k, s.b * MS);
            sim_watch_begin("[X11] resume", 30 * SEC);
            mine[k]->resume(milliseconds(s.b));
            sim_watch_end();
            resume_end(k);
            break;
        case I_SUSPEND:
            if (!mine[k] || !can_suspend(k))
                break;
            sim_watch_begin("[X11] suspend", 30 * SEC);
            mine[k]->suspend();
            sim_watch_end();
            suspend_end(k);
            break;
        case I_CANCEL:
            if (!mine[k])
                break;
            cancel_begin(k);
            sim_watch_begin("[X11] cancel", 30 * SEC);
            mine[k]->cancel();
            sim_watch_end();
            cancel_end(k, false);
            break;
        case I_INTERVAL:
            if (!mine[k])
                break;
            set_interval(k, s.b * MS, true);
            mine[k]->interval(milliseconds(s.b));
            set_interval(k, s.b * MS, false);
            break;
        case I_HANDLER:
            if (mine[k])
                set_handler(k, mine[k].get(), false);
            break;
        case I_RELEASE:
            mine[k].reset();
            break;
        case I_LOAD: {
            int q = T[k].q;
            int64_t d = s.b;
            qkit::get(q)->async([q, d] {
                qkit::enter(q, "an operation");
                sim_sleep(d);
                qkit::leave(q);
            });
            break;
        }
        case I_AWAIT_SELF: {
            bool ok = false;
            for (int i = 0; i < 100 && !(ok = take_self_suspended(k)); ++i)
                sim_sleep(5 * MS);
            if (ok && mine[k]) {
                resume_begin(k, s.b * MS);
                mine[k]->resume(milliseconds(s.b));
                resume_end(k);
            }
            break;
        }
        case I_WALL:
            sim_wall_jump(s.a);
            break;
        default:
            break;
    }
}
NOSAN bool
pred_threads(void* n)
{
    return threads_done >= *(int*)n;
}
struct Want
{
    int k;
    int64_t n;
};
NOSAN bool
pred_begins(void* a)
{
    const TR& t = T[((Want*)a)->k];
    // a handler may still cancel or suspend its timer
    return t.begins >= ((Want*)a)->n || t.cancel_begun || !t.running;
}
NOSAN bool
pred_destroyed(void* a)
{
    // all handlers it ever had
    const TR& t = T[*(int*)a];
    for (int g = 1; g <= t.gen; ++g)
        if (!t.dead[g])
            return false;
    return true;
}
NOSAN bool
pred_old_dead(void* a)
{
    const TR& t = T[*(int*)a];
    for (int g = 1; g < t.newest; ++g)
        if (!t.dead[g])
            return false;
    return true;
}
NOSAN bool
is_cancelled(int k)
{
    return T[k].cancel_begun;
}
NOSAN bool
is_running(int k)
{
    return T[k].running;
}
NOSAN bool
revived(int k)
{
    return T[k].resumed_after_cancel;
}
NOSAN int64_t
limit_of(int k)
{
    return max_interval(T[k]) + T[k].maxdelay;
}
NOSAN int64_t
stream_begins(int k)
{
    return T[k].stream_begins;
}
NOSAN int64_t
cur_interval(int k)
{
    return T[k].iv[T[k].niv - 1].v;
}

void
run(const Prog& prog)
{
    P = &prog;
    W = new World;
    nt = (int)prog.cfg[C_NT];
    int nq = (int)prog.cfg[C_NQ];
    for (int i = 0; i < nq; ++i)
        qkit::kind[i] = (int)prog.cfg[C_Q0 + i];
    qkit::setup(nq, (int)prog.cfg[C_POOL]);
    for (int k = 0; k < nt; ++k) {
        TR& t = T[k];
        t.q = (int)prog.cfg[C_K0 + k];
        t.iv[0].v = prog.cfg[C_IV0 + k] * MS;
        t.niv = 1;
        t.singleshot = !t.iv[0].v;
        t.lastb = t.prevb = -1;
        t.dur = prog.cfg[C_DUR0 + k];
        busy += t.dur;
        const bool conv = (prog.cfg[C_CONV] >> k & 1) != 0;
        W->t[k] = std::make_shared<timer>(milliseconds(conv ? 0 : prog.cfg[C_IV0 + k]),
                                          *qkit::get(t.q));
        if (conv)
            W->t[k]->interval(milliseconds(prog.cfg[C_IV0 + k]));
        timer* self = W->t[k].get();
        timer copy = *self; // keeps no handle: the handler uses the caller's object
        (void)copy;
        set_handler(k, self, true);
        if (prog.cfg[C_IDLE] >> k & 1)
            self->suspend(); // not running, so this has no effect
        if (self->target_queue() != *qkit::get(t.q))
            sim_fail("[X11,X21] target_queue of timer %d is not the queue it was made for", k);
    }
    for (int i = 0; i < prog.n; ++i)
        if (prog.ins[i].op == I_LOAD)
            busy += prog.ins[i].b;
    int nth = (int)prog.cfg[C_THREADS];
    std::vector<std::thread> th;
    for (int x = 0; x < nth; ++x) {
        th.emplace_back([x] {
            sim_mark_harness();
            std::shared_ptr<timer> mine[3];
            for (int k = 0; k < nt; ++k)
                mine[k] = W->t[k];
            for (int i = 0; i < P->n; ++i)
                if (P->ins[i].th == x)
                    exec_ins(P->ins[i], mine);
            thread_done();
        });
    }
    o_settle(pred_threads, &nth, 20 * SEC);
    sim_quiesce(1);
    if (!o_settle(pred_threads, &nth, 60 * SEC))
        sim_fail("[X10,X11] a call to a timer does not return");
    for (auto& t : th)
        t.join();
    // resumed timers fire, suspended ones do not
    for (int k = 0; k < nt; ++k) {
        if (is_cancelled(k) || !is_running(k))
            continue;
        if (T[k].singleshot) {
            Want w{ k, begins_of(k) };
            if (stream_begins(k) == 0 &&
                (w.n++, !o_settle(pred_begins, &w, limit_of(k) + 3 * busy + 1 * SEC)))
                sim_fail("[X10,X11,X19] resumed single-shot timer %d does not fire", k);
            continue;
        }
        Want w{ k, begins_of(k) + 1 };
        if (!o_settle(pred_begins, &w, limit_of(k) + 3 * busy + 1 * SEC))
            sim_fail("[X10,X11,X19] resumed timer %d with an interval of %ld ms stopped firing",
                     k,
                     (long)(cur_interval(k) / MS));
        // the first gap may still use an older interval
        w.n++;
        if (!o_settle(pred_begins, &w, limit_of(k) + 3 * busy + 1 * SEC))
            sim_fail("[X10,X11,X19] resumed timer %d with an interval of %ld ms stopped firing",
                     k,
                     (long)(cur_interval(k) / MS));
        w.n += 3;
        if (!o_settle(pred_begins, &w, 3 * (cur_interval(k) + busy + 200 * MS)))
            sim_fail("[X10,X19] resumed timer %d with an interval of %ld ms fires too slowly",
                     k,
                     (long)(cur_interval(k) / MS));
    }
    // replaced handlers are released, the timers have been firing ever since
    for (int k = 0; k < nt; ++k)
        if (!o_settle(pred_old_dead, &k, limit_of(k) + busy + PROMPT))
            sim_fail("[X11,X04] a handler of timer %d is still alive %.1f s after it was replaced",
                     k,
                     (limit_of(k) + busy + PROMPT) / 1e9);
    // every timer left can be suspended and resumed once more
    for (int k = 0; k < nt; ++k) {
        if (is_cancelled(k))
            continue;
        while (can_suspend(k)) {
            W->t[k]->suspend();
            suspend_end(k);
        }
    }
    sim_sleep(300 * MS + 2 * busy);
    int64_t rest = 0;
    for (int k = 0; k < nt; ++k)
        if (limit_of(k) > rest)
            rest = limit_of(k);
    sim_sleep(rest + 100 * MS);
    for (int k = 0; k < nt; ++k) {
        if (is_cancelled(k))
            continue;
        Want w{ k, begins_of(k) + 1 };
        resume_begin(k, 3 * MS);
        W->t[k]->resume(milliseconds(3));
        resume_end(k);
        if (!o_settle(pred_begins, &w, 3 * MS + busy + 500 * MS))
            sim_fail("[X11,X10,X19] timer %d does not fire after it was suspended and resumed", k);
        if (k & 1) {
            cancel_begin(k);
            W->t[k]->cancel();
            cancel_end(k, false);
        } else {
            W->t[k]->suspend();
            suspend_end(k);
        }
    }
    // cancelled and suspended timers are released
    for (int k = 0; k < nt; ++k) {
        is_closing(true);
        o_settle(pred_inactive, &k, PROMPT);
        W->left.fetch_add(1, std::memory_order_acq_rel);
        W->t[k].reset();
        if (is_cancelled(k) && revived(k))
            continue;
        if (!o_settle(pred_destroyed, &k, limit_of(k) + busy + PROMPT))
            sim_fail("[X11,X04] the handler of %s timer %d is still alive %.1f s after its last "
                     "handle was dropped",
                     is_cancelled(k) ? "cancelled" : "suspended",
                     k,
                     (limit_of(k) + busy + PROMPT) / 1e9);
    }
    sim_done();
}

void
gen(Rnd& r, Prog& p, int focus)
{
    const bool qt = focus == 2;
    if (qt)
        focus = (int)r.in(0, 1);
    int nth = (int)r.in(1, 3), n = (int)r.in(1, focus == 0 ? 3 : 2), nq = (int)r.in(1, n);
    p.cfg[C_THREADS] = nth;
    p.cfg[C_NT] = n;
    p.cfg[C_NQ] = nq;
    p.cfg[C_POOL] = r.in(1, 2);
    // a saturated QThreadPool may starve work: what is handed to an idle thread
    // is queued with the lowest priority and others may overtake for ever
    if (qt)
        p.cfg[C_POOL] = n + 1;
    for (int i = 0; i < nq; ++i)
        p.cfg[C_Q0 + i] = qkit::pick_kind(r, qt);
    const long iv[] = { 0, 5, 5, 20, 20, 50, 100, 300 };
    const long du[] = { 0, 0, 1 * MS, 4 * MS, 15 * MS, 60 * MS };
    for (int k = 0; k < n; ++k) {
        p.cfg[C_K0 + k] = r.in(0, nq - 1);
        p.cfg[C_IV0 + k] = r.chance(1, 8) ? r.in(1, 2) : r.pick(iv);
        p.cfg[C_DUR0 + k] = r.pick(du);
        if (p.cfg[C_IV0 + k] && r.chance(1, 6))
            p.cfg[C_CONV] |= 1 << k;
        if (r.chance(1, 8))
            p.cfg[C_IDLE] |= 1 << k;
    }
    long delays[] = { 0, 0, 0, 1, 5, 30, 100, 300 };
    // far values leave workers behind which wait for days: nothing may fire every
    // few milliseconds for as long as something else is waited for
    const bool far_values = n == 1 && r.chance(1, 5);
    if (far_values) {
        // far beyond what an int holds in micro- or milliseconds
        const long far[] = { 2200000, 4400000, 2200000000, 4500000000, 36000000 };
        long v = r.pick(far);
        if (qt && v > 2000000000)
            v = 4400000;
        if (r.chance(1, 2))
            delays[7] = delays[6] = delays[5] = v;
        else {
            p.cfg[C_IV0] = v;
            p.cfg[C_DUR0] = 0;
        }
    }
    const long naps[] = { 0, 100 * US, 1 * MS, 4 * MS, 5 * MS, 20 * MS, 21 * MS, 100 * MS, 400 * MS };
    bool selfsus[3] = {}, dead[3] = {};
    int level[3] = {};
    // who replaces the handler: 1 = itself, 2 = the owner
    int swap[3] = {};
    for (int k = 0; k < n; ++k) {
        swap[k] = !far_values && r.chance(1, 3) ? (int)r.in(1, 2) : 0;
        for (int i = 0; swap[k] == 1 && i < 2; ++i)
            prog_add(p, BODY + k, I_HANDLER, k, r.in(1, 4));
        bool periodic = p.cfg[C_IV0 + k] > 0;
        if (focus == 1 && r.chance(1, 4) && periodic) {
            selfsus[k] = true;
            prog_add(p, BODY + k, I_SUSPEND, k, r.in(1, 4));
        }
        if (r.chance(1, 6))
            prog_add(p, BODY + k, I_CANCEL, k, r.in(1, 4));
        if (periodic && p.cfg[C_IV0 + k] < 1000000 && r.chance(1, 5)) {
            const long niv[] = { 5, 10, 20, 100 };
            prog_add(p, BODY + k, I_INTERVAL, k, r.in(1, 4), r.pick(niv));
        }
    }
    for (int t = 0; t < nth; ++t) {
        for (int k = 0; k < n; ++k)
            if (k % nth == t && r.chance(5, 6)) {
                prog_add(p, t, I_RESUME, k, r.pick(delays));
                level[k] = 1;
            }
        int m = (int)r.in(3, focus == 0 ? 6 : 12);
        for (int i = 0; i < m; ++i) {
            int k = (int)r.in(0, n - 1);
            bool owner = k % nth == t;
            int c = (int)r.in(0, 19);
            if (owner && swap[k] == 2 && r.chance(1, 4))
                prog_add(p, t, I_HANDLER, k);
            else if (c < 6)
                gen_sleep(r, p, t, I_SLEEP, naps);
            else if (c < 8)
                prog_add(p, t, I_LOAD, k, r.in(0, 30) * MS);
            else if (c < 9 && p.cfg[C_IV0 + k] > 0 && p.cfg[C_IV0 + k] < 1000000 && owner) {
                const long niv[] = { 5, 10, 20, 100 };
                prog_add(p, t, I_INTERVAL, k, r.pick(niv));
            } else if (c < 10)
                prog_add(p, t, I_WALL, r.in(-100, 100) * SEC);
            else if (c < 11 && r.chance(focus == 1 ? 2 : 1, 3)) {
                prog_add(p, t, I_CANCEL, k);
                dead[k] = true;
            } else if (c < 12 && r.chance(1, 4))
                prog_add(p, t, I_RELEASE, k);
            else if (owner && selfsus[k]) {
                if (level[k] == 1) {
                    prog_add(p, t, I_AWAIT_SELF, k, r.pick(delays));
                    level[k] = 2;
                    if (r.chance(1, 2))
                        selfsus[k] = false;
                }
            } else if (owner) {
                if (level[k] == 0 || (level[k] == 1 && r.chance(1, 6))) {
                    prog_add(p, t, I_RESUME, k, r.pick(delays));
                    level[k]++;
                } else {
                    prog_add(p, t, I_SUSPEND, k);
                    level[k]--;
                    if (r.chance(2, 3)) {
                        if (r.chance(1, 3))
                            gen_sleep(r, p, t, I_SLEEP, naps);
                        prog_add(p, t, I_RESUME, k, r.pick(delays));
                        level[k]++;
                    }
                }
            }
        }
    }
}
void
tune(Rnd& r, const Prog& p, sim_cfg& c, int focus)
{
    (void)p;
    (void)focus;
    if (c.freeze_max_ns > 1000 * MS)
        c.freeze_max_ns = 1000 * MS;
    if (c.tjump_max_ns > 1000 * MS)
        c.tjump_max_ns = 1000 * MS;
    c.max_vtime = 1000000000 * SEC;
    c.max_steps = 2000000;
    (void)r;
}
const char* const kFocus[] = { "fire", "control", "qt", nullptr };
} // namespace

extern const Family fam_timers;
const Family fam_timers = { "timers", kOps, kCfg, kProbes, "X10,X11", gen, run, tune, kFocus };
