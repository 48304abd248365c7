// Family "qobj": X24, connections managed on behalf of Qt objects.
//
// Rules the generated programs obey, as any user has to: an object is destroyed
// in the thread it lives in; nobody connects or disconnects an object whose
// destruction has begun, and nobody uses a signal whose destruction has begun;
// only an object with a single connection is destroyed or disconnected by its
// own handler.
#ifdef XDSIM_QT
#include "ops_qt.h"
#include "qkit.h"
#include <QtCore/QCoreApplication>
#include <QtCore/QObject>
#include <QtCore/QThread>
#include <xdispatch/backend_qt.h>
#include <xdispatch/signals.h>
using namespace xdispatch;

QThread* qt_loop_thread();

namespace {
static const int NO = 5, NS = 2, NC = 12, NE = 72;
enum
{
    C_THREADS,
    C_NSIG,
    C_NOBJ,
    C_NQ,
    C_Q0,
    C_POOL = C_Q0 + 4,
    C_PRE, // bit mask: connections made before the threads start
    C_DUR0,
    C_DUR1,
    C_DUR2,
    C_HOME0,                // thread of an object: 0 Qt thread, 1 main thread
    C_PARENT0 = C_HOME0 + NO // object i is a child of object 0
};
const char* const kCfg[] = { "threads", "signals", "objects", "queues", "kind0", "kind1", "kind2",
                             "kind3", "pool", "connected", "duration0", "duration1", "duration2",
                             "home0", "home1", "home2", "home3", "home4", "child0", "child1",
                             "child2", "child3", "child4", nullptr };
enum
{
    I_CONN, // a: connection b: signal c: object d: batch | member << 1 | queue << 2
    I_SLEEP,
    I_EMIT,     // a: signal
    I_DISC,     // a: signal b: object
    I_DESTROY,  // a: object b: 0 by its thread, 1 deleteLater
    I_SDESTROY, // a: signal
    I_LOAD,     // a: queue b: ns
    I_CONNECT   // in a handler: makes connection a
};
const char* const kOps[] = { "connection", "sleep",          "emit", "disconnect",
                             "destroy",    "destroy_signal", "load", "connect", nullptr };
enum
{
    P_DEST_WAITED,
    P_DEST_INSIDE,
    P_DEST_QUEUED,
    P_DEST_LATER,
    P_DISC_WAITED,
    P_DISC_INSIDE,
    P_DISC_QUEUED,
    P_FOREIGN_CONNECT,
    P_RACING_CONNECTS,
    P_SIGNAL_FIRST,
    P_CHILD,
    P_CONNECT_INSIDE
};
const char* const kProbes[] = { "destruction_waited_for_running_handler",
                                "object_destroyed_by_its_handler",
                                "invocations_queued_at_destruction",
                                "destroyed_by_delete_later",
                                "disconnect_waited_for_running_handler",
                                "disconnected_inside_handler",
                                "invocations_queued_at_disconnect",
                                "connect_outside_the_thread_of_the_object",
                                "first_connects_of_an_object_race",
                                "signal_destroyed_before_object",
                                "destroyed_with_parent",
                                "connect_inside_handler",
                                nullptr };
const Prog* P;
struct Val
{
    long id, neg;
    long* cell;
};
using Sig = signal<void(long, Val)>;

struct CR
{
    bool known, batch, member, con_begun, con_done, adding;
    int sig, obj, q;
    int64_t con_seq;
    bool disc_begun; // nothing has to be delivered anymore
    bool final;      // nothing may be delivered anymore
    bool inside;
    int later, active, alive;
    int64_t begins, last_begin;
    uint8_t cnt[NE];
};
struct ER
{
    int sig;
    int64_t b, e;
};
struct OR
{
    bool known, dest_begun, dest_done, disconnects_itself;
    int home, ext, connects;
};
struct SR
{
    int ext;
    bool dest_begun, dest_done;
};
CR C[NC];
ER E[NE];
OR O[NO];
SR S[NS];
int ne, threads_done, nsig, nobj;
int64_t busy;
int discs_now;

NOSAN int
emit_begin(int s)
{
    if (ne >= NE || S[s].dest_begun)
        return -1;
    E[ne].sig = s;
    E[ne].b = o_seq();
    sim_ev(1, s, ne, 0);
    return ne++;
}
NOSAN void
emit_end(int id)
{
    E[id].e = o_seq();
    sim_ev(2, id, 0, 0);
}
NOSAN void
h_begin(int c, long id, const Val& v)
{
    CR& r = C[c];
    sim_ev(3, c, id, 0);
    if (id < 0 || id >= ne || v.id != id || v.neg != ~id || E[id].sig != r.sig)
        sim_fail("[X24,X14] handler %d is invoked with values no emit of its signal supplied", c);
    if (O[r.obj].dest_done)
        sim_fail("[X24] handler %d is invoked after object %d was destroyed", c, r.obj);
    if (r.final)
        sim_fail("[X24] handler %d is invoked after %s", c,
                 S[r.sig].dest_done ? "its signal was destroyed" : "its object was disconnected");
    if (r.inside && (qkit::serial(r.q) || ++r.later > 32))
        sim_fail("[X24] handler %d is invoked after it has disconnected its object", c);
    if (r.cnt[id]++)
        sim_fail("[X24,X14] handler %d is invoked twice for emit %ld", c, id);
    if (qkit::serial(r.q) && !r.batch)
        for (int i = 0; i < ne; ++i)
            if (i != id && r.cnt[i] && E[id].e && E[id].e < E[i].b)
                sim_fail("[X24,X14] handler %d on a serial queue is invoked for emit %ld after emit %d", c,
                         id, i);
    r.active++;
    r.begins++;
    r.last_begin = o_seq();
}
NOSAN void
h_end(int c, long id)
{
    CR& r = C[c];
    sim_ev(4, c, id, 0);
    if (r.final)
        sim_fail("[X24] handler %d was still running when %s", c,
                 O[r.obj].dest_done ? "the destruction of its object had completed"
                                    : "its object was disconnected");
    r.active--;
}
NOSAN int64_t
begins_of(int c)
{
    return C[c].begins;
}
std::atomic<int> o_sync[NO], s_sync[NS];
NOSAN bool
obj_in(int o)
{
    if (O[o].dest_begun)
        return false;
    O[o].ext++;
    return true;
}
NOSAN void
obj_dec(int o)
{
    O[o].ext--;
}
void
obj_out(int o)
{
    o_sync[o].fetch_add(1, std::memory_order_release);
    obj_dec(o);
}
NOSAN bool
sig_in(int s)
{
    if (S[s].dest_begun)
        return false;
    S[s].ext++;
    return true;
}
NOSAN void
sig_dec(int s)
{
    S[s].ext--;
}
void
sig_out(int s)
{
    s_sync[s].fetch_add(1, std::memory_order_release);
    sig_dec(s);
}
NOSAN bool
o_free(int o)
{
    return O[o].ext == 0;
}
NOSAN bool
s_free(int s)
{
    return S[s].ext == 0;
}
NOSAN bool
conn_claim(int c)
{
    if (!C[c].known || C[c].con_begun)
        return false;
    C[c].con_begun = C[c].adding = true;
    OR& o = O[C[c].obj];
    if (o.connects++ == 1)
        for (int i = 0; i < NC; ++i)
            if (i != c && C[i].adding && C[i].obj == C[c].obj)
                sim_probe(P_RACING_CONNECTS);
    // may or may not be concerned by a disconnect in progress
    if (discs_now)
        C[c].disc_begun = true;
    return true;
}
NOSAN void
conn_done(int c, bool inside, bool foreign)
{
    C[c].con_seq = o_seq();
    C[c].con_done = true;
    C[c].adding = false;
    if (inside)
        sim_probe(P_CONNECT_INSIDE);
    if (foreign)
        sim_probe(P_FOREIGN_CONNECT);
    sim_ev(5, c, inside, foreign);
}
NOSAN bool
pending_of(int c)
{
    for (int i = 0; i < ne; ++i)
        if (E[i].sig == C[c].sig && E[i].b > C[c].con_seq && !C[c].cnt[i])
            return true;
    return false;
}
// connections of object o with signal s (-1: all) begin to end
NOSAN void
end_begin(int o, int s, bool inside, bool dest)
{
    sim_ev(6, o, s, inside);
    if (!dest)
        discs_now++;
    for (int c = 0; c < NC; ++c) {
        CR& r = C[c];
        if (!r.known || r.obj != o || (s >= 0 && r.sig != s) || !r.con_begun)
            continue;
        if (!r.disc_begun && r.con_done && pending_of(c))
            sim_probe(dest ? P_DEST_QUEUED : P_DISC_QUEUED);
        if (r.active)
            sim_probe(dest ? (inside ? P_DEST_INSIDE : P_DEST_WAITED)
                           : (inside ? P_DISC_INSIDE : P_DISC_WAITED));
        r.disc_begun = true;
    }
}
// mine: those whose connect had returned before the begin
NOSAN void
end_mine(int o, int s, bool* mine)
{
    for (int c = 0; c < NC; ++c)
        mine[c] = C[c].known && C[c].obj == o && (s < 0 || C[c].sig == s) && C[c].con_done;
}
NOSAN void
end_done(int o, int s, const bool* mine, int inside_of, bool dest)
{
    sim_ev(7, o, s, inside_of);
    if (!dest)
        discs_now--;
    for (int c = 0; c < NC; ++c) {
        CR& r = C[c];
        if (!mine[c])
            continue;
        if (inside_of == c) {
            r.inside = true;
            continue;
        }
        if (r.active)
            sim_fail("[X24] handler %d is still running when %s", c,
                     dest ? "the destruction of its object has completed"
                          : "disconnecting its object returns");
        r.final = true;
    }
}
NOSAN bool
dest_claim(int o)
{
    if (!O[o].known || O[o].dest_begun)
        return false;
    // takes its children along, unless somebody is destroying one of them
    for (int i = 1; i < nobj; ++i)
        if (o == 0 && P->cfg[C_PARENT0 + i] && O[i].dest_begun && !O[i].dest_done)
            return false;
    for (int i = 0; i < nobj; ++i)
        if (i == o || (o == 0 && P->cfg[C_PARENT0 + i] && !O[i].dest_done))
            O[i].dest_begun = true;
    return true;
}
NOSAN bool
goes_with(int i, int o)
{
    return i == o || (o == 0 && O[i].known && P->cfg[C_PARENT0 + i] && !O[i].dest_done);
}
NOSAN bool
gone(int o)
{
    return O[o].dest_done;
}
NOSAN void
dest_mark(int o)
{
    O[o].dest_done = true;
}
NOSAN void
probe(int p)
{
    sim_probe(p);
}
NOSAN bool
sdest_claim(int s)
{
    if (S[s].dest_begun)
        return false;
    S[s].dest_begun = true;
    for (int i = 0; i < nobj; ++i)
        if (!O[i].dest_begun)
            sim_probe(P_SIGNAL_FIRST);
    return true;
}
NOSAN void
sdest_done(int s)
{
    for (int c = 0; c < NC; ++c) {
        CR& r = C[c];
        // somebody else may not be done with it yet
        if (!r.known || r.sig != s || r.disc_begun)
            continue;
        if (r.active)
            sim_fail("[X24,X16] handler %d is still running when its signal was destroyed", c);
        r.disc_begun = r.final = true;
    }
    S[s].dest_done = true;
}
NOSAN bool
due(int c, int i)
{
    const CR& r = C[c];
    return r.known && r.con_done && !r.disc_begun && !O[r.obj].dest_begun && !S[r.sig].dest_begun &&
           E[i].sig == r.sig && E[i].b > r.con_seq;
}
NOSAN bool
met(int c, int i)
{
    return C[c].batch ? C[c].last_begin > E[i].b : C[c].cnt[i] != 0;
}
NOSAN bool
pred_all(void* out)
{
    for (int c = 0; c < NC; ++c) {
        if (!C[c].known)
            continue;
        for (int i = 0; i < ne; ++i)
            if (due(c, i) && !met(c, i)) {
                ((int*)out)[0] = c;
                ((int*)out)[1] = i;
                return false;
            }
        if (C[c].active)
            return false;
    }
    return true;
}
NOSAN bool
pred_threads(void* n)
{
    return threads_done >= *(int*)n;
}
NOSAN void
thread_done()
{
    threads_done++;
}
NOSAN bool
pred_gone(void*)
{
    for (int i = 0; i < nobj; ++i)
        if (O[i].known && !O[i].dest_done)
            return false;
    return true;
}
NOSAN void
fail_gone()
{
    for (int i = 0; i < nobj; ++i)
        if (O[i].known && !O[i].dest_done)
            sim_fail("[X24] the destruction of object %d does not complete", i);
}
NOSAN void
alive(int c, int d)
{
    C[c].alive += d;
}
NOSAN bool
pred_alive(void* c)
{
    return C[*(int*)c].alive == 0;
}
NOSAN bool
made(int c)
{
    return C[c].known && C[c].con_done;
}
NOSAN void
setup_conn(const Ins& d)
{
    CR& r = C[d.a];
    r.known = true;
    r.sig = (int)d.b;
    r.obj = (int)d.c;
    r.batch = d.d & 1;
    r.member = (d.d & 2) != 0;
    r.q = (int)(d.d >> 2);
}

// ---------------------------------------------------------------- workload
struct Token
{
    int c;
    explicit Token(int x)
      : c(x)
    {
        alive(c, 1);
    }
    ~Token() { alive(c, -1); }
};
void handler_body(int c, long id, const Val& v);
void destruction_complete(void* obj);
class Receiver : public QObject
{
public:
    // called once the destructor has completed
    static void operator delete(void* p)
    {
        destruction_complete(p);
        ::operator delete(p);
    }
    explicit Receiver(int x)
      : o(x)
    {}
    ~Receiver() override
    {
        if (P->cfg[C_PARENT0 + o])
            probe(P_CHILD);
    }
    // at most one member connection per signal and object
    void on0(long id, Val v) { handler_body(member[0], id, v); }
    void on1(long id, Val v) { handler_body(member[1], id, v); }
    int o;
    int member[2] = { -1, -1 };
};
struct World
{
    std::unique_ptr<Sig> s[NS];
    Receiver* o[NO];
    std::unique_ptr<queue> home[2];
    long cells[NE];
};
World* W;
Sig* sig_raw[NS];

void
do_emit(int s)
{
    if (!sig_in(s))
        return;
    int id = emit_begin(s);
    if (id >= 0) {
        W->cells[id] = id * 3 + 1;
        Val v{ id, ~(long)id, &W->cells[id] };
        sim_watch_begin("[X24,X17] emit", 30 * SEC);
        (*sig_raw[s])(id, v);
        sim_watch_end();
        emit_end(id);
    }
    sig_out(s);
}
void
do_connect(const Ins& d, bool inside)
{
    int c = (int)d.a, s = (int)d.b, o = (int)d.c, q = (int)(d.d >> 2);
    if (!sig_in(s))
        return;
    if (obj_in(o)) {
        if (conn_claim(c)) {
            auto m = (d.d & 1) ? notification_mode::batch_updates : notification_mode::single_updates;
            bool foreign = W->o[o]->thread() != QThread::currentThread();
            bool main = qkit::kind[q] == qkit::QK_MAIN && !(d.d & 1);
            sim_watch_begin("[X24] connecting an object", 30 * SEC);
            if (d.d & 2) {
                W->o[o]->member[s] = c;
                if (main)
                    qt5::connect(*sig_raw[s], W->o[o], s ? &Receiver::on1 : &Receiver::on0);
                else
                    qt5::connect(*sig_raw[s], W->o[o], s ? &Receiver::on1 : &Receiver::on0,
                                 *qkit::get(q), m);
            } else {
                auto tok = std::make_shared<Token>(c);
                auto f = [tok, c](long id, Val v) { handler_body(c, id, v); };
                if (main)
                    qt5::connect(*sig_raw[s], (QObject*)W->o[o], f);
                else
                    qt5::connect(*sig_raw[s], (QObject*)W->o[o], f, *qkit::get(q), m);
            }
            sim_watch_end();
            conn_done(c, inside, foreign);
        }
        obj_out(o);
    }
    sig_out(s);
}
void
do_disc(int s, int o, int by)
{
    if (!sig_in(s))
        return;
    if (obj_in(o)) {
        bool mine[NC] = {};
        int own = by >= 0 && C[by].obj == o && C[by].sig == s ? by : -1;
        end_begin(o, s, own >= 0, false);
        end_mine(o, s, mine);
        sim_watch_begin("[X24] disconnecting an object", 30 * SEC);
        qt5::disconnect(*sig_raw[s], W->o[o]);
        sim_watch_end();
        end_done(o, s, mine, own, false);
        obj_out(o);
    }
    sig_out(s);
}
bool dest_mine[NO][NC];
int dest_by[NO];
NOSAN int
index_of(void* obj)
{
    for (int i = 0; i < nobj; ++i)
        if (W->o[i] == obj)
            return i;
    return -1;
}
NOSAN void
dest_prepare(int o, int by)
{
    for (int i = 0; i < nobj; ++i)
        if (goes_with(i, o)) {
            dest_by[i] = by;
            end_begin(i, -1, by >= 0, true);
            end_mine(i, -1, dest_mine[i]);
        }
}
NOSAN void
destruction_complete(void* obj)
{
    int i = index_of(obj);
    if (i < 0)
        return;
    end_done(i, -1, dest_mine[i], dest_by[i], true);
    dest_mark(i);
}
void
wait_unused(int o)
{
    for (int i = 0; i < nobj; ++i)
        if (goes_with(i, o)) {
            while (!o_free(i))
                sim_sleep(50 * US);
            o_sync[i].load(std::memory_order_seq_cst);
        }
}
// on the thread of the object; by: handler the call is made by
void
destroy_now(int o, int by)
{
    wait_unused(o);
    dest_prepare(o, by);
    sim_watch_begin("[X24] destroying an object", 30 * SEC);
    delete W->o[o];
    sim_watch_end();
}
void
do_destroy(int o, long later)
{
    if (!dest_claim(o))
        return;
    if (later) {
        wait_unused(o);
        dest_prepare(o, -1);
        probe(P_DEST_LATER);
        W->o[o]->deleteLater();
    } else
        W->home[P->cfg[C_HOME0 + o]]->async([o] { destroy_now(o, -1); });
}
void
do_sdestroy(int s)
{
    if (!sdest_claim(s))
        return;
    while (!s_free(s))
        sim_sleep(50 * US);
    s_sync[s].load(std::memory_order_seq_cst);
    sim_watch_begin("[X24,X17] destroying a signal", 30 * SEC);
    W->s[s].reset();
    sim_watch_end();
    sdest_done(s);
}
void
exec_ins(const Ins& s)
{
    switch (s.op) {
        case I_CONN:
            do_connect(s, false);
            break;
        case I_SLEEP:
            o_sleep(s.a, s.b, s.c);
            break;
        case I_EMIT:
            do_emit((int)s.a);
            break;
        case I_DISC:
            do_disc((int)s.a, (int)s.b, -1);
            break;
        case I_DESTROY:
            do_destroy((int)s.a, s.b);
            break;
        case I_SDESTROY:
            do_sdestroy((int)s.a);
            break;
        case I_LOAD: {
            int q = (int)s.a;
            int64_t d = s.b;
            qkit::get(q)->async([q, d] {
                qkit::enter(q, "an operation");
                sim_sleep(d);
                qkit::leave(q);
            });
            break;
        }
        default:
            break;
    }
}
void
handler_body(int c, long id, const Val& v)
{
    int q = C[c].q;
    h_begin(c, id, v);
    int64_t n = begins_of(c);
    qkit::enter(q, "a handler of a Qt object");
    if (*v.cell != id * 3 + 1)
        sim_fail("[X24,X03] handler %d does not see what was written before the emit", c);
    bool destroyed = false;
    for (int i = 0; i < P->n && !destroyed; ++i) {
        const Ins& s = P->ins[i];
        if (s.th != BODY + c || s.op == I_CONN || s.c != n)
            continue;
        switch (s.op) {
            case I_EMIT:
                do_emit((int)s.a);
                break;
            case I_SLEEP:
                sim_sleep(s.a);
                break;
            case I_DISC:
                do_disc(C[c].sig, C[c].obj, c);
                break;
            case I_DESTROY: {
                int o = C[c].obj;
                if (QThread::currentThread() == (P->cfg[C_HOME0 + o] ? QCoreApplication::instance()->thread()
                                                                     : qt_loop_thread()) &&
                    o_free(o) && dest_claim(o)) {
                    destroy_now(o, c);
                    destroyed = true;
                }
                break;
            }
            case I_CONNECT:
                for (int k = 0; k < P->n; ++k)
                    if (P->ins[k].op == I_CONN && P->ins[k].a == s.a)
                        do_connect(P->ins[k], true);
                break;
            default:
                break;
        }
    }
    sim_sleep(P->cfg[C_DUR0 + c % 3]);
    qkit::leave(q);
    h_end(c, id);
}
void
settle(const char* what)
{
    int miss[2] = { -1, -1 };
    if (!o_settle(pred_all, miss, PROMPT + 80 * busy)) {
        if (miss[0] >= 0 && due(miss[0], miss[1]) && !met(miss[0], miss[1]))
            sim_fail("[X24,X14] handler %d of object %d is never invoked for emit %d", miss[0],
                     C[miss[0]].obj, miss[1]);
        sim_fail("[X24] a handler does not finish %s", what);
    }
}
void
run(const Prog& prog)
{
    P = &prog;
    W = new World;
    nsig = (int)prog.cfg[C_NSIG];
    nobj = (int)prog.cfg[C_NOBJ];
    int nq = (int)prog.cfg[C_NQ];
    for (int i = 0; i < nq; ++i)
        qkit::kind[i] = (int)prog.cfg[C_Q0 + i];
    qkit::force_qt = true;
    qkit::setup(nq, (int)prog.cfg[C_POOL]);
    W->home[0].reset(new queue(qt5::create_serial_queue("loop", qt_loop_thread())));
    W->home[1].reset(
      new queue(qt5::create_serial_queue("main", QCoreApplication::instance()->thread())));
    for (int i = 0; i < nsig; ++i) {
        W->s[i].reset(new Sig);
        sig_raw[i] = W->s[i].get();
    }
    for (int i = 0; i < nobj; ++i) {
        O[i].known = true;
        W->o[i] = new Receiver(i);
        if (i && prog.cfg[C_PARENT0 + i])
            W->o[i]->setParent(W->o[0]);
    }
    for (int i = 0; i < nobj; ++i)
        if (!(i && prog.cfg[C_PARENT0 + i]))
            W->o[i]->moveToThread(prog.cfg[C_HOME0 + i] ? QCoreApplication::instance()->thread()
                                                        : qt_loop_thread());
    for (int i = 0; i < prog.n; ++i) {
        const Ins& d = prog.ins[i];
        if (d.op == I_LOAD && d.th < BODY)
            busy += d.b;
        if (d.op == I_SLEEP)
            busy += d.a;
        if (d.op != I_CONN)
            continue;
        setup_conn(d);
        busy += prog.cfg[C_DUR0 + d.a % 3];
    }
    for (int i = 0; i < prog.n; ++i)
        if (prog.ins[i].op == I_CONN && (prog.cfg[C_PRE] >> prog.ins[i].a & 1))
            do_connect(prog.ins[i], false);
    int nth = (int)prog.cfg[C_THREADS];
    std::vector<std::thread> th;
    for (int x = 0; x < nth; ++x)
        th.emplace_back([x] {
            sim_mark_harness();
            for (int i = 0; i < P->n; ++i)
                if (P->ins[i].th == x)
                    exec_ins(P->ins[i]);
            thread_done();
        });
    o_settle(pred_threads, &nth, 10 * SEC);
    sim_quiesce(1);
    if (!o_settle(pred_threads, &nth, 60 * SEC))
        sim_fail("[X24] a call does not return");
    for (auto& t : th)
        t.join();
    settle("after the threads ended");
    for (int round = 0; round < 2; ++round) {
        for (int i = 0; i < nsig; ++i)
            do_emit(i);
        settle("after the final emits");
    }
    for (int i = 0; i < nobj; ++i) {
        if (i == 2)
            do_sdestroy(0);
        do_destroy(i, i & 1);
    }
    o_settle(pred_gone, nullptr, PROMPT + 80 * busy);
    do_destroy(0, 0);
    if (!o_settle(pred_gone, nullptr, PROMPT + 80 * busy))
        fail_gone();
    for (int i = 0; i < nsig; ++i)
        do_emit(i);
    sim_sleep(2 * SEC);
    for (int i = 0; i < nsig; ++i)
        do_sdestroy(i);
    for (int c = 0; c < NC; ++c)
        if (made(c) && !C[c].member && !o_settle(pred_alive, &c, PROMPT + 80 * busy))
            sim_fail("[X24,X04] handler %d is still alive long after its object was destroyed", c);
    sim_done();
}
void
gen(Rnd& r, Prog& p, int focus)
{
    enum
    {
        F_LIFE,
        F_DISC
    };
    int nth = (int)r.in(1, 3), ns = r.chance(1, 2) ? 2 : 1, no = (int)r.in(1, 4);
    int nq = (int)r.in(1, 3), n = (int)r.in(1, 6);
    p.cfg[C_THREADS] = nth;
    p.cfg[C_NSIG] = ns;
    p.cfg[C_NOBJ] = no;
    p.cfg[C_NQ] = nq;
    p.cfg[C_POOL] = r.in(1, 3);
    for (int i = 0; i < nq; ++i) {
        const long k[] = { qkit::QK_MAIN, qkit::QK_MAIN, qkit::QK_QTTHREAD, qkit::QK_QTTHREAD,
                           qkit::QK_QTPOOL, qkit::QK_GLOBAL, qkit::QK_SERIAL };
        p.cfg[C_Q0 + i] = r.pick(k);
    }
    const long du[] = { 0, 0, 20 * US, 100 * US, 1 * MS, 5 * MS };
    for (int i = 0; i < 3; ++i)
        p.cfg[C_DUR0 + i] = r.pick(du);
    for (int i = 0; i < no; ++i) {
        p.cfg[C_HOME0 + i] = r.in(0, 1);
        if (i && r.chance(1, 5)) {
            p.cfg[C_PARENT0 + i] = 1;
            p.cfg[C_HOME0 + i] = p.cfg[C_HOME0];
        }
    }
    long pre = 0;
    int per[NO] = {};
    bool member[NO][2] = {};
    int obj[NC];
    const bool together = nth > 1 && n > 1 && r.chance(1, 3); // first connects race
    auto conn = [&](int c, int th) {
        int o = together && c < 2 ? no - 1 : (int)r.in(0, no - 1), s = (int)r.in(0, ns - 1);
        bool mem = r.chance(1, 4) && !member[o][s];
        member[o][s] |= mem;
        obj[c] = o;
        per[o]++;
        prog_add(p, th, I_CONN, c, s, o,
                 (r.chance(1, 4) ? 1 : 0) | (mem ? 2 : 0) | r.in(0, nq - 1) << 2);
    };
    for (int c = 0; c < n; ++c) {
        bool early = together && c < 2 ? false : r.chance(1, 2);
        if (early)
            pre |= 1l << c;
        conn(c, together && c < 2 ? c : early ? BODY + 50 : (int)r.in(0, nth - 1));
    }
    p.cfg[C_PRE] = pre;
    int spare = n;
    int base = n;
    for (int c = 0; c < base; ++c)
        if (r.chance(1, 5) && spare < NC) {
            conn(spare, BODY + 50);
            prog_add(p, BODY + c, I_CONNECT, spare++, 0, r.in(1, 3));
        }
    const long naps[] = { 0, 10 * US, 50 * US, 200 * US, 1 * MS, 5 * MS };
    for (int c = 0; c < base; ++c) {
        if (r.chance(1, 4))
            prog_add(p, BODY + c, I_SLEEP, r.pick(naps), 0, r.in(1, 3));
        if (r.chance(1, 5))
            prog_add(p, BODY + c, I_EMIT, r.in(0, ns - 1), 0, r.in(1, 3));
        if (per[obj[c]] == 1 && r.chance(1, 2) && !(obj[c] == 0 && no > 1))
            prog_add(p, BODY + c, r.chance(1, 2) ? I_DISC : I_DESTROY, 0, 0, r.in(1, 3));
    }
    int emits = 0;
    for (int t = 0; t < nth; ++t) {
        int m = (int)r.in(4, 12);
        for (int i = 0; i < m; ++i) {
            int k = (int)r.in(0, 99);
            if (k < 45) {
                int b = r.chance(1, 3) ? (int)r.in(2, 5) : 1;
                while (b-- && emits < 44) {
                    prog_add(p, t, I_EMIT, r.in(0, ns - 1));
                    emits++;
                }
            } else if (k < 60)
                gen_sleep(r, p, t, I_SLEEP, naps);
            else if (k < 68)
                prog_add(p, t, I_LOAD, r.in(0, nq - 1), r.in(0, 20) * 100 * US);
            else if (k < 82 && (focus == F_LIFE || r.chance(1, 4)))
                prog_add(p, t, I_DESTROY, r.in(0, no - 1), r.in(0, 1));
            else if (k < 96 && (focus == F_DISC || r.chance(1, 4)))
                prog_add(p, t, I_DISC, r.in(0, ns - 1), r.in(0, no - 1));
            else if (k >= 98)
                prog_add(p, t, I_SDESTROY, r.in(0, ns - 1));
        }
    }
}
void
tune(Rnd& r, const Prog& p, sim_cfg& c, int focus)
{
    (void)p;
    (void)focus;
    (void)r;
    if (c.freeze_max_ns > 1000 * MS)
        c.freeze_max_ns = 1000 * MS;
    if (c.tjump_max_ns > 1000 * MS)
        c.tjump_max_ns = 1000 * MS;
    c.max_vtime = 900 * SEC;
    c.max_steps = 2000000;
}
const char* const kFocus[] = { "life", "disconnect", nullptr };
} // namespace
extern const Family fam_qobj;
const Family fam_qobj = { "qobj", kOps, kCfg, kProbes, "X24", gen, run, tune, kFocus };
#endif
