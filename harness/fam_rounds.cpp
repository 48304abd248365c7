// Family "rounds": X27. The same small program is executed round after round in one
// run. Everything created in a round is given up at its end: what was captured by
// operations and handlers has to be destroyed, pools nobody refers to have to go away,
// threads which ended have to be joined or detached, and the number of allocations of
// any one kind must not grow with the rounds. Some objects (a signal, a group, a timer, a
// notifier, a queue, ...) stay for the whole run and are used again in each round.
#include "qkit.h"
#ifdef XDSIM_QT
    #include "ops_qt.h"
    #include <QtCore/QObject>
    #include <QtCore/QThread>
    #include <xdispatch/backend_qt.h>
QThread* qt_loop_thread();
#endif
#include <atomic>
#include <list>
#include <sys/socket.h>
#include <unistd.h>
#include <xdispatch/barrier_operation.h>
#include <xdispatch/signals.h>
#include <xdispatch/signals_barrier.h>
#include <xdispatch/waitable_queue.h>
using namespace xdispatch;
using std::chrono::milliseconds;

namespace {
enum
{
    C_THREADS,
    C_EXPIRE, // 1: the workers expire between the rounds
    C_POOL,
    C_PAUSE, // ms between the rounds
    C_HIGH,  // 1: descriptors beyond the range of select()
    C_KEPT,  // kind of queue behind the timers, notifiers and queues that are kept
    C_KEPT_GROUP // 1: the kept signal uses the kept group
};
const char* const kCfg[] = { "threads", "expire", "pool", "pause", "high_fds", "kept_queue", "kept_signal_in_group", nullptr };
enum
{
    G_SLEEP,
    G_ASYNC,
    G_GROUP,
    G_APPLY,
    G_AFTER,
    G_TIMER,
    G_NOTIFIER,
    G_SIGNAL,
    G_SBARRIER,
    G_BARRIER,
    G_WQ,
    G_BLOCK,
    G_KEEP_SIGNAL,
    G_KEEP_TIMER,
    G_KEEP_NOTIFIER,
    G_KEEP_GROUP,
    G_KEEP_WQ,
    G_QOBJ,
    G_N
};
const char* const kOps[] = { "sleep",    "async",  "group",          "apply",   "after",          "timer",
                             "notifier", "signal", "signal_barrier", "barrier", "waitable_queue", "block",
                             "same_signal", "same_timer", "same_notifier", "same_group", "same_waitable_queue",
                             "qobject", nullptr };
const char* const kWhat[] = { "X04",         "X04,X01", "X04,X06,X07", "X05,X04", "X09,X04", "X11,X10",
                              "X13,X12",     "X16,X14", "X17,X16",     "X08,X04", "X18,X04", "X19,X04",
                              "X16,X14",     "X11,X10", "X13,X12",     "X06,X07", "X18,X04",        "X24,X16" };
enum
{
    P_QUEUE_DROPPED_BUSY,
    P_POOL_GONE,
    P_TIMER_SUSPENDED,
    P_TIMER_CANCELLED_INSIDE,
    P_NOTIFIER_CLOSED,
    P_SIGNAL_DESTROYED,
    P_EXPIRED,
    P_ROUNDS
};
const char* const kProbes[] = { "queue_dropped_while_busy",
                                "custom_pool_given_up",
                                "timer_suspended_and_dropped",
                                "timer_cancelled_inside_handler",
                                "socket_closed_under_notifier",
                                "signal_destroyed_with_connections",
                                "workers_expired_between_rounds",
                                "rounds",
                                nullptr };
enum QKind
{
    Q_SERIAL,
    Q_HIGH,
    Q_GLOBAL,
    Q_CSERIAL,
    Q_CPARALLEL,
    Q_SHARED,
    Q_KINDS,
    Q_QTTHREAD = Q_KINDS,
    Q_QTPOOL,
    Q_QTMAIN
};
const Prog* P;
int tokens[G_N], pools_alive;
NOSAN void
count_token(int k, int d)
{
    tokens[k] += d;
}
NOSAN void
count_pool(int d)
{
    pools_alive += d;
    if (d < 0)
        sim_probe(P_POOL_GONE);
}
struct Token
{
    explicit Token(int g)
      : kind(g)
      , data(new int(g))
    {
        count_token(kind, 1);
    }
    ~Token()
    {
        delete data;
        data = nullptr;
        count_token(kind, -1);
    }
    void use() const
    {
        if (*data != kind)
            sim_fail("[X04] an operation uses what was destroyed already");
    }
    const int kind;
    int* data;
};
using Tok = std::shared_ptr<Token>;
Tok
token(int g)
{
    return std::make_shared<Token>(g);
}

// the threads behind all custom pools, they stay for the whole run
struct Crew
{
    std::mutex cs;
    std::condition_variable cond;
    std::list<std::pair<operation_ptr, naive::ithreadpool_ptr>> work;
};
Crew* crew;
class RPool
  : public naive::ithreadpool
  , public std::enable_shared_from_this<RPool>
{
public:
    RPool() { count_pool(1); }
    ~RPool() override { count_pool(-1); }
    void execute(const operation_ptr& work, queue_priority) override
    {
        std::lock_guard<std::mutex> l(crew->cs);
        crew->work.emplace_back(work, shared_from_this());
        crew->cond.notify_one();
    }
    void run(operation& op) { run_with_threadpool(op, this); }

protected:
    void notify_thread_blocked() override {}
    void notify_thread_unblocked() override {}
};
void
crew_run()
{
    sim_mark_harness();
    for (;;) {
        std::pair<operation_ptr, naive::ithreadpool_ptr> w;
        {
            std::unique_lock<std::mutex> l(crew->cs);
            while (crew->work.empty())
                crew->cond.wait(l);
            w = crew->work.front();
            crew->work.pop_front();
        }
        static_cast<RPool&>(*w.second).run(*w.first);
    }
}

queue* shared_queue;
queue
make(int kind)
{
    switch (kind) {
        case Q_SERIAL:
            return queue("r");
        case Q_HIGH:
            return queue("r", queue_priority::UTILITY);
        case Q_CSERIAL:
            return naive::create_serial_queue("r", std::make_shared<RPool>());
        case Q_CPARALLEL:
            return naive::create_parallel_queue("r", std::make_shared<RPool>());
        case Q_SHARED:
            return *shared_queue;
#ifdef XDSIM_QT
        case Q_QTTHREAD:
        case Q_QTPOOL: {
            // names the thread, which is not meant to be done concurrently
            static std::mutex cs;
            std::lock_guard<std::mutex> l(cs);
            return *qt_make_queue(kind == Q_QTPOOL, "r", queue_priority::DEFAULT);
        }
        case Q_QTMAIN:
            return main_queue();
#endif
        default:
            return global_queue();
    }
}
// waits until pred is true, gives up after a while as the oracles find out why
template<class Pred>
bool
await(Pred pred, int64_t limit = 2 * SEC)
{
    int64_t t = 20 * US, sum = 0;
    while (!pred()) {
        if (sum > limit)
            return false;
        sim_sleep(t);
        sum += t;
        if (t < 5 * MS)
            t += t / 2;
    }
    return true;
}

void
g_async(const Ins& s)
{
    queue q = make((int)s.a);
    for (int i = 0; i < s.b; ++i) {
        Tok t = token(G_ASYNC);
        int64_t ns = s.c;
        if (s.d & 1)
            q.async([t, q, ns] {
                t->use();
                sim_sleep(ns);
                Tok t2 = token(G_ASYNC);
                q.async([t2] { t2->use(); });
            });
        else
            q.async([t, ns] {
                t->use();
                sim_sleep(ns);
            });
    }
    if (s.d & 2) {
        auto done = std::make_shared<barrier_operation>();
        q.async(done);
        done->wait();
    } else
        sim_probe(P_QUEUE_DROPPED_BUSY);
}
void
g_group(const Ins& s)
{
    queue q = make((int)s.a);
    group g;
    for (int i = 0; i < s.b; ++i) {
        Tok t = token(G_GROUP);
        g.async(
          [t] {
              t->use();
              sim_sleep(100 * US);
          },
          q);
    }
    if (s.d & 1) {
        Tok t = token(G_GROUP);
        g.notify([t] { t->use(); }, q);
    }
    if (s.d & 2) {
        // keeps the group until the operation has run
        Tok t = token(G_GROUP);
        g.async([t, g] { t->use(); }, q);
    }
    if (s.c > -2)
        g.wait(milliseconds(s.c));
}
void
g_apply(const Ins& s)
{
    queue q = make((int)s.a);
    Tok t = token(G_APPLY);
    q.apply((size_t)s.b, [t](size_t) { t->use(); });
}
void
g_after(const Ins& s)
{
    queue q = make((int)s.a);
    for (int i = 0; i < s.c; ++i) {
        Tok t = token(G_AFTER);
        q.after(milliseconds(s.b), [t] { t->use(); });
    }
}
struct Shared
{
    std::atomic<int> fired{ 0 };
    std::atomic<timer*> t{ nullptr };
    std::atomic<socket_notifier*> n{ nullptr };
};
void
g_timer(const Ins& s)
{
    queue q = make((int)s.a);
    auto st = std::make_shared<Shared>();
    Tok t = token(G_TIMER);
    timer tm(milliseconds(s.b), q);
    st->t = &tm;
    const int mode = (int)s.c, want = (int)s.d;
    auto handler = [t, st, mode, want] {
        t->use();
        if (mode == 3 && st->fired + 1 == want)
            if (timer* x = st->t)
                x->cancel();
        st->fired++;
    };
    t.reset();
    tm.handler(handler);
    if (mode == 4) // never resumed
        return;
    if (mode == 5)
        tm.handler(handler); // a second one
    tm.resume(milliseconds(mode & 1));
    await([&] { return st->fired >= want; });
    switch (mode) {
        case 1:
            tm.suspend();
            sim_probe(P_TIMER_SUSPENDED);
            break;
        case 2:
            tm.suspend();
            tm.resume();
            await([&] { return st->fired >= want + 1; });
            tm.suspend();
            break;
        case 3:
            sim_probe(P_TIMER_CANCELLED_INSIDE);
            break;
        case 6: {
            timer other(tm);
            other.cancel();
            break;
        }
        default:
            tm.cancel();
    }
}
void
g_notifier(const Ins& s)
{
    int fds[2];
    if (socketpair(AF_UNIX, SOCK_STREAM, 0, fds))
        return;
    {
        queue q = make((int)s.a);
        auto st = std::make_shared<Shared>();
        Tok t = token(G_NOTIFIER);
        socket_notifier n(fds[0], s.b ? notifier_type::WRITE : notifier_type::READ, q);
        st->n = &n;
        const int mode = (int)s.c;
        n.handler([t, st, mode](socket_t fd, notifier_type ty) {
            t->use();
            char c;
            if (notifier_type::READ == ty)
                (void)!recv(fd, &c, 1, MSG_DONTWAIT);
            else
                sim_sleep(2 * MS);
            if (mode == 2 && !st->fired)
                if (socket_notifier* x = st->n)
                    x->cancel();
            st->fired++;
        });
        t.reset();
        if (mode != 4)
            n.resume();
        if (s.d & 1)
            (void)!send(fds[1], "x", 1, MSG_DONTWAIT);
        if (((s.d & 1) || s.b) && mode != 4)
            await([&] { return st->fired > 0; });
        switch (mode) {
            case 0:
            case 2:
                n.cancel();
                break;
            case 3: // the watch notices on its own
                close(fds[0]);
                fds[0] = -1;
                sim_probe(P_NOTIFIER_CLOSED);
                break;
            case 4:
                break;
            default:
                n.suspend();
        }
    }
    if (fds[0] >= 0)
        close(fds[0]);
    close(fds[1]);
}
using Sig = signal<void(int, Tok)>;
void
g_signal(const Ins& s)
{
    queue q = make((int)s.a);
    Tok t = token(G_SIGNAL);
    const bool batch = s.d & 1, managed = s.d & 2, chained = s.d & 4, grouped = s.d & 8,
               disc = s.d & 16, inside = s.d & 32;
    std::unique_ptr<group> g(grouped ? new group : nullptr);
    std::unique_ptr<Sig> a(g ? new Sig(*g) : new Sig), b(chained ? new Sig : nullptr);
    connection_manager manager;
    std::vector<scoped_connection> scoped;
    std::vector<connection> raw;
    Sig& target = b ? *b : *a;
    if (b)
        a->connect(*b);
    auto self = std::make_shared<connection>();
    for (int i = 0; i < s.b; ++i) {
        connection c =
          target.connect([t, i](int, Tok v) { t->use(); v->use(); },
                         q,
                         batch ? notification_mode::batch_updates : notification_mode::single_updates);
        if (managed)
            manager += c;
        else if (i & 1)
            scoped.emplace_back(c);
        else
            raw.push_back(c);
    }
    if (inside) {
        // disconnects itself on its first invocation
        auto ready = std::make_shared<std::atomic<bool>>(false);
        *self = target.connect(
          [t, self, ready](int, Tok) {
              t->use();
              if (ready->exchange(false))
                  self->disconnect();
          },
          q);
        *ready = true;
    }
    t.reset();
    for (int i = 0; i < s.c; ++i) {
        Tok v = token(G_SIGNAL);
        (*a)(i, v);
    }
    if (g && !(s.d & 64))
        g->wait();
    if (disc) {
        for (auto& c : raw)
            c.disconnect();
        scoped.clear();
        if (managed)
            manager.reset_connections();
    } else
        sim_probe(P_SIGNAL_DESTROYED);
    a.reset();
    b.reset();
}
void
g_sbarrier(const Ins& s)
{
    queue q = make((int)s.a);
    Sig sig;
    {
        Tok t = token(G_SBARRIER);
        signal_barrier<void(int, Tok)> bar(sig);
        auto sent = std::make_shared<barrier_operation>();
        if (s.b) {
            q.async([t, &sig] {
                t->use();
                sig(1, token(G_SBARRIER));
            });
            t.reset();
            q.async(sent);
        }
        if (s.c >= 0)
            bar.wait(milliseconds(s.c));
        if (s.b) {
            bar.wait();
            std::get<1>(bar.values())->use();
            // on a parallel queue it may be executed before the emit is done
            if (s.a == Q_SERIAL || s.a == Q_CSERIAL)
                sent->wait();
            else
                await([&] { return false; }, 5 * MS);
        }
    }
}
void
g_barrier(const Ins& s)
{
    queue q = make((int)s.a);
    auto b = std::make_shared<barrier_operation>();
    for (int i = 0; i < s.c; ++i) {
        Tok t = token(G_BARRIER);
        global_queue().async([t, b] {
            t->use();
            naive::ithreadpool::block_scope blocked;
            b->wait();
        });
    }
    if (s.d >= 0)
        b->wait(milliseconds(s.d));
    q.async(b);
    if (s.b)
        b->wait();
}
void
g_wq(const Ins& s)
{
    waitable_queue q("w", make((int)s.a));
    for (int i = 0; i < s.b; ++i) {
        Tok t = token(G_WQ);
        q.async([t] { t->use(); });
    }
    if (s.c & 1)
        q.wait_for_one();
    if (s.c & 2)
        q.wait_for_all();
}
void
g_block(const Ins& s)
{
    for (int i = 0; i < s.b; ++i) {
        Tok t = token(G_BLOCK);
        global_queue().async([t] {
            t->use();
            naive::ithreadpool::block_scope blocked;
            sim_sleep(200 * US);
        });
    }
}
// what stays for the whole run, one set per thread except for the signal and the group
struct Keep
{
    queue q;
    timer tm;
    waitable_queue wq;
    int fds[2];
    std::unique_ptr<socket_notifier> n;
    explicit Keep(int kind)
      : q(make(kind))
      , tm(milliseconds(1), q)
      , wq("same", q)
    {
        if (socketpair(AF_UNIX, SOCK_STREAM, 0, fds))
            abort();
        n.reset(new socket_notifier(fds[0], notifier_type::READ, q));
    }
};
Keep* keep[4];
Sig* keep_signal;
group* keep_group;
void
k_signal(const Ins& s)
{
    queue q = make((int)s.a);
    Tok t = token(G_KEEP_SIGNAL);
    std::vector<connection> cs;
    for (int i = 0; i < s.b; ++i)
        cs.push_back(keep_signal->connect([t](int, Tok v) { t->use(); v->use(); },
                                          q,
                                          s.d & 1 ? notification_mode::batch_updates
                                                  : notification_mode::single_updates));
    Sig mine;
    if (s.d & 2) // chained for a while
        cs.push_back(keep_signal->connect(mine));
    t.reset();
    for (int i = 0; i < s.c; ++i)
        (*keep_signal)(i, token(G_KEEP_SIGNAL));
    if (s.d & 4)
        keep_signal->skip_all();
    for (auto& c : cs)
        c.disconnect();
}
void
k_timer(Keep& k, const Ins& s)
{
    auto fired = std::make_shared<std::atomic<int>>(0);
    Tok t = token(G_KEEP_TIMER);
    k.tm.handler([t, fired] {
        t->use();
        ++*fired;
    });
    t.reset();
    k.tm.interval(milliseconds(s.b));
    k.tm.resume(milliseconds(s.c));
    if (s.d & 1)
        await([&] { return *fired > 0; });
    k.tm.suspend();
    k.tm.handler([] {});
}
void
k_notifier(Keep& k, const Ins& s)
{
    auto fired = std::make_shared<std::atomic<int>>(0);
    Tok t = token(G_KEEP_NOTIFIER);
    k.n->handler([t, fired](socket_t fd, notifier_type) {
        t->use();
        char c[8];
        (void)!recv(fd, c, sizeof(c), MSG_DONTWAIT);
        ++*fired;
    });
    t.reset();
    k.n->resume();
    if (s.d & 1) {
        (void)!send(k.fds[1], "x", 1, MSG_DONTWAIT);
        await([&] { return *fired > 0; });
    }
    k.n->suspend();
    k.n->handler([](socket_t fd, notifier_type) {
        char c[8];
        (void)!recv(fd, c, sizeof(c), MSG_DONTWAIT);
    });
}
void
k_group(const Ins& s)
{
    queue q = make((int)s.a);
    for (int i = 0; i < s.b; ++i) {
        Tok t = token(G_KEEP_GROUP);
        keep_group->async(
          [t] {
              t->use();
              sim_sleep(50 * US);
          },
          q);
    }
    if (s.d & 1) {
        Tok t = token(G_KEEP_GROUP);
        keep_group->notify([t] { t->use(); }, q);
    }
    if (s.c > -2)
        keep_group->wait(milliseconds(s.c));
}
void
k_wq(Keep& k, const Ins& s)
{
    for (int i = 0; i < s.b; ++i) {
        Tok t = token(G_KEEP_WQ);
        k.wq.async([t] { t->use(); });
    }
    if (s.c & 1)
        k.wq.wait_for_one();
    if (s.c & 2)
        k.wq.wait_for_all();
    if (s.d & 1) {
        Tok t = token(G_KEEP_WQ);
        k.wq.after(milliseconds(s.d), [t] { t->use(); });
    }
}
#ifdef XDSIM_QT
struct Obj : QObject
{
    // may still be invoked while the base class is being destroyed, has to stay clear
    // of the members
    void on(int, Tok v) { v->use(); }
    Tok t = token(G_QOBJ);
};
Obj* keep_obj;
void
g_qobj(const Ins& s)
{
    queue q = make((int)s.a), home = make(Q_QTTHREAD);
    const bool same = s.d & 1, drop_signal = s.d & 2, disc = s.d & 4, batch = s.d & 8, later = s.d & 16,
               same_signal = s.d & 32;
    const auto mode = batch ? notification_mode::batch_updates : notification_mode::single_updates;
    std::unique_ptr<Sig> own(new Sig);
    Sig& sig = same_signal ? *keep_signal : *own;
    // one object lives on, its connections are ended in each round
    Obj* const o = same ? keep_obj : new Obj;
    if (!same)
        o->moveToThread(qt_loop_thread());
    Tok t = token(G_QOBJ);
    for (int i = 0; i < s.b; ++i) {
        if (i == 1)
            qt5::connect(sig, o, &Obj::on, q, mode);
        else
            qt5::connect(sig, (QObject*)o, [t](int, Tok v) { t->use(); v->use(); }, q, mode);
    }
    t.reset();
    for (int i = 0; i < s.c; ++i)
        sig(i, token(G_QOBJ));
    if (drop_signal && !same_signal && !same)
        own.reset();
    if (same || (disc && own))
        qt5::disconnect(sig, o);
    if (!same) {
        if (later)
            o->deleteLater();
        else {
            auto gone = std::make_shared<barrier_operation>();
            home.async([o] { delete o; });
            home.async(gone);
            gone->wait();
        }
        if (later) // connections refer to the signal until it is gone
            await([&] { return false; }, 200 * US);
    }
}
#endif
void
exec(const Ins& s)
{
    switch (s.op) {
        case G_KEEP_SIGNAL:
            k_signal(s);
            break;
        case G_KEEP_TIMER:
            k_timer(*keep[s.th], s);
            break;
        case G_KEEP_NOTIFIER:
            k_notifier(*keep[s.th], s);
            break;
        case G_KEEP_GROUP:
            k_group(s);
            break;
        case G_KEEP_WQ:
            k_wq(*keep[s.th], s);
            break;
#ifdef XDSIM_QT
        case G_QOBJ:
            g_qobj(s);
            break;
#endif
        case G_SLEEP:
            o_sleep(s.a, s.b, s.c);
            break;
        case G_ASYNC:
            g_async(s);
            break;
        case G_GROUP:
            g_group(s);
            break;
        case G_APPLY:
            g_apply(s);
            break;
        case G_AFTER:
            g_after(s);
            break;
        case G_TIMER:
            g_timer(s);
            break;
        case G_NOTIFIER:
            g_notifier(s);
            break;
        case G_SIGNAL:
            g_signal(s);
            break;
        case G_SBARRIER:
            g_sbarrier(s);
            break;
        case G_BARRIER:
            g_barrier(s);
            break;
        case G_WQ:
            g_wq(s);
            break;
        case G_BLOCK:
            g_block(s);
            break;
    }
}

std::atomic<int>* round_no;
int ended; // threads times rounds
int in_op[4];
NOSAN void
mark_op(int x, int op)
{
    in_op[x] = op;
}
NOSAN void
mark_end()
{
    ended++;
}
NOSAN bool
pred_ended(void* p)
{
    return ended >= *(int*)p;
}
int kept[G_N], pools_kept;
const char* qt_tag = "";
NOSAN void
remember_kept()
{
    for (int k = 0; k < G_N; ++k)
        kept[k] = tokens[k];
    pools_kept = pools_alive;
}
NOSAN bool
pred_given_up(void*)
{
    for (int k = 0; k < G_N; ++k)
        if (tokens[k] != kept[k])
            return false;
    return pools_alive == pools_kept;
}
NOSAN bool
pred_reaped(void*)
{
    return !sim_nthreads_unreaped();
}
NOSAN bool
pred_expired(void* p)
{
    return sim_nthreads_alive() <= *(int*)p;
}
NOSAN void
check_given_up()
{
    if (o_settle(pred_given_up, nullptr, 45 * SEC))
        return;
    for (int k = 0; k < G_N; ++k)
        if (tokens[k] != kept[k])
            sim_fail("[X27,%s%s] what the operations or handlers of a %s (%d) refer to is still alive long after all "
                     "of it was given up",
                     kWhat[k],
                     qt_tag,
                     kOps[k],
                     tokens[k]);
    sim_fail("[X27,X04,X21] %d custom pool(s) still alive long after their last queue was given up",
             pools_alive - pools_kept);
}
void
run(const Prog& prog)
{
    P = &prog;
    crew = new Crew;
    sim_high_fds(prog.cfg[C_HIGH]);
    for (int i = 0; i < prog.cfg[C_POOL]; ++i)
        std::thread(crew_run).detach();
#ifdef XDSIM_QT
    qkit::force_qt = true;
    qkit::setup(0, 2);
    qt_tag = ",X23,X24";
#endif
    shared_queue = new queue("shared");
    round_no = new std::atomic<int>(0);
    int nth = (int)prog.cfg[C_THREADS];
    for (int x = 0; x < nth; ++x)
        keep[x] = new Keep((int)prog.cfg[C_KEPT]);
    keep_group = new group;
    keep_signal = prog.cfg[C_KEPT_GROUP] ? new Sig(*keep_group) : new Sig;
#ifdef XDSIM_QT
    keep_obj = new Obj;
    keep_obj->moveToThread(qt_loop_thread());
#endif
    remember_kept();
    for (int x = 0; x < nth; ++x)
        std::thread([x] {
            sim_mark_harness();
            for (int r = 1;; ++r) {
                await([r] { return round_no->load() >= r; }, 1000000 * SEC);
                for (int i = 0; i < P->n; ++i)
                    if (P->ins[i].th == x) {
                        mark_op(x, P->ins[i].op);
                        exec(P->ins[i]);
                    }
                mark_end();
            }
        }).detach();
    const bool expire = prog.cfg[C_EXPIRE];
    int base = -1;
    for (int r = 1;; ++r) {
        sim_probe(P_ROUNDS);
        round_no->store(r);
        int all = r * nth;
        if (!o_settle(pred_ended, &all, 120 * SEC))
            for (int x = 0; x < nth; ++x)
                sim_fail("[X27,%s%s] round %d does not end", kWhat[in_op[x]], qt_tag, r);
        check_given_up();
        // further rounds at leisure: what was left to threads starved so far gets done
        if (r == 14)
            sim_quiesce(1);
        sim_sleep(r >= 14 ? 12 * SEC : prog.cfg[C_PAUSE] * MS);
        if (expire) {
            // everybody is idle: one thread stays for the queues' bookkeeping
            int one = 1;
            if (!o_settle(pred_expired, &one, 100 * SEC))
                sim_fail("[X20,X27] %d threads are still alive long after the idle period", sim_nthreads_alive());
            sim_probe(P_EXPIRED);
            if (!o_settle(pred_reaped, nullptr, 10 * SEC))
                sim_fail("[X27,X20] %d ended threads are neither joined nor detached", sim_nthreads_unreaped());
            if (r >= 4)
                break;
            continue;
        }
        (void)base;
        int grown = sim_census();
        if (r >= 8 && grown < 5)
            break;
        if (r >= 22) {
            long n = (long)sim_census_live();
            sim_fail("[X27%s] the allocations made at one place grow with each of %d rounds (%ld by now)",
                     qt_tag, grown, n);
        }
    }
    sim_done();
}

void
gen(Rnd& r, Prog& p, int focus)
{
    const bool qt = focus == 1;
#ifndef XDSIM_QT
    if (qt)
        return;
#endif
    auto kind = [&]() -> int {
        return qt && r.chance(2, 3) ? (int)r.in(Q_QTTHREAD, Q_QTMAIN) : (int)r.in(0, Q_KINDS - 1);
    };
    p.cfg[C_KEPT] = kind();
    p.cfg[C_KEPT_GROUP] = r.chance(1, 4);
    int nth = (int)r.in(1, 2);
    p.cfg[C_THREADS] = nth;
    p.cfg[C_EXPIRE] = r.chance(1, 4);
    p.cfg[C_POOL] = r.in(1, 2);
    p.cfg[C_HIGH] = r.chance(1, 8);
    const long pauses[] = { 0, 1, 10, 100 };
    p.cfg[C_PAUSE] = r.pick(pauses);
    const long naps[] = { 0, 20 * US, 100 * US, 1 * MS };
    for (int t = 0; t < nth; ++t) {
        int n = (int)r.in(1, 4);
        for (int i = 0; i < n; ++i) {
            int g = qt && r.chance(1, 3) ? (int)G_QOBJ : (int)r.in(1, G_QOBJ - 1);
            int q = kind();
            long a = q, b = 0, c = 0, d = 0;
            switch (g) {
                case G_ASYNC:
                    b = r.in(1, 12);
                    c = r.pick(naps);
                    d = r.in(0, 3);
                    break;
                case G_GROUP: {
                    const long w[] = { -2, -1, 0, 1, 10 };
                    b = r.in(0, 6);
                    c = r.pick(w);
                    d = r.in(0, 3);
                    break;
                }
                case G_APPLY:
                    b = r.in(0, 8);
                    break;
                case G_AFTER:
                    b = r.in(0, 20);
                    c = r.in(1, 3);
                    break;
                case G_TIMER:
                    b = r.in(1, 10);
                    c = r.in(0, 6);
                    d = r.in(1, 3);
                    break;
                case G_NOTIFIER:
                    b = r.in(0, 1);
                    c = r.in(0, 4);
                    d = r.in(0, 1);
                    break;
                case G_SIGNAL:
                    b = r.in(0, 4);
                    c = r.in(0, 5);
                    d = r.in(0, 127);
                    break;
                case G_SBARRIER: {
                    b = r.in(0, 1);
                    c = r.in(-1, 2);
                    break;
                }
                case G_BARRIER:
                    b = r.in(0, 1);
                    c = r.in(0, 2);
                    d = r.in(-1, 2);
                    break;
                case G_WQ:
                    b = r.in(0, 6);
                    c = r.in(0, 3);
                    break;
                case G_BLOCK:
                    b = r.in(1, 4);
                    break;
                case G_KEEP_SIGNAL:
                    b = r.in(0, 3);
                    c = r.in(0, 4);
                    d = r.in(0, 7);
                    break;
                case G_KEEP_TIMER:
                    b = r.in(0, 5);
                    c = r.in(0, 2);
                    d = r.in(0, 1);
                    break;
                case G_KEEP_NOTIFIER:
                    d = r.in(0, 1);
                    break;
                case G_KEEP_GROUP: {
                    const long w[] = { -2, -1, 0, 1, 10 };
                    b = r.in(0, 6);
                    c = r.pick(w);
                    d = r.in(0, 3);
                    break;
                }
                case G_KEEP_WQ:
                    b = r.in(0, 6);
                    c = r.in(0, 3);
                    d = r.in(0, 3);
                    break;
                case G_QOBJ:
                    b = r.in(0, 3);
                    c = r.in(0, 4);
                    d = r.in(0, 63);
                    break;
            }
            prog_add(p, t, g, a, b, c, d);
            if (r.chance(1, 3))
                gen_sleep(r, p, t, G_SLEEP, naps, 50);
        }
    }
}
void
tune(Rnd& r, const Prog& p, sim_cfg& c, int focus)
{
    (void)r;
    (void)p;
    (void)focus;
    if (c.freeze_max_ns > 100 * MS)
        c.freeze_max_ns = 100 * MS;
    if (c.tjump_max_ns > 100 * MS)
        c.tjump_max_ns = 100 * MS;
    c.max_vtime = 100000 * SEC;
    c.max_steps = 4000000;
}
const char* const kFocus[] = { "all", "qt", nullptr };
} // namespace
extern const Family fam_rounds;
const Family fam_rounds = { "rounds", kOps, kCfg, kProbes, "X27,X23,X24", gen, run, tune, kFocus };
