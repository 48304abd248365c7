OQ = "src/naive/naive_operation_queue.cpp"
TP = "src/naive/naive_threadpool.cpp"
WQ = "src/waitable_queue.cpp"
bugs = {}

bugs["serial-backlog-wakeup"] = dict(
 prop="X02",
 needs="at least 64 operations pending on a serial queue while its drain is not running, i.e. before the first "
       "drain got a thread or while a drain has yielded to be fair",
 breaks="A second drain is queued for a growing backlog; two workers then drain the same serial queue at once, "
        "operations overlap and entries are popped that have not been executed",
 edits=[(OQ, """    const bool notify = m_jobs.empty();
    m_jobs.push_back(std::move(job));
""", """    // a growing backlog indicates that the thread is asleep
    constexpr size_t kBacklog = 64;
    const bool notify =
      m_jobs.empty() || (!m_active_drain && 0 == m_jobs.size() % kBacklog);
    m_jobs.push_back(std::move(job));
""")],
 demo=r'''
#include "d.h"
int main()
{
    limit(60, "serial queue");
    xdispatch::queue q("serial");
    std::atomic<int> active{ 0 }, runs{ 0 };
    const int n = 3000;
    for (int i = 0; i < n; ++i)
        q.async([&] {
            check(1 == ++active, "operations of a serial queue overlap");
            if (runs % 50 == 0)
                nap(1);
            ++runs;
            --active;
        });
    check(until([&] { return runs == n; }, 20), "operations lost");
    nap(50);
    check(runs == n, "operations repeated");
    pass();
}
''')

bugs["destroy-op-locked"] = dict(
 prop="X04",
 needs="an operation of a serial queue whose destruction (of something it captured) submits to the same queue",
 breaks="The executed operation is released while the queue is locked, a destructor calling back into the queue "
        "deadlocks the worker and with it everybody submitting to the queue",
 edits=[(OQ, """                process_job(*job);
                job.reset();
""", """                process_job(*job);
""")],
 demo=r'''
#include "d.h"
int main()
{
    limit(20, "operation submitted by a destructor");
    xdispatch::queue q("serial");
    std::atomic<bool> done{ false };
    struct Closer
    {
        xdispatch::queue q;
        std::atomic<bool>& done;
        ~Closer() { auto* d = &done; q.async([d] { *d = true; }); }
    };
    // make sure the operation is the last owner
    std::atomic<bool> go{ false };
    {
        auto c = std::shared_ptr<Closer>(new Closer{ q, done });
        q.async([c, &go] { while (!go) nap(1); });
    }
    go = true;
    check(until([&] { return done.load(); }, 10), "the queue is stuck");
    pass();
}
''')

bugs["queue-freed-while-draining"] = dict(
 prop="X04", kind="asan",
 needs="the manager thread releases a detached serial queue before the worker returned from the drain that executed "
       "its last operation",
 breaks="The destructor of the queue no longer waits for the drain to return, the worker then uses freed memory",
 edits=[(OQ, """    while (active_drain && yield_drain());
""", """    while (active_drain && m_jobs.empty() && yield_drain());
""")],
 demo=r'''
#include "d.h"
#include <dlfcn.h>
// delays the worker before it locks the queue again
static thread_local int s_delay = 0;
extern "C" int pthread_mutex_lock(pthread_mutex_t* m)
{
    using fn = int (*)(pthread_mutex_t*);
    static fn real = (fn)dlsym(RTLD_NEXT, "pthread_mutex_lock");
    if (s_delay && 0 == --s_delay)
        usleep(100000);
    return real(m);
}
int main()
{
    limit(60, "serial queue");
    for (int lock = 1; lock < 12; ++lock) {
        std::atomic<bool> done{ false }, go{ false };
        {
            xdispatch::queue q("serial");
            q.async([&, lock] {
                while (!go)
                    nap(1);
                s_delay = lock;
                done = true;
            });
        }
        nap(5);
        go = true;
        check(until([&] { return done.load(); }, 10), "lost operation");
        nap(150);
        xdispatch::global_queue().apply(8, [](size_t) { s_delay = 0; });
    }
    pass();
}
''')

bugs["wq-wait-all-active"] = dict(
 prop="X18",
 needs="wait_for_all while the last pending operation of a waitable queue is being executed by another thread",
 breaks="wait_for_all returns although an operation submitted before is still executing",
 edits=[(WQ, """        while (m_active || !m_operations.empty()) {
""", """        while (!m_operations.empty()) {
""")],
 demo=r'''
#include "d.h"
#include <xdispatch/waitable_queue.h>
int main()
{
    limit(30, "wait_for_all");
    xdispatch::waitable_queue q("w");
    std::atomic<bool> started{ false }, done{ false };
    q.async([&] { started = true; nap(300); done = true; });
    check(until([&] { return started.load(); }, 10), "not started");
    q.wait_for_all();
    check(done, "wait_for_all returned before the operation finished");
    pass();
}
''')

bugs["wq-notify-one"] = dict(
 prop="X18",
 needs="a thread waiting for the running operation of a waitable queue at the same time as another waiter or a "
       "second worker of the queue",
 breaks="Only one of the threads waiting for the active operation is woken up; the others wait forever once no "
        "further operation completes",
 edits=[(WQ, """        m_active = false;
        m_cond.notify_all();
""", """        m_active = false;
        m_cond.notify_one();
""")],
 demo=r'''
#include "d.h"
#include <xdispatch/waitable_queue.h>
int main()
{
    limit(30, "waiting for one operation each");
    xdispatch::waitable_queue q("w");
    std::atomic<bool> started{ false };
    std::atomic<int> returned{ 0 };
    q.async([&] { started = true; nap(300); });
    check(until([&] { return started.load(); }, 10), "not started");
    for (int i = 0; i < 6; ++i)
        std::thread([&] { q.wait_for_all(); ++returned; }).detach();
    check(until([&] { return returned == 6; }, 10), "a waiter was never woken up");
    pass();
}
''')

bugs["apply-single-inline"] = dict(
 prop="X05",
 needs="an apply with exactly one iteration on a serial queue that is busy",
 breaks="The single iteration is executed on the calling thread without waiting for its turn, it overlaps with the "
        "operations of the queue and overtakes those submitted before",
 edits=[("src/naive/naive_serial_queue.cpp", """    void apply(size_t times, const iteration_operation_ptr& op) final
    {
        const auto completed""", """    void apply(size_t times, const iteration_operation_ptr& op) final
    {
        if (1 == times) {
            // no need for the overhead of waking up a thread
            execute_operation_on_this_thread(*op, times - 1);
            return;
        }

        const auto completed"""),
        ("src/naive/naive_serial_queue.cpp", """        completed->wait_for_consumed();

        // FIXME""", """        if (times > 0) {
            completed->wait_for_consumed();
        }

        // FIXME""")],
 demo=r'''
#include "d.h"
int main()
{
    limit(30, "apply");
    xdispatch::queue q("serial");
    std::atomic<bool> first{ false };
    q.async([&] { nap(200); first = true; });
    bool ok = false;
    q.apply(1, [&](size_t) { ok = first; });
    check(ok, "iteration overtook an operation submitted before");
    pass();
}
''')

bugs["notify-waits-on-target"] = dict(
 prop="X07",
 needs="a notification on a serial queue and an operation of the group submitted to that same queue after the "
       "notification was registered",
 breaks="The notification occupies its target queue while waiting for the group, so a group operation queued "
        "behind it can never run and neither does the notification",
 edits=[("src/naive/naive_group.cpp", """            this_ptr->wait(std::chrono::milliseconds(-1));
            q->async(op);
        });

        // FIXME(zwicker): Add accessors to execute with the queue's priority
        m_pool->execute(notify_op, queue_priority::DEFAULT);
""", """            this_ptr->wait(std::chrono::milliseconds(-1));
            execute_operation_on_this_thread(*op);
        });

        // saves borrowing a thread from the pool
        q->async(notify_op);
""")],
 demo=r'''
#include "d.h"
int main()
{
    limit(30, "notification");
    xdispatch::queue q("serial");
    xdispatch::group g;
    std::atomic<bool> notified{ false };
    g.async([&] { nap(200); g.async([] {}, q); nap(200); });
    g.notify([&] { notified = true; }, q);
    check(until([&] { return notified.load(); }, 10), "never notified");
    pass();
}
''')

bugs["timer-catch-up"] = dict(
 prop="X10",
 needs="a periodic timer whose handler once takes longer than the interval",
 breaks="Firings that were missed are made up for, they follow each other without the interval in between",
 edits=[("src/naive/naive_timer.cpp", """            while (this_ptr->m_running > 0 &&
""", """            auto due = std::chrono::steady_clock::now();
            while (this_ptr->m_running > 0 &&
"""), ("src/naive/naive_timer.cpp", """                    std::this_thread::sleep_for(interval);
""", """                    // avoid drifting
                    due += interval;
                    std::this_thread::sleep_until(due);
""")],
 demo=r'''
#include "d.h"
int main()
{
    limit(30, "timer");
    xdispatch::timer t(100ms, xdispatch::queue("serial"));
    std::mutex m;
    std::vector<clk::time_point> starts;
    t.handler([&] {
        size_t n;
        {
            std::lock_guard<std::mutex> lock(m);
            starts.push_back(clk::now());
            n = starts.size();
        }
        if (2 == n)
            nap(500);
    });
    t.resume();
    nap(1500);
    t.cancel();
    for (size_t i = 1; i < starts.size(); ++i)
        check(starts[i] - starts[i - 1] > 60ms, "firings closer than the interval");
    check(starts.size() >= 4, "timer does not fire");
    pass();
}
''')

bugs["notifier-gives-up-idle"] = dict(
 prop="X12",
 needs="a socket that does not become ready for five seconds after a notifier was resumed",
 breaks="The notifier ends its watch when nothing happened for the period after which it should just look again, "
        "later readiness is never reported",
 edits=[("src/naive/naive_socket_notifier.cpp", """                if (res == 0) {
                    // timeout, try again
                } else""", """                if (res == 0) {
                    // timeout, release the thread
                    break;
                } else""")],
 demo=r'''
#include "d.h"
#include <sys/socket.h>
int main()
{
    limit(40, "notifier");
    int s[2];
    check(0 == socketpair(AF_UNIX, SOCK_STREAM, 0, s), "socketpair");
    std::atomic<int> n{ 0 };
    xdispatch::socket_notifier r(s[0], xdispatch::notifier_type::READ, xdispatch::queue("serial"));
    r.handler([&](xdispatch::socket_t fd, xdispatch::notifier_type) {
        char c;
        if (read((int)fd, &c, 1) == 1)
            ++n;
    });
    r.resume();
    nap(6500);
    check(1 == write(s[1], "x", 1), "write");
    check(until([&] { return n == 1; }, 12), "readiness after six quiet seconds was not reported");
    r.cancel();
    pass();
}
''')

bugs["notifier-cancel-keeps-watching"] = dict(
 prop="X13",
 needs="cancelling a notifier while it is watching its socket and the socket being ready afterwards",
 breaks="The watch does not end with the cancel: it keeps occupying its thread and spins as long as the socket is "
        "ready",
 edits=[("src/naive/naive_socket_notifier.cpp", """            m_resume_counter = -1;
            ++m_worker_cookie;
""", """            m_resume_counter = -1;
""")],
 demo=r'''
#include "d.h"
#include <sys/socket.h>
#include <sys/resource.h>
int main()
{
    limit(40, "notifier");
    int s[2];
    check(0 == socketpair(AF_UNIX, SOCK_STREAM, 0, s), "socketpair");
    auto alive = std::make_shared<int>(1);
    std::weak_ptr<int> weak = alive;
    {
        xdispatch::socket_notifier r(s[0], xdispatch::notifier_type::READ, xdispatch::queue("serial"));
        r.handler([alive](xdispatch::socket_t, xdispatch::notifier_type) {});
        alive.reset();
        r.resume();
        nap(100);
        r.cancel();
    }
    check(1 == write(s[1], "x", 1), "write");
    check(until([&] { return weak.expired(); }, 12), "cancelled notifier is still watching");
    pass();
}
''')

bugs["batch-pending-until-done"] = dict(
 prop="X15",
 needs="an emit while the handler of a batched connection is executing and no further emit afterwards",
 breaks="The emit is counted as still pending although the handler has started already, so the update is missed",
 edits=[("include/xdispatch/signals.h", """                    if (cancel_scope && !batch->m_skipped) {
                        batch->m_pending--;
                        std::static_pointer_cast<connection_handler_t>(handler)
                          ->m_func(argList...);
                    }
                };
""", """                    if (cancel_scope && !batch->m_skipped) {
                        const auto connected =
                          std::static_pointer_cast<connection_handler_t>(
                            handler);
                        connected->m_func(argList...);
                        batch->m_pending--;
                    }
                };
""")],
 demo=r'''
#include "d.h"
#include <xdispatch/signals.h>
int main()
{
    limit(30, "signal");
    xdispatch::signal<void(int)> s;
    std::atomic<int> last{ 0 };
    std::atomic<bool> started{ false };
    auto c = s.connect([&](int v) { last = v; started = true; nap(300); },
                       xdispatch::queue("serial"), xdispatch::notification_mode::batch_updates);
    s(1);
    check(until([&] { return started.load(); }, 10), "not started");
    s(2);
    check(until([&] { return last == 2; }, 5), "last update missed");
    c.disconnect();
    pass();
}
''')

bugs["scoped-move-keeps-old"] = dict(
 prop="X16",
 needs="move-assigning a scoped connection to one that already manages another connection",
 breaks="The connection managed before is not disconnected, its handler is still invoked",
 edits=[("src/signals.cpp", """scoped_connection::operator=(scoped_connection&& other) noexcept
{
    connection::disconnect();
    connection::operator=(other);
""", """scoped_connection::operator=(scoped_connection&& other) noexcept
{
    connection::operator=(std::move(other));
""")],
 demo=r'''
#include "d.h"
#include <xdispatch/signals.h>
int main()
{
    limit(30, "signal");
    xdispatch::signal<void(int)> s;
    std::atomic<int> a{ 0 }, b{ 0 };
    xdispatch::queue q("serial");
    xdispatch::scoped_connection c(s.connect([&](int) { ++a; }, q));
    c = xdispatch::scoped_connection(s.connect([&](int) { ++b; }, q));
    s(1);
    check(until([&] { return b == 1; }, 5), "new connection does not work");
    nap(100);
    check(a == 0, "replaced connection is still invoked");
    pass();
}
''')

bugs["blocked-only-without-idle"] = dict(
 prop="X20",
 needs="threads entering blocking sections while others are idle, at least as many as the pool's size over its "
       "lifetime",
 breaks="The limit is raised only if no thread is idle but lowered at the end of every blocking section: it drifts "
        "down and the pool loses capacity for good",
 edits=[(TP, """    const auto max_threads =
      m_data->m_max_threads.fetch_add(1, std::memory_order_acq_rel) + 1;
    const auto active =
      m_data->m_active_threads.load(std::memory_order_consume);
    const auto idle = m_data->m_idle_threads.load(std::memory_order_consume);
    XDISPATCH_TP_TRACE(this, active, idle)
      << "Increased""", """    const auto active =
      m_data->m_active_threads.load(std::memory_order_consume);
    const auto idle = m_data->m_idle_threads.load(std::memory_order_consume);
    // idle threads can take over without another one
    const auto extra = idle > 1 ? 0 : 1;
    const auto max_threads =
      m_data->m_max_threads.fetch_add(extra, std::memory_order_acq_rel) + extra;
    XDISPATCH_TP_TRACE(this, active, idle)
      << "Increased""")],
 demo=r'''
#include "d.h"
int main()
{
    limit(60, "operations");
    auto g = xdispatch::global_queue();
    // create some threads
    std::atomic<int> n{ 0 };
    for (int i = 0; i < 6; ++i)
        g.async([&] { nap(100); ++n; });
    check(until([&] { return n == 6; }, 10), "warm up");
    nap(200);
    for (int i = 0; i < 300; ++i) {
        xdispatch::group w;
        std::atomic<bool> done{ false };
        g.async([&] {
            xdispatch::group inner;
            inner.async([] { nap(1); });
            inner.wait();
            done = true;
        });
        check(until([&] { return done.load(); }, 10), "blocking section");
    }
    // the pool has two workers per core
    const int m = 2 * (int)std::thread::hardware_concurrency() - 1;
    std::atomic<int> in{ 0 }, out{ 0 };
    std::atomic<bool> late{ false };
    for (int i = 0; i < m; ++i)
        g.async([&] {
            ++in;
            if (!until([&] { return in >= m; }, 10))
                late = true;
            ++out;
        });
    until([&] { return out == m; }, 25);
    check(!late, "capacity lost");
    pass();
}
''')

bugs["schedule-before-release"] = dict(
 prop="X20", t=150,
 needs="an operation submitted while the only idle worker is just expiring: the worker is seen idle but ends before "
       "the operation is counted",
 breaks="The check for a worker is done before the operation was made available, an expiring worker does not see it "
        "and nobody else is started, so the operation is stuck until unrelated work arrives",
 edits=[(TP, """    if (enqueued) {
        m_data->m_operations_counter.release();
    }
    schedule(m_data);
""", """    schedule(m_data);
    if (enqueued) {
        m_data->m_operations_counter.release();
    }
""")],
 pre="export XDISPATCH2_TRACE=1\n",
 demo=r'''
#include "d.h"
#include <cstring>
// the trace is used to delay the submitter right after it saw the idle worker
struct Slow : std::streambuf
{
    std::string line;
    std::atomic<bool> on{ false };
    int overflow(int c) override
    {
        if (c == '\n')
            line.clear();
        else
            line += (char)c;
        if (on && line.size() > 19 && line.find("Woke an idle thread") != std::string::npos) {
            on = false;
            line.clear();
            usleep(3000000);
        }
        return c;
    }
};
int main()
{
    limit(120, "demo");
    static Slow slow;
    std::cerr.rdbuf(&slow);
    auto g = xdispatch::global_queue();
    std::atomic<int> n{ 0 };
    g.async([&] { ++n; });
    check(until([&] { return n == 1; }, 10), "first operation");
    // idle since the thread has nothing to do, expires after 30 s
    nap(28800);
    slow.on = true;
    g.async([&] { ++n; });
    check(until([&] { return n == 2; }, 10), "operation submitted around the expiry is stuck");
    pass();
}
''')

bugs["priority-fair-rotation"] = dict(
 prop="X22",
 needs="more than 16 operations of the same priority taken by a worker in a row while lower ones are pending",
 breaks="After a number of operations of the same priority a lower one is picked although higher ones are pending",
 edits=[(TP, """        int last_label = -1;
""", """        int last_label = -1;
        int streak = 0;
"""), (TP, """                for (label = 0; !m_data->m_cancelled; ++label) {
""", """                // after a while have a look at the lower ones
                constexpr int kMaxStreak = 16;
                for (label = streak++ < kMaxStreak ? 0 : 1;
                     !m_data->m_cancelled;
                     ++label) {
"""), (TP, """                XDISPATCH_ASSERT(op);
            }
""", """                XDISPATCH_ASSERT(op);
                if (0 != label) {
                    streak = 0;
                }
            }
""")],
 demo=r'''
#include "d.h"
int main()
{
    limit(60, "operations");
    auto hi = xdispatch::global_queue(xdispatch::queue_priority::USER_INTERACTIVE);
    auto lo = xdispatch::global_queue(xdispatch::queue_priority::BACKGROUND);
    const int workers = 2 * (int)std::thread::hardware_concurrency();
    std::atomic<bool> go{ false };
    std::atomic<int> in{ 0 }, done{ 0 };
    // occupy all of the pool
    for (int i = 0; i < 4 * workers; ++i)
        hi.async([&] { ++in; while (!go) nap(1); });
    nap(500);
    const int n = 400 * workers;
    std::atomic<int> early{ 0 }, highs{ 0 };
    for (int i = 0; i < workers; ++i)
        lo.async([&] { if (highs < n / 2) ++early; ++done; });
    for (int i = 0; i < n; ++i)
        hi.async([&] { ++highs; usleep(20); });
    go = true;
    check(until([&] { return done == workers; }, 30), "operations lost");
    check(early == 0, "low priority operations before higher ones");
    pass();
}
''')

bugs["barrier-notify-one"] = dict(
 prop="X08",
 needs="two threads waiting for the same completion barrier before it completes",
 breaks="Only one of several waiters is released",
 edits=[("src/lightweight_barrier.cpp", """        m_done = true;
        m_cond.notify_all();
""", """        m_done = true;
        m_cond.notify_one();
""")],
 demo=r'''
#include "d.h"
#include <xdispatch/barrier_operation.h>
int main()
{
    limit(30, "barrier");
    auto b = std::make_shared<xdispatch::barrier_operation>();
    std::atomic<int> n{ 0 };
    for (int i = 0; i < 3; ++i)
        std::thread([&, b] { b->wait(); ++n; }).detach();
    nap(200);
    xdispatch::global_queue().async(b);
    check(until([&] { return n == 3; }, 10), "a waiter was not released");
    pass();
}
''')

bugs["barrier-second-waiter-timeout"] = dict(
 prop="X08",
 needs="a timed wait for a barrier somebody else is waiting for already, and the barrier not completing",
 breaks="The timeout is ignored for every waiter but the first",
 edits=[("src/lightweight_barrier.cpp", """    return previous->wait(timeout);
""", """    return previous->wait();
""")],
 demo=r'''
#include "d.h"
#include <xdispatch/barrier_operation.h>
int main()
{
    limit(30, "timed wait");
    auto b = std::make_shared<xdispatch::barrier_operation>();
    std::thread([b] { b->wait(); }).detach();
    nap(200);
    check(!b->wait(200ms), "barrier was not executed");
    pass();
}
''')

bugs["delay-overflow"] = dict(
 prop="X09",
 needs="a delay of more than 35 minutes",
 breaks="The delay is rounded to timer ticks in an integer of 32 bits which overflows: long delays fire at once",
 edits=[("src/naive/naive_operations.cpp", """    delayed_op->m_timer->resume(delay);
""", """    // round up to the resolution of the timer
    constexpr int kTickUs = 500;
    const int us = static_cast<int>(std::chrono::microseconds(delay).count());
    const int ticks = (us + kTickUs - 1) / kTickUs;
    delayed_op->m_timer->resume(
      std::chrono::milliseconds(ticks * kTickUs / 1000));
""")],
 demo=r'''
#include "d.h"
int main()
{
    limit(30, "delayed operation");
    std::atomic<bool> early{ false };
    xdispatch::queue q("serial");
    for (int minutes : { 30, 36, 40, 60, 72, 90, 100, 150, 200 })
        q.after(std::chrono::minutes(minutes), [&] { early = true; });
    nap(1000);
    check(!early, "operation executed long before its delay");
    std::atomic<bool> done{ false };
    q.after(50ms, [&] { done = true; });
    check(until([&] { return done.load(); }, 10), "short delay lost");
    pass();
}
''')

bugs["chain-async"] = dict(
 prop="X14",
 needs="chained signals, several emits in quick succession and two workers overtaking each other while forwarding",
 breaks="A chained signal is emitted from the pool instead of synchronously: emits reach the connections of the "
        "chained signal in another order",
 edits=[("include/xdispatch/signals.h", """                       notification_mode::_synchronous_update);
    }
""", """                       notification_mode::single_updates);
    }
""")],
 demo=r'''
#include "d.h"
#include <xdispatch/signals.h>
int main()
{
    limit(60, "signals");
    xdispatch::signal<void(int)> a, b;
    auto link = a.connect(b);
    std::atomic<int> n{ 0 }, last{ -1 };
    auto c = b.connect([&](int v) {
        check(v == last + 1, "emits forwarded out of order");
        last = v;
        ++n;
    }, xdispatch::queue("serial"));
    const int total = 20000;
    for (int i = 0; i < total; ++i)
        a(i);
    check(until([&] { return n == total; }, 30), "emits lost");
    pass();
}
''')

bugs["group-wait-zero"] = dict(
 prop="X06",
 needs="a group wait with a timeout of zero while operations are outstanding",
 breaks="A wait of zero length blocks until the group is complete instead of reporting at once",
 edits=[("src/group.cpp", """    return m_impl->wait(t);
""", """    // only positive times are limits
    return m_impl->wait(t > std::chrono::milliseconds(0)
                          ? t
                          : std::chrono::milliseconds(-1));
""")],
 demo=r'''
#include "d.h"
int main()
{
    limit(30, "polling a group");
    xdispatch::group g;
    std::atomic<bool> go{ false };
    g.async([&] { while (!go) nap(1); });
    nap(50);
    std::atomic<bool> polled{ false };
    std::thread t([&] { check(!g.wait(0ms), "group is not complete"); polled = true; });
    check(until([&] { return polled.load(); }, 5), "wait of zero length blocks");
    go = true;
    t.join();
    pass();
}
''')

bugs["release-unlocked-notify"] = dict(
 prop="X01", t=150,
 needs="an operation submitted between a worker's last look at the counter and its going to sleep",
 breaks="The wake-up may get lost, the operation is only found when the worker's idle time is over",
 edits=[("src/naive/naive_semaphore.cpp", """        std::unique_lock<std::mutex> lock(m_CS);
        if (1 == count) {
""", """        // no need to have the woken thread wait for the lock
        if (1 == count) {
""")],
 demo=r'''
#include "d.h"
#include <dlfcn.h>
// delays going to sleep while the lock is still held
static std::atomic<bool> s_inside{ false };
static std::atomic<int> s_arm{ 0 };
extern "C" int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t k, const struct timespec* t)
{
    using fn = int (*)(pthread_cond_t*, pthread_mutex_t*, clockid_t, const struct timespec*);
    static fn real = (fn)dlsym(RTLD_NEXT, "pthread_cond_clockwait");
    if (s_arm > 0 && s_arm-- == 1) {
        s_inside = true;
        usleep(300000);
    }
    return real(c, m, k, t);
}
int main()
{
    limit(100, "demo");
    auto g = xdispatch::global_queue();
    std::atomic<int> n{ 0 };
    s_arm = 1;
    g.async([&] { ++n; });
    check(until([&] { return s_inside.load(); }, 10), "worker does not idle");
    g.async([&] { ++n; });
    check(until([&] { return n == 2; }, 10), "operation not executed while the worker sleeps");
    pass();
}
''')

bugs["expiry-no-recovery"] = dict(
 prop="X20", t=150,
 needs="an operation submitted between a worker's idle time running out and its leaving the books",
 breaks="The expiring worker does not look for work a last time: work added by somebody relying on it is stuck",
 edits=[(TP, """                        if (m_data->m_operations_counter.try_acquire()) {
                            // found another operation, restore the active
                            // counter and go pick/execute that operation
                            m_data->m_active_threads.fetch_add(
                              1, std::memory_order_release);
                        } else {
                            break;
                        }
""", """                        // (the counter was checked by the wait already)
                        break;
""")],
 demo=r'''
#include "d.h"
#include <dlfcn.h>
#include <cerrno>
// delays the worker between its timeout and the update of the books
static thread_local int s_delay = 0;
static std::atomic<bool> s_inside{ false };
extern "C" int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t k, const struct timespec* t)
{
    using fn = int (*)(pthread_cond_t*, pthread_mutex_t*, clockid_t, const struct timespec*);
    static fn real = (fn)dlsym(RTLD_NEXT, "pthread_cond_clockwait");
    int r = real(c, m, k, t);
    if (ETIMEDOUT == r)
        s_delay = 1;
    return r;
}
extern "C" int pthread_mutex_unlock(pthread_mutex_t* m)
{
    using fn = int (*)(pthread_mutex_t*);
    static fn real = (fn)dlsym(RTLD_NEXT, "pthread_mutex_unlock");
    int r = real(m);
    if (s_delay) {
        s_delay = 0;
        s_inside = true;
        usleep(500000);
    }
    return r;
}
int main()
{
    limit(120, "demo");
    auto g = xdispatch::global_queue();
    std::atomic<int> n{ 0 };
    g.async([&] { ++n; });
    check(until([&] { return s_inside.load(); }, 60), "worker does not expire");
    g.async([&] { ++n; });
    check(until([&] { return n == 2; }, 10), "operation submitted around the expiry is stuck");
    pass();
}
''')

bugs["timer-blocks-worker"] = dict(
 prop="X19",
 needs="more resumed periodic timers than the pool has workers",
 breaks="A timer declares its thread as blocked for its initial delay only and occupies a worker in between "
        "firings, many timers leave no thread for other operations",
 edits=[("src/naive/naive_timer.cpp", """            ithreadpool::block_scope blocked;
            std::this_thread::sleep_for(delay);
""", """            {
                ithreadpool::block_scope blocked;
                std::this_thread::sleep_for(delay);
            }
""")],
 demo=r'''
#include "d.h"
int main()
{
    limit(60, "demo");
    std::vector<std::unique_ptr<xdispatch::timer>> timers;
    xdispatch::queue q("serial");
    std::atomic<int> fired{ 0 };
    const int n = 3 * 2 * (int)std::thread::hardware_concurrency();
    for (int i = 0; i < n; ++i) {
        timers.emplace_back(new xdispatch::timer(std::chrono::hours(1), q));
        timers.back()->handler([&] { ++fired; });
        timers.back()->resume(10ms);
    }
    until([&] { return fired == n; }, 2);
    nap(500);
    std::atomic<bool> done{ false };
    xdispatch::global_queue().async([&] { done = true; });
    check(until([&] { return done.load(); }, 10), "no thread left for an operation");
    pass();
}
''')
