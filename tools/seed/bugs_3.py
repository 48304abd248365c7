TP = "src/naive/naive_threadpool.cpp"
QP = "src/qt5/qt5_threadpool.cpp"
QS = "src/qt5/qt5_serial_queue.cpp"
LB = "src/lightweight_barrier.cpp"
OQ = "src/naive/naive_operation_queue.cpp"
SN = "src/naive/naive_socket_notifier.cpp"
SIG = "src/signals.cpp"
SIGH = "include/xdispatch/signals.h"
WQ = "src/waitable_queue.cpp"
SQ = "src/naive/naive_serial_queue.cpp"
bugs = {}

bugs["barrier-waiter-leak"] = dict(
 prop="X27",
 needs="many barriers that are waited for before they complete",
 breaks="Completing a barrier replaces the waiter installed by those waiting, nobody owns it from then on and every "
        "such barrier leaks it",
 edits=[(LB, """    auto* previous = kNoOwner;
    if (m_owner.compare_exchange_strong(
          previous, kCompleted, std::memory_order_acq_rel)) { // NOLINT
""", """    auto* previous = m_owner.exchange(kCompleted, std::memory_order_acq_rel);
    if (kNoOwner == previous) { // NOLINT
""")],
 demo=r'''
#include "d.h"
#include <xdispatch/barrier_operation.h>
#include <malloc.h>
int main()
{
    limit(80, "barriers");
    xdispatch::queue q("serial");
    auto round = [&] {
        std::atomic<bool> waiting{ false };
        auto b = std::make_shared<xdispatch::barrier_operation>();
        q.async([&] { while (!waiting) std::this_thread::yield(); nap(1); });
        q.async(b);
        waiting = true;
        check(b->wait(), "not waited");
    };
    auto used = [] { nap(20); return mallinfo2().uordblks; };
    for (int i = 0; i < 300; ++i)
        round();
    const auto before = used();
    for (int i = 0; i < 3000; ++i)
        round();
    const auto after = used();
    fprintf(stderr, "%zu -> %zu\n", (size_t)before, (size_t)after);
    check(after < before + 3000 * 40, "memory is accumulating");
    pass();
}
''')

bugs["notifier-cancel-locked"] = dict(
 prop="X13",
 needs="cancel() of a notifier by one thread while its handler is running and uses the same notifier",
 breaks="cancel waits for the active handler with the notifier still locked, a handler that suspends or cancels its "
        "notifier at that moment never returns, nor does the cancel",
 edits=[(SN, """            ++m_worker_cookie;
        }
        m_handler_cancelable.disable();
""", """            ++m_worker_cookie;
            m_handler_cancelable.disable();
        }
""")],
 demo=r'''
#include "d.h"
#include <sys/socket.h>
int main()
{
    limit(20, "cancel");
    int s[2];
    check(0 == socketpair(AF_UNIX, SOCK_STREAM, 0, s), "socketpair");
    xdispatch::queue q("serial");
    xdispatch::socket_notifier n(s[0], xdispatch::notifier_type::READ, q);
    std::atomic<bool> started{ false };
    n.handler([&](xdispatch::socket_t, xdispatch::notifier_type) {
        char c;
        if (1 != read(s[0], &c, 1)) c = 0;
        started = true;
        nap(300);
        n.suspend();
    });
    n.resume();
    check(1 == write(s[1], "x", 1), "write");
    check(until([&] { return started.load(); }, 10), "never ready");
    n.cancel();
    pass();
}
''')

bugs["drain-early-wake"] = dict(
 prop="X02",
 needs="more than ten operations pending on a serial queue and the last one of the batch still running when another "
       "thread picks up the next batch",
 breaks="To save a wakeup the next batch is announced right before the last operation of the current one is run, "
        "another thread then starts draining the same queue concurrently",
 edits=[(OQ, """        std::swap(m_jobs.front(), job);
        {
""", """        std::swap(m_jobs.front(), job);
        // not all jobs will be drained but to ensure fairness
        // we do not continue but let others make use of our thread first.
        // Queue another wakeup already so that it is ready when we are done
        if (1 == remaining && m_jobs.size() > 1) {
            XDISPATCH_Q_TRACE("yield");
            notify_unsafe();
            yielded = true;
        }
        {
"""), (OQ, """    while (0 != remaining) {
""", """    bool yielded = false;
    while (0 != remaining) {
"""), (OQ, """    if (!m_jobs.empty()) {
        // not all jobs have been drained but to ensure fairness
        // we do not continue but let others make use of our thread
        // first. Queue another wakeup from here
""", """    if (!m_jobs.empty() && !yielded) {
        // further jobs were added in the meantime, queue a wakeup from here
""")],
 demo=r'''
#include "d.h"
int main()
{
    limit(60, "serial");
    xdispatch::queue q("serial");
    std::atomic<int> active{ 0 }, done{ 0 };
    for (int i = 0; i < 40; ++i)
        q.async([&] {
            check(1 == ++active, "two operations of a serial queue at once");
            nap(20);
            --active;
            ++done;
        });
    check(until([&] { return done == 40; }, 30), "operations missing");
    pass();
}
''')

bugs["disconnect-second-returns"] = dict(
 prop="X16",
 needs="two threads disconnecting the same connection while its handler is running",
 breaks="Only the disconnect that removed the handler waits for it, the other one returns while the handler is still "
        "being executed",
 edits=[(SIG, """    if (c_handler) {
        c_handler->disable();
    }
    return disconnected;
""", """    if (disconnected) {
        c_handler->disable();
    }
    return disconnected;
""")],
 demo=r'''
#include "d.h"
#include <xdispatch/signals.h>
int main()
{
    limit(30, "disconnect");
    xdispatch::signal<void(int)> s;
    std::atomic<bool> started{ false }, done{ false };
    xdispatch::connection c = s.connect([&](int) { started = true; nap(500); done = true; });
    s(1);
    check(until([&] { return started.load(); }, 10), "not started");
    xdispatch::connection a = c, b = c;
    std::thread t([&] { a.disconnect(); check(done, "first returned early"); });
    nap(100);
    b.disconnect();
    check(done, "disconnect returned while the handler is active");
    t.join();
    pass();
}
''')

bugs["block-checks-before-raising"] = dict(
 prop="X19", t=100, pre="XDISPATCH2_TRACE=1 ",
 needs="all threads of the pool busy and an operation submitted right between a thread looking for pending operations "
       "and raising the limit as it is going to block",
 breaks="Whether another thread is needed is decided before the limit is raised; the submitter still sees the old "
        "limit and does not start one either, the operation stays pending although the blocked thread waits for it",
 edits=[(TP, """    const auto max_threads =
      m_data->m_max_threads.fetch_add(1, std::memory_order_acq_rel) + 1;
    const auto active =
      m_data->m_active_threads.load(std::memory_order_consume);
    const auto idle = m_data->m_idle_threads.load(std::memory_order_consume);
    XDISPATCH_TP_TRACE(this, active, idle)
      << "Increased threadcount to " << max_threads;
    schedule(m_data);
""", """    const auto active =
      m_data->m_active_threads.load(std::memory_order_consume);
    const auto idle = m_data->m_idle_threads.load(std::memory_order_consume);
    // no need for another thread unless there is something to be executed
    const bool pending = m_data->m_operations_counter.available();
    XDISPATCH_TP_TRACE(this, active, idle) << "Increasing threadcount";
    m_data->m_max_threads.fetch_add(1, std::memory_order_acq_rel);
    if (pending) {
        schedule(m_data);
    }
""")],
 demo=r'''
#include "d.h"
#include <xdispatch/backend_naive_ithreadpool.h>
#include <xdispatch/barrier_operation.h>
// a slow console
struct slow_buf : std::streambuf
{
    int overflow(int c) override { nap(1); return c; }
    std::streamsize xsputn(const char*, std::streamsize n) override { nap(3); return n; }
};
int main()
{
    limit(70, "operations waiting for one another");
    static slow_buf slow;
    std::cerr.rdbuf(&slow);
    auto pool = xdispatch::global_queue();
    const int n = 2 * (int)std::thread::hardware_concurrency();
    // occupy all threads but one
    std::atomic<bool> go{ false };
    std::atomic<int> busy{ 0 };
    for (int i = 0; i < n - 1; ++i)
        pool.async([&] { ++busy; while (!go) nap(1); });
    check(until([&] { return busy == n - 1; }, 20), "not busy");
    for (int i = 0; i < 40; ++i) {
        std::atomic<bool> running{ false }, done{ false };
        auto release = std::make_shared<xdispatch::barrier_operation>();
        pool.async([&] {
            running = true;
            xdispatch::naive::ithreadpool::block_scope blocked;
            release->wait();
            done = true;
        });
        check(until([&] { return running.load(); }, 10), "not started");
        nap(i % 20);
        pool.async(release);
        check(until([&] { return done.load(); }, 10), "the released operation does not make progress");
    }
    go = true;
    pass();
}
''')

bugs["chained-emit-moves"] = dict(
 prop="X14",
 needs="a chained signal connected before another connection, and an argument whose value can be moved",
 breaks="The synchronous branch forwards the arguments of the emit, connections made after a chained signal get the "
        "moved-from values",
 edits=[(SIGH, """                    std::static_pointer_cast<connection_handler_t>(handler)
                      ->m_func(argList...);
                }
            } else if""", """                    std::static_pointer_cast<connection_handler_t>(handler)
                      ->m_func(std::forward<Args>(argList)...);
                }
            } else if""")],
 demo=r'''
#include "d.h"
#include <xdispatch/signals.h>
int main()
{
    limit(30, "signal");
    xdispatch::signal<void(std::string)> outer, inner;
    std::string a, b;
    std::atomic<int> n{ 0 };
    xdispatch::queue q("q");
    auto c1 = inner.connect([&](std::string s) { a = s; ++n; }, q);
    auto c2 = outer.connect(inner);
    auto c3 = outer.connect([&](std::string s) { b = s; ++n; }, q);
    const std::string text = "some longer text that lives on the heap for sure";
    outer(text);
    check(until([&] { return n == 2; }, 10), "handlers missing");
    check(a == text, "wrong value passed on to the chained signal");
    check(b == text, "wrong value passed to the connection after the chained signal");
    pass();
}
''')

bugs["wq-announce-first"] = dict(
 prop="X18",
 needs="the inner queue executing the announced wakeup before the operation was added",
 breaks="The inner queue is notified before the operation is added, the wakeup then finds nothing to execute and the "
        "operation is stuck until somebody waits or submits another one",
 edits=[(WQ, """        m_worker->add_one(op);
        m_inner_queue.async(m_worker);
""", """        m_inner_queue.async(m_worker);
        m_worker->add_one(op);
""")],
 demo=r'''
#include "d.h"
#include <xdispatch/waitable_queue.h>
#include <xdispatch/backend_naive.h>
#include <xdispatch/backend_naive_ithreadpool.h>
// hands the work over to a thread right away and gives it a head start
struct eager : xdispatch::naive::ithreadpool
{
    void execute(const xdispatch::operation_ptr& w, xdispatch::queue_priority) override
    {
        std::thread([=] { run_with_threadpool(*w, this); }).detach();
        nap(20);
    }
    void notify_thread_blocked() override {}
    void notify_thread_unblocked() override {}
};
int main()
{
    limit(30, "waitable_queue");
    auto inner = xdispatch::naive::create_parallel_queue("inner", std::make_shared<eager>(), xdispatch::queue_priority::DEFAULT);
    xdispatch::waitable_queue q("q", inner);
    std::atomic<int> n{ 0 };
    for (int i = 0; i < 5; ++i)
        q.async([&] { ++n; });
    check(until([&] { return n == 5; }, 10), "an operation was not executed");
    pass();
}
''')

bugs["yield-default-priority"] = dict(
 prop="X22",
 needs="a serial queue of high priority with more than ten operations pending while the pool is saturated with "
       "operations of lower priority",
 breaks="A queue that yields its thread after ten operations is rescheduled with default priority and has to wait for "
        "everything else",
 edits=[(OQ, """        XDISPATCH_Q_TRACE("yield");
        notify_unsafe();
""", """        XDISPATCH_Q_TRACE("yield");
        if (m_notify_operation) {
            // let those waiting for our thread go first
            m_threadpool->execute(m_notify_operation, queue_priority::DEFAULT);
        }
""")],
 demo=r'''
#include "d.h"
int main()
{
    limit(60, "priorities");
    auto pool = xdispatch::global_queue(xdispatch::queue_priority::DEFAULT);
    xdispatch::queue q("high", xdispatch::queue_priority::USER_INTERACTIVE);
    const int n = 2 * (int)std::thread::hardware_concurrency();
    std::atomic<bool> go{ false };
    std::atomic<int> busy{ 0 }, high{ 0 }, low{ 0 }, low_first{ 0 };
    for (int i = 0; i < n; ++i)
        pool.async([&] { ++busy; while (!go) nap(1); });
    check(until([&] { return busy == n; }, 20), "not busy");
    for (int i = 0; i < 20 * n; ++i)
        pool.async([&] { if (high < 30) ++low_first; ++low; nap(10); });
    for (int i = 0; i < 30; ++i)
        q.async([&] { ++high; });
    go = true;
    check(until([&] { return high == 30 && low == 20 * n; }, 40), "not executed");
    fprintf(stderr, "%d of %d low priority operations before\n", low_first.load(), 20 * n);
    check(low_first < 10 * n, "operations of high priority had to wait for those with lower");
    pass();
}
''')

bugs["serial-apply-runs-inline"] = dict(
 prop="X02",
 needs="an apply on a serial queue from two threads, or while another operation is pending",
 breaks="The last iteration is executed by the caller as soon as the others are done instead of on the queue, so it "
        "may run while another operation of the queue does",
 edits=[(SQ, """        const auto completed = std::make_shared<consumable>(times);
        for (size_t i = 0; i < times; ++i) {
            async(std::make_shared<apply_operation>(i, op, completed));
        }
        completed->wait_for_consumed();
""", """        if (0 == times) {
            return;
        }
        // the last iteration can be executed by the calling thread
        const size_t last = times - 1;
        const auto completed = std::make_shared<consumable>(last);
        for (size_t i = 0; i < last; ++i) {
            async(std::make_shared<apply_operation>(i, op, completed));
        }
        completed->wait_for_consumed();
        apply_operation{ last, op, nullptr }();
""")],
 demo=r'''
#include "d.h"
int main()
{
    limit(60, "apply");
    xdispatch::queue q("serial");
    std::atomic<int> active{ 0 };
    auto use = [&](size_t) {
        check(1 == ++active, "two operations of a serial queue at once");
        nap(2);
        --active;
    };
    std::thread a([&] { for (int i = 0; i < 20; ++i) q.apply(5, use); });
    std::thread b([&] { for (int i = 0; i < 20; ++i) q.apply(5, use); });
    a.join();
    b.join();
    pass();
}
''')

bugs["qt-pool-no-take-back"] = dict(
 prop="X23", kind="qt",
 needs="operations on a QThreadPool that block and return, repeatedly, and then more operations than the pool has "
       "threads",
 breaks="The capacity lent while a thread was blocked is never taken back, the pool then runs more operations at once "
        "than it is configured for",
 edits=[(QP, """    m_pool->reserveThread();
""", """    // takes the capacity back, a pool which is busy
    // anyways does not need to be told about that
    if (m_pool->activeThreadCount() <= m_pool->maxThreadCount() - 1) {
        m_pool->reserveThread();
    } else if (m_pool->activeThreadCount() > m_pool->maxThreadCount()) {
        m_pool->reserveThread();
    }
""")],
 demo=r'''
#include <QtCore/QCoreApplication>
#include <QtCore/QThreadPool>
#include "d.h"
#include <xdispatch/backend_qt.h>
#include <xdispatch/backend_naive_ithreadpool.h>
int main(int argc, char** argv)
{
    QCoreApplication app(argc, argv);
    limit(60, "pool");
    QThreadPool pool;
    pool.setMaxThreadCount(2);
    auto q = xdispatch::qt5::create_parallel_queue("pool", &pool, xdispatch::queue_priority::DEFAULT);
    for (int i = 0; i < 10; ++i) {
        std::atomic<int> n{ 0 };
        std::atomic<bool> go{ false };
        for (int k = 0; k < 4; ++k)
            q.async([&] {
                {
                    xdispatch::naive::ithreadpool::block_scope b;
                    while (!go) nap(1);
                }
                nap(30);
                ++n;
            });
        nap(50);
        go = true;
        check(until([&] { return n == 4; }, 10), "blocked operations missing");
        nap(20);
    }
    std::atomic<int> active{ 0 }, max{ 0 }, done{ 0 };
    for (int i = 0; i < 20; ++i)
        q.async([&] {
            const int a = ++active;
            int m = max;
            while (m < a && !max.compare_exchange_weak(m, a)) {}
            nap(30);
            --active;
            ++done;
        });
    check(until([&] { return done == 20; }, 20), "operations missing");
    fprintf(stderr, "%d at once\n", max.load());
    check(max <= 2, "more operations at once than the pool has threads");
    pass();
}
''')
