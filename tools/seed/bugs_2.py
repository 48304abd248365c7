G = "src/naive/naive_group.cpp"
TI = "src/naive/naive_timer.cpp"
PQ = "src/naive/naive_parallel_queue.cpp"
TP = "src/naive/naive_threadpool.cpp"
QP = "src/qt5/qt5_threadpool.cpp"
QS = "src/qt5/qt5_serial_queue.cpp"
QSIG = "src/qt5/qt5_signals.cpp"
QSIGH = "src/qt5/qt5_signals.h"
LB = "src/lightweight_barrier.cpp"
OQ = "src/naive/naive_operation_queue.cpp"
bugs = {}

bugs["notify-dropped-with-group"] = dict(
 prop="X07",
 needs="the last handle of the group is dropped before the pool thread that waits for the group got to run",
 breaks="The pending notification only keeps a weak reference, it is lost when the group object is gone by the time "
        "the waiting operation starts",
 edits=[(G, "        const auto this_ptr = shared_from_this();\n", """        const std::weak_ptr<group_impl> group = shared_from_this();
"""), (G, """        auto notify_op = make_operation([op, q, this_ptr] {
""", """        auto notify_op = make_operation([op, q, group] {
            // nobody is interested anymore if the group is gone already
            const auto this_ptr = group.lock();
            if (!this_ptr) {
                return;
            }
""")],
 demo=r'''
#include "d.h"
int main()
{
    limit(60, "notify");
    // keep all threads of the pool busy while the group is used and released
    const int n = 4 * (int)std::thread::hardware_concurrency() + 8;
    std::atomic<bool> go{ false }, notified{ false }, done{ false };
    auto pool = xdispatch::global_queue();
    for (int i = 0; i < n; ++i)
        pool.async([&] { while (!go) nap(1); });
    nap(100);
    {
        xdispatch::group g;
        g.async([&] { done = true; }, pool);
        g.notify([&] { check(done, "notified too early"); notified = true; }, pool);
    }
    go = true;
    check(until([&] { return notified.load(); }, 10), "the notification was lost");
    pass();
}
''')

bugs["timer-cancel-locked"] = dict(
 prop="X11",
 needs="cancel() of a timer by one thread while the timer's handler is running and calls a function of the same timer",
 breaks="cancel waits for the running handler with the timer still locked; a handler that changes the interval, "
        "suspends or cancels its timer at that moment never returns, nor does the cancel",
 edits=[(TI, """            m_running = -1;
        }
        m_cancelable.disable();
""", """            m_running = -1;
            m_cancelable.disable();
        }
""")],
 demo=r'''
#include "d.h"
int main()
{
    limit(20, "cancel");
    xdispatch::queue q("serial");
    xdispatch::timer t(std::chrono::milliseconds(20), q);
    std::atomic<bool> started{ false };
    t.handler([&] {
        if (started.exchange(true))
            return;
        nap(300);
        t.interval(std::chrono::milliseconds(50));
    });
    t.resume();
    check(until([&] { return started.load(); }, 10), "never fired");
    t.cancel();
    pass();
}
''')

bugs["apply-chunks"] = dict(
 prop="X05",
 needs="an apply on a parallel queue with more than 256 iterations, the number of them not a multiple of the chunk size",
 breaks="Iterations are grouped into chunks to save submissions; the remainder which does not fill a chunk is never "
        "executed and apply returns without it",
 edits=[(PQ, """        const auto completed = std::make_shared<consumable>(times);
        for (size_t i = 0; i < times; ++i) {
            async(std::make_shared<apply_operation>(i, op, completed));
        }
""", """        // group the iterations when there is a lot of them
        constexpr size_t kMaxOperations = 256;
        const size_t chunk = times > kMaxOperations ? times / kMaxOperations : 1;
        const size_t chunks = times > kMaxOperations ? kMaxOperations : times;
        const auto completed = std::make_shared<consumable>(chunks);
        for (size_t c = 0; c < chunks; ++c) {
            async(make_operation([c, chunk, op, completed] {
                for (size_t i = c * chunk; i + 1 < (c + 1) * chunk; ++i) {
                    apply_operation{ i, op, nullptr }();
                }
                apply_operation{ (c + 1) * chunk - 1, op, completed }();
            }));
        }
""")],
 demo=r'''
#include "d.h"
int main()
{
    limit(60, "apply");
    for (size_t n : { 1u, 10u, 100u, 300u, 1000u }) {
        std::vector<std::atomic<int>> runs(n);
        for (auto& r : runs)
            r = 0;
        xdispatch::global_queue().apply(n, [&](size_t i) { ++runs[i]; });
        for (auto& r : runs)
            check(r == 1, "an iteration was not executed exactly once");
    }
    pass();
}
''')

bugs["barrier-relaxed-poll"] = dict(
 prop="X03", kind="tsan",
 needs="a thread that polls has_passed() of a barrier (or waits for one which has passed) and then reads what was "
       "written before",
 breaks="The quick checks no longer synchronise with the completion, results written before are not guaranteed to be "
        "visible to those who saw the barrier pass",
 edits=[(LB, """    waiter* previous = m_owner.load(std::memory_order_acquire);
    if (kCompleted == previous) {
        return true;
    }

    // try to""", """    waiter* previous = m_owner.load(std::memory_order_relaxed);
    if (kCompleted == previous) {
        return true;
    }

    // try to"""), (LB, """    waiter* previous = m_owner.load(std::memory_order_acquire);
    if (kCompleted == previous) {
        return true;
    }
    if (kNoOwner""", """    waiter* previous = m_owner.load(std::memory_order_relaxed);
    if (kCompleted == previous) {
        return true;
    }
    if (kNoOwner""")],
 demo=r'''
#include "d.h"
#include <xdispatch/barrier_operation.h>
int main()
{
    limit(60, "barrier");
    int value = 0;
    auto b = std::make_shared<xdispatch::barrier_operation>();
    std::thread t([&] {
        value = 42;
        (*b)();
    });
    check(until([&] { return b->has_passed(); }, 10), "never passed");
    check(value == 42, "not visible");
    t.join();
    pass();
}
''')

bugs["nested-pool-lost"] = dict(
 prop="X21",
 needs="a thread pool of the user which runs work on a thread of another pool, i.e. a nested run_with_threadpool",
 breaks="After the nested run the thread is considered not to belong to any pool, ithreadpool::current() returns null "
        "for the rest of the outer operation and blocking is no longer reported to the pool",
 edits=[(TP, "        ~scoped_setter() { s_current_pool = m_previous; }\n", "        ~scoped_setter() { s_current_pool = nullptr; }\n"),
        (TP, """        scoped_setter(ithreadpool* pool)
          : m_previous(s_current_pool)
        {
            s_current_pool = pool;
        }
""", "        scoped_setter(ithreadpool* pool) { s_current_pool = pool; }\n"),
        (TP, """
    private:
        ithreadpool* m_previous;
    };
""", """    };
""")],
 demo=r'''
#include "d.h"
#include <xdispatch/backend_naive.h>
using xdispatch::naive::ithreadpool;
struct Inline : ithreadpool
{
    void execute(const xdispatch::operation_ptr& w, xdispatch::queue_priority) override
    {
        run_with_threadpool(*w, this);
    }
    void notify_thread_blocked() override {}
    void notify_thread_unblocked() override {}
};
int main()
{
    limit(30, "nested pools");
    auto p = std::make_shared<Inline>();
    auto nested = xdispatch::naive::create_parallel_queue("inline", p);
    std::atomic<int> state{ 0 };
    xdispatch::global_queue().async([&] {
        auto* before = ithreadpool::current();
        nested.async([&] { check(ithreadpool::current() == p.get(), "wrong inner pool"); });
        state = before && ithreadpool::current() == before ? 1 : 2;
    });
    check(until([&] { return state != 0; }, 10), "did not run");
    check(state == 1, "the outer pool was forgotten");
    pass();
}
''')

bugs["qt-child-manager"] = dict(
 prop="X24", kind="qt",
 needs="an object with a child that already has connections of its own at the time the object is connected for the first "
       "time",
 breaks="The connection is registered with the child: it ends as soon as the child is deleted and disconnecting the child "
        "disconnects the parent",
 edits=[(QSIGH, "          QString(), Qt::FindDirectChildrenOnly);", "          QString(), Qt::FindChildrenRecursively);")],
 demo=r'''
#include "d.h"
#include <QtCore/QCoreApplication>
#include <QtCore/QObject>
#include <xdispatch/backend_qt.h>
int main(int argc, char** argv)
{
    QCoreApplication app(argc, argv);
    limit(30, "connections");
    xdispatch::queue q("q");
    xdispatch::signal<void(int)> s;
    std::atomic<int> parent_calls{ 0 }, child_calls{ 0 };
    QObject parent;
    auto* child = new QObject(&parent);
    xdispatch::qt5::connect(s, child, [&](int) { ++child_calls; }, q);
    xdispatch::qt5::connect(s, &parent, [&](int) { ++parent_calls; }, q);
    s(1);
    check(until([&] { return child_calls == 1 && parent_calls == 1; }, 10), "not delivered");
    delete child;
    s(2);
    check(until([&] { return parent_calls == 2; }, 5), "connection of the parent ended with its child");
    check(child_calls == 1, "deleted child was called");
    pass();
}
''')

bugs["qt-disconnect-all"] = dict(
 prop="X24", kind="qt",
 needs="an object connected to two signals of which one is disconnected",
 breaks="Disconnecting an object from one signal ends its connections with all signals",
 edits=[(QSIG, "        receiver_connection->m_connections.reset_connections_with(signal);\n",
 """        if (receiver_connection->thread() == QThread::currentThread()) {
            receiver_connection->m_connections.reset_connections_with(signal);
        } else {
            // the object is in use elsewhere, do not iterate its connections
            receiver_connection->m_connections.reset_connections();
        }
"""), (QSIG, '#include "qt5_signals.h"\n', '#include <QtCore/QThread>\n\n#include "qt5_signals.h"\n')],
 demo=r'''
#include "d.h"
#include <QtCore/QCoreApplication>
#include <QtCore/QObject>
#include <xdispatch/backend_qt.h>
int main(int argc, char** argv)
{
    QCoreApplication app(argc, argv);
    limit(30, "connections");
    xdispatch::queue q("q");
    xdispatch::signal<void(int)> a, b;
    std::atomic<int> na{ 0 }, nb{ 0 };
    QObject o;
    xdispatch::qt5::connect(a, &o, [&](int) { ++na; }, q);
    xdispatch::qt5::connect(b, &o, [&](int) { ++nb; }, q);
    std::thread([&] { xdispatch::qt5::disconnect(a, &o); }).join();
    a(1);
    b(1);
    check(until([&] { return nb == 1; }, 5), "the other signal was disconnected, too");
    check(na == 0, "still connected");
    pass();
}
''')

bugs["qt-priority-unknown"] = dict(
 prop="X23", kind="qt",
 needs="a QThreadPool whose threads are all busy while operations of a user initiated and of a default queue wait",
 breaks="User initiated work gets a lower QThreadPool priority than work of default queues",
 edits=[(QP, "            p = 40; // NOLINT(readability-magic-numbers)", "            p = 4; // NOLINT(readability-magic-numbers)")],
 demo=r'''
#include "d.h"
#include <QtCore/QCoreApplication>
#include <QtCore/QThreadPool>
#include <xdispatch/backend_qt.h>
int main(int argc, char** argv)
{
    QCoreApplication app(argc, argv);
    limit(30, "pool");
    QThreadPool pool;
    pool.setMaxThreadCount(1);
    using P = xdispatch::queue_priority;
    auto hi = xdispatch::qt5::create_parallel_queue("hi", &pool, P::USER_INITIATED);
    auto lo = xdispatch::qt5::create_parallel_queue("lo", &pool, P::DEFAULT);
    std::atomic<bool> go{ false };
    std::atomic<int> seq{ 0 }, hi_at{ -1 }, lo_at{ -1 };
    hi.async([&] { while (!go) nap(1); });
    nap(50);
    lo.async([&] { lo_at = seq++; });
    hi.async([&] { hi_at = seq++; });
    nap(50);
    go = true;
    check(until([&] { return seq == 2; }, 10), "not executed");
    check(hi_at == 0 && lo_at == 1, "lower priority first");
    pass();
}
''')

bugs["qt-late-thread"] = dict(
 prop="X23", kind="qt",
 needs="a queue created for a QThread that gets started afterwards",
 breaks="The queue stays on the thread which created it: operations run there, or not at all if it has no event loop",
 edits=[(QS, "        moveToThread(m_thread);\n", """        if (m_thread->isRunning()) {
            moveToThread(m_thread);
        }
""")],
 demo=r'''
#include "d.h"
#include <QtCore/QCoreApplication>
#include <QtCore/QThread>
#include <xdispatch/backend_qt.h>
int main(int argc, char** argv)
{
    QCoreApplication app(argc, argv);
    limit(30, "queue");
    QThread t;
    auto q = xdispatch::qt5::create_serial_queue("q", &t);
    std::atomic<QThread*> on{ nullptr };
    q.async([&] { on = QThread::currentThread(); });
    t.start();
    check(until([&] { return on != nullptr; }, 5), "not executed");
    check(on == &t, "wrong thread");
    t.quit();
    t.wait();
    pass();
}
''')

