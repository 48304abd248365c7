#include "qkit.h"
#ifdef XDSIM_QT
    #include "ops_qt.h"
    #include <atomic>
#endif
using namespace xdispatch;
namespace qkit {
int kind[NQ];
bool force_qt;
namespace {
int running[NQ];
bool main_tid[256], pool_tid[256], qt_tid[256];
NOSAN void
mark(bool* a)
{
    a[sim_tid() & 255] = true;
}
class Pool : public naive::ithreadpool
{
public:
    explicit Pool(int n)
    {
        for (int i = 0; i < n; ++i)
            std::thread([this] {
                sim_mark_harness();
                mark(pool_tid);
                run();
            }).detach();
    }
    void execute(const operation_ptr& work, queue_priority) override
    {
        std::lock_guard<std::mutex> l(m_cs);
        m_work.push_back(work);
        m_cond.notify_one();
    }

protected:
    void notify_thread_blocked() override {}
    void notify_thread_unblocked() override {}

private:
    void run()
    {
        for (;;) {
            operation_ptr op;
            {
                std::unique_lock<std::mutex> l(m_cs);
                while (m_work.empty())
                    m_cond.wait(l);
                op = m_work.front();
                m_work.pop_front();
            }
            run_with_threadpool(*op, this);
        }
    }
    std::mutex m_cs;
    std::condition_variable m_cond;
    std::deque<operation_ptr> m_work;
};
struct Kit
{
    std::shared_ptr<Pool> pool;
    std::shared_ptr<queue> q[NQ];
};
Kit* K;
}
void
setup(int n, int pool_threads)
{
    K = new Kit;
    bool use_main = false;
    static const char* names[] = { "q0", "q1", "q2", "q3" };
#ifdef XDSIM_QT
    bool use_qt = force_qt;
    for (int i = 0; i < n; ++i)
        use_qt |= kind[i] >= QK_QTTHREAD;
    if (use_qt) {
        static std::atomic<bool> created{ false };
        std::thread([] {
            sim_mark_harness();
            mark(main_tid);
            qt_app_create();
            created = true;
            main_queue();
            exec();
        }).detach();
        while (!created)
            sim_sleep(1 * MS);
        qt_world_start([] { mark(qt_tid); }, 0, pool_threads);
    }
#endif
    for (int i = 0; i < n; ++i) {
        if ((kind[i] == QK_CSERIAL || kind[i] == QK_CPAR) && !K->pool)
            K->pool = std::make_shared<Pool>(pool_threads);
        switch (kind[i]) {
            case QK_GLOBAL:
                K->q[i] = std::make_shared<queue>(global_queue());
                break;
            case QK_SERIAL:
                K->q[i] = std::make_shared<queue>(names[i]);
                break;
            case QK_MAIN:
                K->q[i] = std::make_shared<queue>(main_queue());
                use_main = true;
                break;
            case QK_CSERIAL:
                K->q[i] = std::make_shared<queue>(
                  naive::create_serial_queue(names[i], K->pool, queue_priority::DEFAULT));
                break;
#ifdef XDSIM_QT
            case QK_QTTHREAD:
            case QK_QTPOOL:
                K->q[i] = qt_make_queue(kind[i] == QK_QTPOOL, names[i], queue_priority::DEFAULT);
                break;
#endif
            default:
                K->q[i] = std::make_shared<queue>(
                  naive::create_parallel_queue(names[i], K->pool, queue_priority::DEFAULT));
        }
    }
#ifdef XDSIM_QT
    use_main = use_main && !use_qt;
#endif
    if (use_main)
        std::thread([] {
            sim_mark_harness();
            mark(main_tid);
            main_queue();
            exec();
        }).detach();
}
std::shared_ptr<queue>
get(int q)
{
    return K->q[q];
}
void
drop()
{
    for (auto& q : K->q)
        q.reset();
}
NOSAN void
enter(int q, const char* what)
{
    int t = sim_tid() & 255;
    if (serial(q)) {
        if (running[q])
            sim_fail("[X02,X10,X12,X14,X15,X23,X24] %s runs on serial queue %d while another operation of "
                     "that queue is running",
                     what,
                     q);
        running[q] = 1;
    }
    if ((kind[q] == QK_MAIN) != main_tid[t])
        sim_fail("[X21,X10,X12,X14,X15,X24] %s of %s runs on %s the main thread",
                 what,
                 kind[q] == QK_MAIN ? "the main queue" : "another queue",
                 main_tid[t] ? "" : "a thread that is not");
    bool custom = kind[q] == QK_CSERIAL || kind[q] == QK_CPAR;
#ifdef XDSIM_QT
    if ((kind[q] == QK_QTTHREAD) != qt_tid[t])
        sim_fail("[X23,X21,X24] %s of queue %d runs %s the Qt thread", what, q, qt_tid[t] ? "on" : "outside");
    if ((kind[q] == QK_QTPOOL) != qt_on_pool_thread())
        sim_fail("[X23,X21,X24] %s of queue %d runs on the wrong side of the Qt thread pool", what, q);
#endif
    if (custom != pool_tid[t])
        sim_fail("[X21,X10,X12,X14,X15,X24] %s of %s runs %s the custom pool",
                 what,
                 custom ? "a queue bound to a custom pool" : "another queue",
                 pool_tid[t] ? "on" : "outside");
}
NOSAN void
leave(int q)
{
    if (serial(q))
        running[q] = 0;
}
int
pick_kind(Rnd& r, bool qt)
{
    if (qt) {
        const long v[] = { QK_QTTHREAD, QK_QTTHREAD, QK_QTTHREAD, QK_QTPOOL, QK_QTPOOL, QK_MAIN, QK_SERIAL };
        return (int)r.pick(v);
    }
    const long v[] = { QK_GLOBAL, QK_GLOBAL, QK_SERIAL, QK_SERIAL, QK_SERIAL, QK_MAIN,
                       QK_CSERIAL, QK_CPAR };
    return (int)r.pick(v);
}
}
