// Qt side of family "ops": real Qt threads, event loops and thread pools
#include "h.h"
#include "ops_qt.h"
#include <QtCore/QCoreApplication>
#include <QtCore/QThread>
#include <QtCore/QThreadPool>
#include <thread>
#include <xdispatch/backend_qt.h>
#include <xdispatch/dispatch.h>

using namespace xdispatch;
namespace {
class LoopThread : public QThread
{
public:
    void (*begin)() = nullptr;

protected:
    void run() override
    {
        sim_mark_harness();
        begin();
        exec();
    }
};
LoopThread* g_thread;
QThreadPool* g_pool;
int g_argc = 1;
char g_arg0[] = "xdsim";
char* g_argv[] = { g_arg0, nullptr };
}

void
qt_app_create()
{
    new QCoreApplication(g_argc, g_argv);
}

void
qt_world_start(void (*on_thread)(), long start_after, int pool_threads)
{
    g_thread = new LoopThread;
    g_thread->begin = on_thread;
    g_pool = new QThreadPool;
    g_pool->setMaxThreadCount(pool_threads);
    if (start_after <= 0)
        g_thread->start();
    else
        std::thread([start_after] {
            sim_mark_harness();
            sim_sleep(start_after);
            g_thread->start();
        }).detach();
}

bool
qt_on_pool_thread()
{
    return QThread::currentThread()->objectName() == QLatin1String("Thread (pooled)");
}

std::shared_ptr<queue>
qt_make_queue(bool pool, const char* label, queue_priority pr)
{
    if (pool)
        return std::make_shared<queue>(qt5::create_parallel_queue(label, g_pool, pr));
    return std::make_shared<queue>(qt5::create_serial_queue(label, g_thread, pr));
}

QThread*
qt_loop_thread()
{
    return g_thread;
}
