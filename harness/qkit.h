// Queues shared by the timer, notifier and signal families.
#pragma once
#include "h.h"
#include <condition_variable>
#include <deque>
#include <memory>
#include <mutex>
#include <thread>
#include <vector>
#include <xdispatch/backend_naive.h>
#include <xdispatch/dispatch.h>

namespace qkit {
enum QK
{
    QK_GLOBAL,
    QK_SERIAL,
    QK_MAIN,
    QK_CSERIAL, // serial queue on a custom pool
    QK_CPAR,
    QK_QTTHREAD, // queue on a QThread
    QK_QTPOOL,   // queue on a QThreadPool
    QK_N
};
static const int NQ = 4;
extern int kind[NQ];
extern bool force_qt; // start the Qt world although no queue needs it
inline bool
serial(int q)
{
    return kind[q] == QK_SERIAL || kind[q] == QK_MAIN || kind[q] == QK_CSERIAL ||
           kind[q] == QK_QTTHREAD;
}
// creates the queues (kinds set before) and the threads behind them
void setup(int n, int pool_threads);
std::shared_ptr<xdispatch::queue> get(int q);
void drop(); // drops the kit's handles
// oracle: something runs on queue q now, props: tag for failures
void enter(int q, const char* what);
void leave(int q);
int pick_kind(Rnd& r, bool qt = false);
}
