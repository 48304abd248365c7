// hooks of family "ops" for the Qt build, and thin wrappers over naive pool API
#pragma once
#include <functional>
#include <memory>
#include <xdispatch/backend_naive.h>
typedef xdispatch::naive::ithreadpool* ithreadpool_probe;
inline ithreadpool_probe
current_pool()
{
    return xdispatch::naive::ithreadpool::current();
}
typedef xdispatch::naive::ithreadpool::block_scope naive_block_scope;
#ifdef XDSIM_QT
std::shared_ptr<xdispatch::queue> qt_make_queue(bool pool,
                                                const char* label,
                                                xdispatch::queue_priority pr);
void qt_world_start(void (*on_thread)(), long start_after, int pool_threads);
void qt_app_create(); // on the thread that is to become the main thread
bool qt_on_pool_thread();
#endif
