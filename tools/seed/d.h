// helpers shared by the demonstrations
#pragma once
#include <xdispatch/dispatch>
#include <atomic>
#include <chrono>
#include <condition_variable>
#include <cstdio>
#include <cstdlib>
#include <functional>
#include <iostream>
#include <memory>
#include <mutex>
#include <string>
#include <thread>
#include <vector>
#include <unistd.h>
using namespace std::chrono_literals;
using clk = std::chrono::steady_clock;
[[noreturn]] inline void
fail(const std::string& m)
{
    fprintf(stderr, "FAIL: %s\n", m.c_str());
    _exit(1);
}
[[noreturn]] inline void
pass()
{
    fprintf(stderr, "ok\n");
    _exit(0);
}
inline void
check(bool c, const std::string& m)
{
    if (!c)
        fail(m);
}
// ends the process unless it is done in time
inline void
limit(int seconds, const std::string& m)
{
    std::thread([=] {
        std::this_thread::sleep_for(std::chrono::seconds(seconds));
        fail("did not complete: " + m);
    }).detach();
}
template<class F>
bool
until(F f, int seconds)
{
    const auto end = clk::now() + std::chrono::seconds(seconds);
    while (!f()) {
        if (clk::now() > end)
            return false;
        std::this_thread::sleep_for(1ms);
    }
    return true;
}
inline void
nap(int ms)
{
    std::this_thread::sleep_for(std::chrono::milliseconds(ms));
}
