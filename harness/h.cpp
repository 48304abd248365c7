#include "h.h"
static int64_t g_seqno;
NOSAN int64_t
o_seq()
{
    sim_realtime();
    return ++g_seqno;
}
NOSAN int64_t
o_now()
{
    return sim_now();
}
NOSAN int64_t
o_clean()
{
    return sim_now() - sim_stalled();
}
NOSAN int64_t
o_idle()
{
    return sim_now() - sim_stalled() - sim_busy();
}
NOSAN void
o_sleep(int64_t ns, long k, long within_ms)
{
    if (k < 0) {
        sim_sleep_event(k <= -100, (int)(k <= -100 ? -k - 99 : -k), within_ms * MS);
        if (ns > 0)
            sim_sleep(ns);
        return;
    }
    int64_t d = k > 0 ? sim_deadline((int)k - 1, within_ms * MS) : 0;
    sim_sleep(d ? d - sim_now() + ns : ns);
}
NOSAN bool
o_settle(bool (*pred)(void*), void* arg, int64_t limit)
{
    int64_t t0 = o_clean(), step = 10 * US;
    while (!pred(arg)) {
        if (o_clean() - t0 > limit)
            return false;
        // nothing can happen before the next thread runs
        int64_t n = sim_idle_until() - sim_now(), rest = limit - (o_clean() - t0) + 1 * MS;
        n = n > rest ? rest : n;
        sim_sleep(n > step ? n + 10 * US : step);
        if (step < 50 * MS)
            step *= 2;
    }
    return true;
}
