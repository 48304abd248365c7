// Family "sockets": X12, X13 (and X21, X02 for their handlers).
#include "qkit.h"
#include <sys/socket.h>
#include <unistd.h>
using namespace xdispatch;

namespace {
enum
{
    C_THREADS,
    C_NN,   // notifiers
    C_FD0,  // socket of notifier i (0..3: a0 b0 a1 b1)
    C_TY0 = C_FD0 + 3,
    C_K0 = C_TY0 + 3,
    C_DUR0 = C_K0 + 3,
    C_MODE0 = C_DUR0 + 3, // what the handler does with the socket
    C_NQ = C_MODE0 + 3,
    C_Q0,
    C_POOL = C_Q0 + 4,
    C_IDLE, // notifiers suspended before they were ever resumed, bit mask
    C_HIGH  // 1: descriptors beyond the range of select()
};
const char* const kCfg[] = { "threads", "notifiers", "socket0",   "socket1",   "socket2",
                             "write0",  "write1",    "write2",    "queue0",    "queue1",
                             "queue2",  "duration0", "duration1", "duration2", "mode0",
                             "mode1",   "mode2",     "queues",    "kind0",     "kind1",
                             "kind2",   "kind3",     "pool",      "suspended",
                             "high_fds", nullptr };
enum
{
    I_SLEEP,
    I_RESUME,
    I_SUSPEND,
    I_CANCEL,
    I_WRITE, // a: socket b: bytes
    I_READ,
    I_CLOSE,
    I_LOAD,
    I_AWAIT_SELF,
    I_RELEASE,
    I_HANDLER
};
const char* const kOps[] = { "sleep", "resume", "suspend", "cancel",  "write",
                             "read",  "close",  "load",    "resume_after_self_suspend",
                             "release", "handler", nullptr };
enum Mode
{
    M_NONE,  // leave the socket ready
    M_ONE,   // transfer one byte
    M_ALL    // transfer until it would block
};
enum
{
    P_SUSPENDED_ONWAY,
    P_CANCEL_WAITED,
    P_CANCEL_INSIDE,
    P_QUICK_RESUME,
    P_CLOSED_RESUMED,
    P_EOF,
    P_PERSISTENT,
    P_FULL,
    P_READY_WHILE_SUSPENDED,
    P_RESUME_AFTER_CANCEL,
    P_CONCURRENT_CANCEL,
    P_SUSPEND_INSIDE,
    P_HANDLER_REPLACED,
    P_OLD_HANDLER_ONWAY
};
const char* const kProbes[] = { "invocation_on_its_way_after_suspend",
                                "cancel_waited_for_running_handler",
                                "cancelled_inside_handler",
                                "resumed_while_handler_running",
                                "socket_closed_while_resumed",
                                "peer_closed",
                                "readiness_left_by_handler",
                                "socket_full",
                                "ready_while_suspended",
                                "resumed_after_cancel",
                                "concurrent_cancels",
                                "suspended_inside_handler",
                                "handler_replaced_while_firing",
                                "old_handler_ran_once_more",
                                nullptr };
const Prog* P;
const int MAXG = 6;
struct NR
{
    int q, sock;
    bool write;
    int level;
    int avail;
    bool running;
    int64_t streams;
    bool carry;
    int active;
    int64_t begins;
    bool end_ready; // state at the end of the last invocation
    int64_t end_edges;
    bool closed_begun;
    int closed_begins;
    bool cancel_begun, cancel_ret;
    int cancels_now;
    bool self_suspended;
    int gen, newest;     // handlers handed over / the newest whose call has returned
    int old_ok;          // invocations of an older handler which may still come
    int running_gen;
    int dead[MAXG + 1];  // handlers destroyed
    bool closed_ret;
};
NR N[3];
int nn, fds[4], threads_done;
int64_t busy;
bool sock_closed[4];

NOSAN bool
ready(int k)
{
    int fd = fds[N[k].sock];
    return N[k].write ? sim_fd_writable(fd) : sim_fd_readable(fd);
}
NOSAN void
snap(int k)
{
    N[k].end_ready = ready(k);
    N[k].end_edges = sim_fd_ready_count(fds[N[k].sock], N[k].write);
}
NOSAN void
h_begin(int k, int gen, socket_t s, notifier_type ty)
{
    NR& t = N[k];
    sim_ev(1, k, t.begins, gen);
    if (s != fds[t.sock] || (ty == notifier_type::WRITE) != t.write)
        sim_fail("[X12] handler of notifier %d is invoked with socket %d instead of %d or the "
                 "wrong direction",
                 k,
                 (int)s,
                 fds[t.sock]);
    if (t.active)
        sim_fail("[X12,X13] handler of notifier %d starts while another invocation is running", k);
    if (t.dead[gen])
        sim_fail("[X13,X04] handler of notifier %d runs after it was destroyed", k);
    t.running_gen = gen;
    if (gen < t.newest) {
        if (!t.old_ok)
            sim_fail("[X12] a handler of notifier %d runs although it was replaced before the "
                     "socket became ready",
                     k);
        t.old_ok--;
        sim_probe(P_OLD_HANDLER_ONWAY);
    }
    if (t.cancel_ret)
        sim_fail("[X13] handler of notifier %d starts after cancel has returned", k);
    if (!t.streams)
        sim_fail("[X12] handler of notifier %d starts although it was never resumed", k);
    if (t.closed_ret && ++t.closed_begins > 1)
        sim_fail("[X13] notifier %d keeps firing for a closed socket", k);
    if (!t.closed_begun && !t.end_ready && !ready(k) &&
        sim_fd_ready_count(fds[t.sock], t.write) <= t.end_edges)
        sim_fail("[X12] handler of notifier %d starts although its socket was not ready since "
                 "the last invocation",
                 k);
    if (!t.running) {
        if (!t.carry)
            sim_fail("[X12] handler of notifier %d starts for the second time after suspend has "
                     "returned",
                     k);
        sim_probe(P_SUSPENDED_ONWAY);
    }
    t.carry = false;
    t.begins++;
    t.active++;
}
NOSAN void
h_end(int k)
{
    N[k].active--;
    sim_ev(2, k, 0, 0);
    snap(k);
    if (N[k].end_ready)
        sim_probe(P_PERSISTENT);
}
NOSAN void
resume_begin(int k)
{
    NR& t = N[k];
    sim_ev(3, k, 0, 0);
    if (t.cancel_begun)
        sim_probe(P_RESUME_AFTER_CANCEL);
    if (t.level++ == 0) {
        t.running = true;
        if (t.active)
            sim_probe(P_QUICK_RESUME);
        if (!t.streams)
            snap(k);
        if (ready(k))
            sim_probe(P_READY_WHILE_SUSPENDED);
        t.streams++;
    }
}
NOSAN void
suspend_end(int k)
{
    NR& t = N[k];
    sim_ev(4, k, 0, 0);
    if (--t.level == 0) {
        t.running = false;
        t.carry = true;
    }
}
NOSAN void
resume_end(int k)
{
    N[k].avail++;
}
// takes one of the resumes that have returned: there is never a suspend too many
NOSAN bool
can_suspend(int k)
{
    if (N[k].avail <= 0)
        return false;
    N[k].avail--;
    return true;
}
NOSAN void
cancel_begin(int k)
{
    NR& t = N[k];
    sim_ev(5, k, 0, 0);
    t.cancel_begun = true;
    if (t.active)
        sim_probe(P_CANCEL_WAITED);
    if (t.cancels_now++)
        sim_probe(P_CONCURRENT_CANCEL);
}
NOSAN void
cancel_end(int k, bool inside)
{
    NR& t = N[k];
    sim_ev(6, k, inside, 0);
    t.cancels_now--;
    if (inside)
        sim_probe(P_CANCEL_INSIDE);
    else if (t.active)
        sim_fail("[X13] cancel of notifier %d returned while its handler is running", k);
    t.cancel_ret = true;
}
NOSAN void
close_mark(int s, bool ret)
{
    sock_closed[s] = true;
    for (int k = 0; k < nn; ++k)
        if (N[k].sock == s) {
            N[k].closed_begun = true;
            if (N[k].running && !ret)
                sim_probe(P_CLOSED_RESUMED);
            if (ret)
                N[k].closed_ret = true;
        }
}
NOSAN bool
is_closed(int s)
{
    return sock_closed[s];
}
NOSAN void
tok_destroyed(int k, int gen)
{
    NR& t = N[k];
    sim_ev(7, k, gen, 0);
    if (t.active && t.running_gen == gen)
        sim_fail("[X04,X12] handler of notifier %d destroyed while it is running", k);
    if (t.dead[gen]++)
        sim_fail("[X04,X13] handler of notifier %d destroyed twice", k);
}
NOSAN int
next_gen(int k)
{
    NR& t = N[k];
    if (t.gen >= MAXG)
        return -1;
    sim_ev(8, k, t.gen + 1, 0);
    if (t.active)
        sim_probe(P_HANDLER_REPLACED);
    return ++t.gen;
}
// the call has returned: what is on its way may still be the old one, except
// when it is the running handler which has replaced itself
NOSAN void
gen_end(int k, int gen, bool inside)
{
    N[k].newest = gen;
    N[k].old_ok = inside ? 0 : 1;
}
struct Token
{
    int k, gen;
    Token(int i, int g)
      : k(i)
      , gen(g)
    {}
    ~Token() { tok_destroyed(k, gen); }
};
struct World
{
    std::shared_ptr<socket_notifier> n[3];
};
World* W;
NOSAN void
mark_self_suspended(int k)
{
    N[k].self_suspended = true;
    sim_probe(P_SUSPEND_INSIDE);
}
NOSAN bool
take_self_suspended(int k)
{
    if (!N[k].self_suspended)
        return false;
    N[k].self_suspended = false;
    return true;
}
NOSAN void
thread_done()
{
    threads_done++;
}
NOSAN int64_t
begins_of(int k)
{
    return N[k].begins;
}
void
transfer(int fd, bool write, int n)
{
    char b[16] = {};
    for (int i = 0; i < n; ++i) {
        ssize_t r = write ? send(fd, b, 1, MSG_DONTWAIT | MSG_NOSIGNAL)
                          : recv(fd, b, 1, MSG_DONTWAIT);
        if (r <= 0) {
            if (write)
                sim_probe(P_FULL);
            else if (!r)
                sim_probe(P_EOF);
            break;
        }
    }
}
void
set_handler(int k, socket_notifier* self, bool inside);
void
handler_body(int k, int gen, socket_notifier* self, socket_t s, notifier_type ty)
{
    h_begin(k, gen, s, ty);
    int64_t n = begins_of(k);
    qkit::enter(N[k].q, "a notifier handler");
    switch (P->cfg[C_MODE0 + k]) {
        case M_ONE:
            transfer(s, N[k].write, 1);
            break;
        case M_ALL:
            transfer(s, N[k].write, 100);
            break;
        default:
            break;
    }
    for (int i = 0; i < P->n; ++i) {
        const Ins& s = P->ins[i];
        if (s.th != BODY + k || s.b != n)
            continue;
        switch (s.op) {
            case I_SUSPEND:
                if (can_suspend(k)) {
                    self->suspend();
                    suspend_end(k);
                    mark_self_suspended(k);
                }
                break;
            case I_CANCEL:
                cancel_begin(k);
                sim_watch_begin("[X13] cancel inside its handler", 30 * SEC);
                self->cancel();
                sim_watch_end();
                cancel_end(k, true);
                break;
            case I_HANDLER:
                set_handler(k, self, true);
                break;
            default:
                break;
        }
    }
    // never spin: the socket may stay ready for good (end of file)
    sim_sleep(std::max<int64_t>(P->cfg[C_DUR0 + k], 1 * MS));
    qkit::leave(N[k].q);
    h_end(k);
}
void
set_handler(int k, socket_notifier* self, bool inside)
{
    int gen = next_gen(k);
    if (gen < 0)
        return;
    auto tok = std::make_shared<Token>(k, gen);
    self->handler([tok, k, gen, self](socket_t s, notifier_type ty) {
        handler_body(k, gen, self, s, ty);
    });
    gen_end(k, gen, inside);
}
void
exec_ins(const Ins& s, std::shared_ptr<socket_notifier>* mine)
{
    int k = (int)s.a;
    switch (s.op) {
        case I_SLEEP:
            o_sleep(s.a, s.b, s.c);
            break;
        case I_RESUME:
            if (!mine[k] || is_closed(N[k].sock))
                break;
            resume_begin(k);
            sim_watch_begin("[X12] resume", 30 * SEC);
            mine[k]->resume();
            sim_watch_end();
            resume_end(k);
            break;
        case I_SUSPEND:
            if (!mine[k] || !can_suspend(k))
                break;
            sim_watch_begin("[X12] suspend", 30 * SEC);
            mine[k]->suspend();
            sim_watch_end();
            suspend_end(k);
            break;
        case I_CANCEL:
            if (!mine[k])
                break;
            cancel_begin(k);
            sim_watch_begin("[X13] cancel", 30 * SEC);
            mine[k]->cancel();
            sim_watch_end();
            cancel_end(k, false);
            break;
        case I_WRITE:
        case I_READ:
            if (!is_closed(k))
                transfer(fds[k], s.op == I_WRITE, (int)s.b);
            break;
        case I_CLOSE:
            if (!is_closed(k)) {
                close_mark(k, false);
                close(fds[k]);
                close_mark(k, true);
            }
            break;
        case I_LOAD: {
            int q = N[k].q;
            int64_t d = s.b;
            qkit::get(q)->async([q, d] {
                qkit::enter(q, "an operation");
                sim_sleep(d);
                qkit::leave(q);
            });
            break;
        }
        case I_AWAIT_SELF: {
            bool ok = false;
            for (int i = 0; i < 40 && !(ok = take_self_suspended(k)); ++i)
                sim_sleep(5 * MS);
            if (ok && mine[k] && !is_closed(N[k].sock)) {
                resume_begin(k);
                mine[k]->resume();
                resume_end(k);
            }
            break;
        }
        case I_HANDLER:
            if (mine[k])
                set_handler(k, mine[k].get(), false);
            break;
        case I_RELEASE:
            mine[k].reset();
            break;
        default:
            break;
    }
}
NOSAN bool
pred_threads(void* n)
{
    return threads_done >= *(int*)n;
}
struct Want
{
    int k;
    int64_t n;
};
NOSAN bool
pred_begins(void* a)
{
    const NR& t = N[((Want*)a)->k];
    return t.begins >= ((Want*)a)->n || t.cancel_begun || !t.running;
}
NOSAN bool
pred_destroyed(void* a)
{
    // all handlers it ever had
    const NR& t = N[*(int*)a];
    for (int g = 1; g <= t.gen; ++g)
        if (!t.dead[g])
            return false;
    return true;
}
NOSAN bool
pred_old_dead(void* a)
{
    const NR& t = N[*(int*)a];
    for (int g = 1; g < t.newest; ++g)
        if (!t.dead[g])
            return false;
    return true;
}
NOSAN bool
is_cancelled(int k)
{
    return N[k].cancel_begun;
}
NOSAN bool
is_running(int k)
{
    return N[k].running;
}
// makes the socket of a notifier ready, false if that is impossible
bool
make_ready(int k)
{
    int s = N[k].sock;
    if (is_closed(s))
        return false;
    if (ready(k))
        return true;
    if (is_closed(s ^ 1))
        return false;
    if (N[k].write)
        transfer(fds[s ^ 1], false, 200);
    else
        transfer(fds[s ^ 1], true, 1);
    return true;
}

void
run(const Prog& prog)
{
    P = &prog;
    W = new World;
    nn = (int)prog.cfg[C_NN];
    int nq = (int)prog.cfg[C_NQ];
    for (int i = 0; i < nq; ++i)
        qkit::kind[i] = (int)prog.cfg[C_Q0 + i];
    qkit::setup(nq, (int)prog.cfg[C_POOL]);
    sim_high_fds(prog.cfg[C_HIGH]);
    socketpair(AF_UNIX, SOCK_STREAM, 0, fds);
    socketpair(AF_UNIX, SOCK_STREAM, 0, fds + 2);
    for (int k = 0; k < nn; ++k) {
        NR& t = N[k];
        t.q = (int)prog.cfg[C_K0 + k];
        t.sock = (int)prog.cfg[C_FD0 + k];
        t.write = prog.cfg[C_TY0 + k];
        busy += prog.cfg[C_DUR0 + k];
        W->n[k] = std::make_shared<socket_notifier>(
          fds[t.sock], t.write ? notifier_type::WRITE : notifier_type::READ, *qkit::get(t.q));
        socket_notifier* self = W->n[k].get();
        set_handler(k, self, true);
        if (prog.cfg[C_IDLE] >> k & 1)
            self->suspend(); // not running, so this has no effect
        if (self->target_queue() != *qkit::get(t.q) || self->socket() != fds[t.sock] ||
            (self->type() == notifier_type::WRITE) != t.write)
            sim_fail("[X12,X21] notifier %d reports another queue, socket or direction than it "
                     "was made for",
                     k);
    }
    for (int i = 0; i < prog.n; ++i)
        if (prog.ins[i].op == I_LOAD)
            busy += prog.ins[i].b;
    int nth = (int)prog.cfg[C_THREADS];
    std::vector<std::thread> th;
    for (int x = 0; x < nth; ++x) {
        th.emplace_back([x] {
            sim_mark_harness();
            std::shared_ptr<socket_notifier> mine[3];
            for (int k = 0; k < nn; ++k)
                mine[k] = W->n[k];
            for (int i = 0; i < P->n; ++i)
                if (P->ins[i].th == x)
                    exec_ins(P->ins[i], mine);
            thread_done();
        });
    }
    o_settle(pred_threads, &nth, 10 * SEC);
    sim_quiesce(1);
    if (!o_settle(pred_threads, &nth, 60 * SEC))
        sim_fail("[X12,X13] a call to a socket notifier does not return");
    for (auto& t : th)
        t.join();
    // readiness is reported to resumed notifiers, twice if it persists
    for (int round = 0; round < 2; ++round)
        for (int k = 0; k < nn; ++k) {
            if (is_cancelled(k) || !is_running(k) || !make_ready(k))
                continue;
            Want w{ k, begins_of(k) + 1 };
            if (!o_settle(pred_begins, &w, 3 * busy + 300 * MS) && ready(k))
                sim_fail("[X12,X19] resumed notifier %d does not report that its socket is ready", k);
        }
    // replaced handlers are released
    for (int k = 0; k < nn; ++k)
        if (!o_settle(pred_old_dead, &k, busy + PROMPT))
            sim_fail("[X12,X04] a handler of notifier %d is still alive %.1f s after it was replaced",
                     k,
                     (busy + PROMPT) / 1e9);
    // suspended and resumed once more
    for (int k = 0; k < nn; ++k)
        while (!is_cancelled(k) && can_suspend(k)) {
            W->n[k]->suspend();
            suspend_end(k);
        }
    sim_sleep(busy + 6 * SEC);
    for (int k = 0; k < nn; ++k) {
        if (is_cancelled(k) || !make_ready(k))
            continue;
        Want w{ k, begins_of(k) + 1 };
        resume_begin(k);
        W->n[k]->resume();
        resume_end(k);
        if (!o_settle(pred_begins, &w, busy + 300 * MS) && ready(k))
            sim_fail("[X12,X19] notifier %d does not report that its socket is ready after it was "
                     "suspended and resumed",
                     k);
    }
    // remaining sockets are closed, suspended or cancelled
    for (int k = 0; k < nn; ++k) {
        if (is_cancelled(k))
            continue;
        if (k == 0) {
            if (!is_closed(N[k].sock)) {
                close_mark(N[k].sock, false);
                close(fds[N[k].sock]);
                close_mark(N[k].sock, true);
            }
        } else if (k == 1) {
            cancel_begin(k);
            W->n[k]->cancel();
            cancel_end(k, false);
        } else if (can_suspend(k)) {
            W->n[k]->suspend();
            suspend_end(k);
        }
    }
    sim_sleep(6 * SEC + busy);
    uint64_t c0 = sim_count_select();
    sim_sleep(10 * SEC);
    if (sim_count_select() - c0 > (uint64_t)(4 * nn))
        sim_fail("[X13] %llu waits in 10 s for sockets that are closed, suspended or cancelled",
                 (unsigned long long)(sim_count_select() - c0));
    for (int k = 0; k < nn; ++k) {
        W->n[k].reset();
        if (!o_settle(pred_destroyed, &k, PROMPT))
            sim_fail("[X13,X04] the handler of notifier %d is still alive long after the notifier "
                     "was %s and its last handle was dropped",
                     k,
                     is_cancelled(k) ? "cancelled" : is_running(k) ? "left with a closed socket"
                                                                    : "suspended");
    }
    sim_done();
}

void
gen(Rnd& r, Prog& p, int focus)
{
    const bool qt = focus == 2;
    if (qt)
        focus = (int)r.in(0, 1);
    int nth = (int)r.in(1, 3), n = (int)r.in(1, 3), nq = (int)r.in(1, n);
    p.cfg[C_THREADS] = nth;
    p.cfg[C_NN] = n;
    p.cfg[C_HIGH] = r.chance(1, 8);
    p.cfg[C_NQ] = nq;
    p.cfg[C_POOL] = r.in(1, 2);
    // a saturated QThreadPool may starve work: what is handed to an idle thread
    // is queued with the lowest priority and others may overtake for ever
    if (qt)
        p.cfg[C_POOL] = n + 1;
    for (int i = 0; i < nq; ++i)
        p.cfg[C_Q0 + i] = qkit::pick_kind(r, qt);
    const long du[] = { 0, 100 * US, 1 * MS, 4 * MS, 15 * MS };
    bool used[8] = {};
    bool hot[3];
    for (int k = 0; k < n; ++k) {
        int s, w;
        do {
            s = (int)r.in(0, 3);
            w = r.chance(1, 3);
        } while (used[s * 2 + w]);
        used[s * 2 + w] = true;
        p.cfg[C_FD0 + k] = s;
        p.cfg[C_TY0 + k] = w;
        p.cfg[C_K0 + k] = r.in(0, nq - 1);
        int m = r.chance(1, 5) ? M_NONE : r.chance(1, 2) ? M_ONE : M_ALL;
        p.cfg[C_MODE0 + k] = m;
        hot[k] = m == M_NONE || w;
        p.cfg[C_DUR0 + k] = r.pick(du);
        if (r.chance(1, 8))
            p.cfg[C_IDLE] |= 1 << k;
    }
    const long naps[] = { 0, 20 * US, 100 * US, 1 * MS, 5 * MS, 20 * MS, 60 * MS };
    bool selfsus[3] = {};
    int level[3] = {};
    // who replaces the handler: 1 = itself, 2 = the owner
    int swap[3] = {};
    for (int k = 0; k < n; ++k) {
        swap[k] = r.chance(1, 3) ? (int)r.in(1, 2) : 0;
        for (int i = 0; swap[k] == 1 && i < 2; ++i)
            prog_add(p, BODY + k, I_HANDLER, k, r.in(1, 4));
        if (r.chance(1, focus ? 4 : 8)) {
            selfsus[k] = true;
            prog_add(p, BODY + k, I_SUSPEND, k, r.in(1, 3));
        }
        if (r.chance(1, focus ? 4 : 10))
            prog_add(p, BODY + k, I_CANCEL, k, r.in(1, 4));
    }
    for (int t = 0; t < nth; ++t) {
        for (int k = 0; k < n; ++k)
            if (k % nth == t && r.chance(5, 6)) {
                prog_add(p, t, I_RESUME, k);
                level[k] = 1;
            }
        int m = (int)r.in(4, 12);
        for (int i = 0; i < m; ++i) {
            int k = (int)r.in(0, n - 1);
            bool owner = k % nth == t;
            int s = (int)p.cfg[C_FD0 + k];
            bool w = p.cfg[C_TY0 + k];
            int c = (int)r.in(0, 19);
            if (owner && swap[k] == 2 && r.chance(1, 4))
                prog_add(p, t, I_HANDLER, k);
            else if (c < 4)
                gen_sleep(r, p, t, I_SLEEP, naps, r.chance(1, 4) ? 6000 : 500);
            else if (c < 11) {
                const long nb[] = { 1, 1, 2, 5, 100 };
                // the peer acts
                prog_add(p, t, w ? I_READ : I_WRITE, s ^ 1, r.pick(nb));
            } else if (c < 12)
                prog_add(p, t, r.chance(1, 2) ? I_READ : I_WRITE, s, r.in(1, 3));
            else if (c < 13)
                prog_add(p, t, I_LOAD, k, r.in(0, 10) * MS);
            else if (c < 14 && r.chance(1, focus ? 2 : 5))
                prog_add(p, t, I_CANCEL, k);
            else if (c < 15 && r.chance(1, focus ? 2 : 6))
                prog_add(p, t, I_CLOSE, r.chance(1, 2) ? s : s ^ 1);
            else if (c < 16 && r.chance(1, 4))
                prog_add(p, t, I_RELEASE, k);
            else if (owner && selfsus[k]) {
                if (level[k] == 1) {
                    prog_add(p, t, I_AWAIT_SELF, k);
                    level[k] = 2;
                    if (r.chance(1, 2))
                        selfsus[k] = false;
                }
            } else if (owner) {
                if (level[k] == 0 || (level[k] == 1 && r.chance(1, 6))) {
                    prog_add(p, t, I_RESUME, k);
                    level[k]++;
                } else {
                    prog_add(p, t, I_SUSPEND, k);
                    level[k]--;
                    if (r.chance(2, 3)) {
                        if (r.chance(1, 3))
                            gen_sleep(r, p, t, I_SLEEP, naps, r.chance(1, 4) ? 6000 : 500);
                        prog_add(p, t, I_RESUME, k);
                        level[k]++;
                    }
                }
            }
        }
    }
    // a handler that leaves its socket ready is invoked over and over
    for (int k = 0; k < n; ++k)
        if (hot[k] && p.cfg[C_DUR0 + k] < 4 * MS)
            p.cfg[C_DUR0 + k] = 4 * MS;
}
void
tune(Rnd& r, const Prog& p, sim_cfg& c, int focus)
{
    (void)p;
    (void)focus;
    if (c.freeze_max_ns > 1000 * MS)
        c.freeze_max_ns = 1000 * MS;
    if (c.tjump_max_ns > 1000 * MS)
        c.tjump_max_ns = 1000 * MS;
    c.max_vtime = 600 * SEC;
    c.max_steps = 2000000;
    (void)r;
}
const char* const kFocus[] = { "ready", "control", "qt", nullptr };
} // namespace

extern const Family fam_sockets;
const Family fam_sockets = { "sockets", kOps, kCfg, kProbes, "X12,X13", gen, run, tune, kFocus };
