// Contracts of waiting for threads and of moving coroutines to threads (C20, C32)
#include "common.h"
#include "qtmodel.h"
#include "qcorothread.h"
#include <chrono>
using namespace vq;
using QCoro::Task;
using std::chrono::milliseconds;
using namespace vqt;

namespace {
struct Got { int times = 0; bool v = false; };
enum Form { Pointer, Reference, Later, Default };
template<bool Begin, Form f> Task<> waits(QThread *t, int ms, Got *g) {
    bool b;
    if constexpr (f == Later) {
        auto *q = new QCoro::detail::QCoroThread(t); auto op = Begin ? q->waitForStarted(milliseconds(ms)) : q->waitForFinished(milliseconds(ms)); delete q;
        b = co_await op;
    } else if constexpr (f == Default) b = Begin ? co_await qCoro(t).waitForStarted() : co_await qCoro(t).waitForFinished();
    else if constexpr (f == Pointer) b = Begin ? co_await qCoro(t).waitForStarted(milliseconds(ms)) : co_await qCoro(t).waitForFinished(milliseconds(ms));
    else b = Begin ? co_await qCoro(*t).waitForStarted(milliseconds(ms)) : co_await qCoro(*t).waitForFinished(milliseconds(ms));
    ++g->times; g->v = b;
}
constexpr int MaxPending = 2;
bool began, ended; // the thread was launched, has left its run()
int steps;
// the thread does anything, at any moment
void step(QThread *t) {
    if (of(t)->state == New) began = true;
    if (of(t)->state == Running) ended = true;
    vqt::threadStep(t);
}
void any(QThread *t) { while (steps < 4 && of(t)->state != Finished && vq_choose(2, "the thread goes on")) { ++steps; step(t); } }
// requires: a thread in any state that goes on at any moment, any timeout
// ensures:  one resumption; true when it gets there, or has got there; false only when it cannot, or after the timeout
template<bool Begin> void waiting(Task<> (*how)(QThread *, int, Got *), bool endless) {
    {
        std::optional<QThread> th; th.emplace();
        began = ended = false; steps = 0;
        static const int from[] = {New, Launched, Running, Finishing, Finished};
        of(&*th)->state = from[vq_choose(5, "state")];
        const int s0 = of(&*th)->state;
        if (s0 != New) began = true;
        if (s0 == Finishing || s0 == Finished) ended = true;
        const int t = endless ? -1 : vq_i32("timeout");
        Got g;
        {
            meanwhile = &any;
            auto task = how(&*th, t, &g);
            meanwhile = nullptr;
            bool expired = false;
            if (s0 == Finishing || s0 == Finished) { vq_ensure(task.isReady() && g.v == !Begin, "C20.known-outcome"); vq_cover("C20.already-finished"); }
            if (Begin && (s0 == Launched || s0 == Running)) { vq_ensure(task.isReady(), "C20.known-outcome"); vq_cover("C20.already-running"); }
            if (s0 == New && !began) { vq_ensure(task.isReady() == !Begin, "C20.suspends-only-while-open"); }
            for (;;) {
                vq_cut("C20.history");
                vq_ensure(g.times == (task.isReady() ? 1 : 0), "C20.resumed-once");
                if (task.isReady()) {
                    vq_ensure(!g.v || (Begin ? began : ended), "C20.not-before-it-happened");
                    if (!expired) {
                        if (Begin) { vq_ensure(g.v || ended, "C20.outcome"); if (s0 == New) { vq_ensure(g.v || ended, "C20.outcome"); vq_cover("C20.happened"); } }
                        else { vq_ensure(g.v || s0 == New, "C20.outcome"); if (g.v && s0 == Running) vq_cover("C20.happened"); }
                    } else vq_ensure(!g.v, "C20.outcome");
                } else {
                    vq_ensure(t < 0 || vqt::running(), "C20.times-out");
                    if (Begin && (of(&*th)->state == Running || of(&*th)->state == Finished) || !Begin && of(&*th)->state == Finished) vq_ensure(vqt::pending() > 0, "C20.completes");
                }
                const unsigned op = vq_choose(5, "event");
                if (op == 0) {
                    if (!th || of(&*th)->state == Finished || vqt::pending() >= MaxPending) vq_end(); step(&*th);
                } else if (op == 1) {
                    QTimer *tm = vqt::running(); if (!tm) vq_end();
                    vq_ensure(!task.isReady() && t >= 0 && of(tm)->interval == t, "C20.timeout-as-given"); vqt::expire(tm); expired = true; vq_cover("C20.expired");
                    vq_ensure(task.isReady(), "C20.times-out");
                } else if (op == 2) { if (!vqt::deliver(nullptr)) vq_end(); }
                else if (op == 3) { if (!th || of(&*th)->state == Launched || of(&*th)->state == Running || of(&*th)->state == Finishing || !task.isReady()) vq_end(); th.reset(); }
                else break;
            }
            if (!task.isReady()) vq_end();
            vq_ensure(!vqt::running(), "C20.nothing-left");
        }
        vq_ensure(vqt::connections() == 0 && vqt::pending() == 0 && vqt::objects() == (th ? 1 : 0), "C20.nothing-left");
    }
    vq_ensure(vq_live_heap() == 0, "C20.nothing-leaks");
}

// ---- moving to a thread
struct Hop { int times = 0; QThread *where = nullptr; bool ran = false; };
template<int n> Task<> hops(QThread *t, QThread *u, Hop *h) {
    co_await QCoro::moveToThread(t);
    ++h[0].times; h[0].where = vqt::current; h[0].ran = of(t)->state == Running;
    if constexpr (n == 2) {
        co_await QCoro::moveToThread(u);
        ++h[1].times; h[1].where = vqt::current; h[1].ran = of(u)->state == Running;
    }
}
// requires: threads in any state that go on at any moment
// ensures:  resumed exactly once per hop, on that thread, while it runs; suspended until then
template<int n> void hopping() {
    {
        QThread t[n];
        Hop h[n];
        for (int i = 0; i < n; ++i) { static const int from[] = {New, Launched, Running, Finishing, Finished}; of(&t[i])->state = from[vq_choose(n == 1 ? 5 : 3, "state")]; }
        {
            began = ended = false; steps = 0; if (n == 1) meanwhile = &any;
            auto task = hops<n>(&t[0], &t[n - 1], h);
            meanwhile = nullptr;
            vq_ensure(!task.isReady(), "C20.resumed-on-the-thread");
            for (;;) {
                vq_cut("C20.hops");
                for (int i = 0; i < n; ++i) {
                    vq_ensure(h[i].times <= 1 && (i == 0 || h[i].times <= h[i - 1].times), "C20.resumed-once");
                    vq_ensure(!h[i].times || h[i].where == &t[i] && h[i].ran, "C20.resumed-on-the-thread");
                }
                vq_ensure(task.isReady() == (h[n - 1].times == 1), "C20.resumed-once");
                int hop = 0; while (hop < n && h[hop].times) ++hop;
                if (hop < n && of(&t[hop])->state == Running) vq_ensure(vqt::pending() > 0, "C20.resumed-when-it-runs");
                if (task.isReady()) vq_cover("C20.hopped");
                const unsigned op = vq_choose(2 + 2 * n, "event");
                if (op < (unsigned)n) { // a thread with work to do does it before it ends
                    if (vqt::pending() >= MaxPending + n) vq_end();
                    if (task.isReady() && of(&t[op])->state == Finished) vq_end(); // nobody restarts it any more
                    if (n == 2 && of(&t[op])->state == Running && !task.isReady()) vq_end(); // (two threads: those do not end half-way)
                    step(&t[op]);
                } else if (op < 2u * n) {
                    QThread *x = &t[op - n];
                    if (of(x)->state != Running) vq_end(); // events are processed only while the thread runs
                    if (!vqt::deliver(x)) vq_end();
                } else if (op == 2u * n) { if (!vqt::deliver(nullptr)) vq_end(); }
                else break;
            }
            if (!task.isReady()) vq_end();
        }
        vq_ensure(vqt::connections() == 0 && vqt::pending() == 0 && vqt::objects() == n, "C20.nothing-left");
    }
    vq_ensure(vq_live_heap() == 0, "C20.nothing-leaks");
}
} // namespace
VQ_CONTRACT(C20, waitForStarted) { waiting<true>(&waits<true, Pointer>, false); }
VQ_CONTRACT(C20, waitForStartedDefault) { waiting<true>(&waits<true, Default>, true); }
VQ_CONTRACT(C20, waitForFinished) { waiting<false>(&waits<false, Reference>, false); }
VQ_CONTRACT(C20, waitForFinishedDefault) { waiting<false>(&waits<false, Default>, true); }
VQ_CONTRACT(C32, threadStarted) { waiting<true>(&waits<true, Later>, false); }
VQ_CONTRACT(C32, threadFinished) { waiting<false>(&waits<false, Later>, false); }
VQ_CONTRACT(C20, moveToThread) { hopping<1>(); }
VQ_CONTRACT(C20, moveToThreads) { hopping<2>(); }
namespace {
// the operation has ended at once, with that result
template<class R> Task<> keeps(Task<R> op, R *r, int *n) { *r = co_await op; ++*n; }
template<class R> bool endsWith(Task<R> op, R expected) { R r{}; int n = 0; auto t = keeps(std::move(op), &r, &n); return t.isReady() && n == 1 && r == expected; }
// requires: the thread is gone before the operation is called
// ensures:  false, at once; nothing is touched
void gone() {
    {
        std::optional<QThread> th; th.emplace(); auto w = qCoro(*th); th.reset();
        const int t = vq_i32("timeout"); const unsigned op = vq_choose(4, "operation");
        vq_ensure(endsWith(op == 0 ? w.waitForStarted() : op == 1 ? w.waitForStarted(milliseconds(t)) : op == 2 ? w.waitForFinished() : w.waitForFinished(milliseconds(t)), false), "C20.gone");
        vq_ensure(vqt::connections() == 0 && !vqt::running() && vqt::objects() == 0, "C20.nothing-left"); vq_cover("C20.gone");
    }
    vq_ensure(vq_live_heap() == 0, "C20.nothing-leaks");
}
} // namespace
VQ_CONTRACT(C20, gone) { gone(); }
