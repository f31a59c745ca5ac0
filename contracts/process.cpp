// Contracts of awaiting processes (C19, C32)
#include "common.h"
#include "qtprocess.h"
#include "qcoroprocess.h"
#include <chrono>
using namespace vq;
using QCoro::Task;
using std::chrono::milliseconds;

namespace {
struct Ask { QProcess *p; int t; QIODevice::OpenMode mode; QString program; QStringList arguments; };
constexpr int MaxPending = 2; // emissions that are queued but not delivered
struct Got { int times = 0; bool v = false; };
enum Form { Int, Chrono, Later, Start, StartWith, StartLater };
template<Form f> Task<> starting(const Ask *a, Got *g) {
    bool b;
    if constexpr (f == Int) b = co_await qCoro(a->p).waitForStarted(a->t);
    else if constexpr (f == Chrono) b = co_await qCoro(*a->p).waitForStarted(milliseconds(a->t));
    else if constexpr (f == Later) { auto *q = new QCoro::detail::QCoroProcess(a->p); auto op = q->waitForStarted(milliseconds(a->t)); delete q; b = co_await op; }
    else if constexpr (f == Start) b = co_await qCoro(a->p).start(a->mode, milliseconds(a->t));
    else if constexpr (f == StartWith) b = co_await qCoro(*a->p).start(a->program, a->arguments, a->mode, milliseconds(a->t));
    else { // wrapper and arguments are gone before the operation is awaited
        auto *q = new QCoro::detail::QCoroProcess(a->p); std::optional<QString> s(a->program); std::optional<QStringList> l(a->arguments);
        auto op = q->start(*s, *l, a->mode, milliseconds(a->t)); delete q; s.reset(); l.reset(); b = co_await op;
    }
    ++g->times; g->v = b;
}
template<Form f> Task<> finishing(const Ask *a, Got *g) {
    bool b;
    if constexpr (f == Int) b = co_await qCoro(*a->p).waitForFinished(a->t);
    else if constexpr (f == Chrono) b = co_await qCoro(a->p).waitForFinished(milliseconds(a->t));
    else { auto *q = new QCoro::detail::QCoroProcess(a->p); auto op = q->waitForFinished(milliseconds(a->t)); delete q; b = co_await op; }
    ++g->times; g->v = b;
}
// requires: a process in any state, any timeout, program, arguments and mode, any history of what processes do
// ensures:  suspends iff the outcome is open; one resumption with the outcome of the first event that decides it
template<bool Begin, int Starts> void outcome(Task<> (*how)(const Ask *, Got *)) {
    {
        std::optional<QProcess> p; p.emplace(); vqt::ProcM *m = &vqt::proc(&*p);
        m->state = vq_choose(3, "state");
        long program = 0, arguments = 0;
        Ask a{&*p, vq_i32("timeout"), {}, {}, {}}; const int t = a.t;
        if (Starts) { static const int modes[] = {QIODevice::NotOpen, QIODevice::ReadOnly, QIODevice::WriteOnly, QIODevice::ReadWrite, QIODevice::ReadWrite | QIODevice::Unbuffered};
            a.mode = QIODevice::OpenMode(modes[vq_choose(5, "mode")]); program = vq_i64("program"); arguments = vq_i64("arguments"); a.program = vqt::text(program); a.arguments = vqt::list(arguments); }
        Got g;
        {
            auto task = how(&a, &g);
            if (Starts) vq_ensure(m->starts == 1 && m->mode == a.mode.toInt() && m->given == (Starts == 2) && (Starts == 1 || m->program == program && m->arguments == arguments), "C19.starts-once-as-asked");
            else vq_ensure(m->starts == 0, "C19.only-waits");
            // the outcome when it is known already
            bool done = Begin ? m->state != QProcess::Starting : m->state == QProcess::NotRunning, seen = done, has = Begin && m->state == QProcess::Running;
            vq_ensure(task.isReady() == done, "C19.suspends-only-while-open");
            if (done) { if (has) vq_cover("C19.running"); else vq_cover("C19.not-running"); }
            for (;;) {
                vq_cut("C19.history");
                vq_ensure(task.isReady() == done && g.times == (done ? 1 : 0), "C19.resumed-once");
                if (done) vq_ensure(g.v == has, "C19.outcome");
                if (m) vq_ensure(m->starts == (Starts ? 1 : 0), "C19.starts-once-as-asked");
                const unsigned op = vq_choose(9, "event");
                if (op <= 4 && vqt::pending() >= MaxPending) vq_end();
                if (op == 0) { if (!p || m->state != QProcess::Starting) vq_end(); vqt::starts(&*p); if (Begin && !seen) { seen = has = true; vq_cover("C19.started"); } }
                else if (op == 1) { if (!p || m->state != QProcess::Starting) vq_end(); vqt::failsToStart(&*p); if (!seen) { seen = true; vq_cover("C19.failed"); } }
                else if (op == 2) {
                    if (!p || m->state != QProcess::Running) vq_end(); vqt::finishes(&*p, vq_choose(2, "code"), vq_choose(2, "crash"));
                    if (!Begin && !seen) { seen = has = true; vq_cover("C19.finished"); }
                } else if (op == 3) { if (!p || m->state != QProcess::Running) vq_end(); vqt::otherError(&*p); }
                else if (op == 4) { // somebody starts it again
                    if (!p || m->state != QProcess::NotRunning) vq_end(); p->start(QIODevice::ReadOnly); m->starts -= 1;
                    if (!seen) vq_unreachable("C19.outcome-was-open");
                } else if (op == 5) { if (!p) vq_end(); p.reset(); m = nullptr; }
                else if (op == 6) {
                    QTimer *tm = vqt::running(); if (!tm) vq_end();
                    vq_ensure(!done && t >= 0 && vqt::of(tm)->interval == t, "C19.timeout-as-given"); vqt::expire(tm); seen = done = true; has = false; vq_cover("C19.expired");
                } else if (op == 7) { if (!vqt::pending()) vq_end(); vqt::deliver(); vq_ensure(seen && !done, "C19.resumed-once"); done = true; }
                else break;
            }
            if (!done) { vq_ensure(!seen || vqt::pending(), "C19.resumed-once"); vq_ensure(seen || t < 0 || vqt::running(), "C19.times-out"); vq_end(); }
            vq_ensure(!vqt::pending() && !vqt::running(), "C19.resumed-once");
        }
        vq_ensure(vqt::connections() == 0 && vqt::objects() == (p ? 1 : 0), "C19.nothing-left");
    }
    vq_ensure(vq_live_heap() == 0, "C19.nothing-leaks");
}
} // namespace
VQ_CONTRACT(C19, waitForStarted) { outcome<true, 0>(&starting<Int>); }
VQ_CONTRACT(C19, waitForStartedChrono) { outcome<true, 0>(&starting<Chrono>); }
VQ_CONTRACT(C19, waitForFinished) { outcome<false, 0>(&finishing<Int>); }
VQ_CONTRACT(C19, waitForFinishedChrono) { outcome<false, 0>(&finishing<Chrono>); }
VQ_CONTRACT(C19, start) { outcome<true, 1>(&starting<Start>); }
VQ_CONTRACT(C19, startProgram) { outcome<true, 2>(&starting<StartWith>); }
VQ_CONTRACT(C32, waitForStarted) { outcome<true, 0>(&starting<Later>); }
VQ_CONTRACT(C32, waitForFinished) { outcome<false, 0>(&finishing<Later>); }
VQ_CONTRACT(C32, startProgram) { outcome<true, 2>(&starting<StartLater>); }
namespace {
// the operation has ended at once, with that result
template<class R> Task<> keeps(Task<R> op, R *r, int *n) { *r = co_await op; ++*n; }
template<class R> bool endsWith(Task<R> op, R expected) { R r{}; int n = 0; auto t = keeps(std::move(op), &r, &n); return t.isReady() && n == 1 && r == expected; }
// requires: the process is gone before the operation is called
// ensures:  false, at once; nothing is touched
void gone() {
    {
        std::optional<QProcess> p; p.emplace(); vqt::proc(&*p).state = vq_choose(3, "state");
        auto w = qCoro(*p); p.reset();
        const int t = vq_i32("timeout"); const unsigned op = vq_choose(6, "operation");
        vq_ensure(endsWith(op == 0 ? w.waitForStarted(t) : op == 1 ? w.waitForStarted(milliseconds(t)) : op == 2 ? w.waitForFinished(t) : op == 3 ? w.waitForFinished(milliseconds(t))
            : op == 4 ? w.start(QIODevice::ReadWrite, milliseconds(t)) : w.start(vqt::text(1), vqt::list(2), QIODevice::ReadWrite, milliseconds(t)), false), "C19.gone");
        vq_ensure(vqt::connections() == 0 && !vqt::running() && vqt::objects() == 0, "C19.nothing-left"); vq_cover("C19.gone");
    }
    vq_ensure(vq_live_heap() == 0, "C19.nothing-leaks");
}
} // namespace
VQ_CONTRACT(C19, gone) { gone(); }
