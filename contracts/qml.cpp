// Contracts of tasks handed to QML (C29)
#include "common.h"
#include "qtqml.h"
#include "qcorotimer.h"
#include "qcoroqmltask.h"
using namespace vq;
using QCoro::Task;
using QCoro::QmlTask;
using vqt::script;

namespace {
struct Work { int outcome = Value; long v = 0; bool later = false; Gate gate; int running = 0; };
Task<QVariant> variantTask(Work *w) { Probe p(&w->running); if (w->later) co_await w->gate; if (w->outcome != Value) raise(w->outcome, 1); co_return vqt::variant(w->v); }
Task<long> longTask(Work *w) { Probe p(&w->running); if (w->later) co_await w->gate; if (w->outcome != Value) raise(w->outcome, 1); co_return w->v; }
Task<> voidTask(Work *w) { Probe p(&w->running); if (w->later) co_await w->gate; if (w->outcome != Value) raise(w->outcome, 1); }
enum Source { FromVariant, FromLong, FromVoid };
template<int s> QmlTask made(Work *w) { if constexpr (s == FromVariant) return QmlTask(variantTask(w)); else if constexpr (s == FromLong) return QmlTask(longTask(w)); else return QmlTask(voidTask(w)); }
template<int s> void start(Work &w, std::optional<QmlTask> &t) {
    script = vqt::ScriptM();
    w.v = vq_i64("result"); VQ_REQUIRE(w.v != 0); if (s == FromVoid) w.v = 0;
    w.outcome = vq_choose(2, "fails") ? EStd : Value; w.later = vq_choose(2, "later"); t.emplace(made<s>(&w));
    if (vq_choose(2, "a copy")) { QmlTask c(*t); t.emplace(c); }
}
void end(Work &w) { if (w.later) { VQ_ENSURE(w.gate.waiting(), "C29.task-runs"); w.gate.open(); w.later = false; } VQ_ENSURE(w.running == 0, "C29.task-ends"); }
void clean() { VQ_ENSURE(alive == 0 && vq_live_heap() == 0, "C29.no-leak"); VQ_ENSURE(vqt::connections() == 0 && vqt::objects() == 0, "C29.disconnected"); script = vqt::ScriptM(); }
// requires: any result; a task finishing before or after the callback is attached; a handle copied or dropped; any later end of the engine
// ensures:  the callback is called exactly once, after the task finished, with its result; never when the task fails or the engine is gone
template<int s> void callback() {
    {
        Work w; std::optional<QmlTask> t; start<s>(w, t);
        script.callable = vq_choose(2, "callable");
        t->then(vqt::function(0));
        if (w.later) VQ_ENSURE(script.f[0].calls == 0, "C29.not-before-finished");
        if (vq_choose(2, "handle dropped")) t.reset();
        bool gone = false; if (w.later) { gone = script.dead = vq_choose(2, "engine destroyed"); }
        end(w);
        const int n = w.outcome == Value && !gone && script.callable;
        VQ_ENSURE(script.f[0].calls == n, "C29.called-once");
        if (n) { VQ_ENSURE(script.f[0].args == 1 && script.f[0].arg == w.v, "C29.exact-result"); VQ_COVER("C29.called"); }
    }
    clean();
}
// ensures: the value is the intermediate one until the task has finished and the result from then on; one notification
template<int s> void awaiting() {
    {
        Work w; std::optional<QmlTask> t; start<s>(w, t);
        const bool given = vq_choose(2, "intermediate"); const long i = given ? vq_i64("intermediate value") : 0; if (given) VQ_REQUIRE(i != 0);
        QCoro::QmlTaskListener *l = given ? t->await(vqt::variant(i)) : t->await();
        VQ_ENSURE(l != nullptr, "C29.listener");
        int changed = 0; const bool pending = w.later; auto c = QObject::connect(l, &QCoro::QmlTaskListener::valueChanged, [&] { ++changed; });
        if (pending) VQ_ENSURE(vqt::variantOf(l->value()) == i, "C29.intermediate");
        if (vq_choose(2, "handle dropped")) t.reset();
        bool gone = false; if (pending && vq_choose(2, "object destroyed")) { delete l; gone = true; }
        end(w);
        if (!gone) {
            VQ_ENSURE(vqt::variantOf(l->value()) == (w.outcome == Value ? w.v : i), "C29.result");
            { QVariant v; void *a[] = {&v}; l->qt_metacall(QMetaObject::ReadProperty, 0, a); VQ_ENSURE(vqt::variantOf(v) == vqt::variantOf(l->value()), "C29.property"); }
            VQ_ENSURE(changed == (pending && w.outcome == Value), "C29.notified-once"); VQ_COVER("C29.awaited");
            delete l;
        } else { VQ_ENSURE(changed == 0, "C29.gone-not-notified"); VQ_COVER("C29.gone"); }
    }
    clean();
}
}
VQ_CONTRACT(C29, callbackVariant) { callback<FromVariant>(); }
VQ_CONTRACT(C29, callbackValue) { callback<FromLong>(); }
VQ_CONTRACT(C29, callbackVoid) { callback<FromVoid>(); }
VQ_CONTRACT(C29, awaitVariant) { awaiting<FromVariant>(); }
VQ_CONTRACT(C29, awaitValue) { awaiting<FromLong>(); }
VQ_CONTRACT(C29, awaitVoid) { awaiting<FromVoid>(); }
// ensures: each of several consumers is served once; the first one gets the result
VQ_CONTRACT(C29, severalConsumers) {
    {
        Work w; std::optional<QmlTask> t; start<FromLong>(w, t); QmlTask copy(*t);
        const bool swap = vq_choose(2, "order"); QmlTask &second = vq_choose(2, "on a copy") ? copy : *t;
        QCoro::QmlTaskListener *l;
        if (swap) { l = t->await(); second.then(vqt::function(0)); } else { t->then(vqt::function(0)); l = second.await(); }
        second.then(vqt::function(1));
        end(w);
        const int n = w.outcome == Value;
        VQ_ENSURE(script.f[0].calls == n && script.f[1].calls == n, "C29.called-once");
        if (n) VQ_ENSURE(swap ? vqt::variantOf(l->value()) == w.v : script.f[0].arg == w.v, "C29.first-gets-result");
        delete l; VQ_COVER("C29.several");
    }
    clean();
}
// ensures: a handle without a task does nothing
VQ_CONTRACT(C29, noTask) {
    {
        script = vqt::ScriptM(); QmlTask t; QmlTask c(t); QmlTask &u = vq_choose(2, "a copy") ? c : t;
        u.then(vqt::function(0)); const long i = vq_i64("intermediate value"); VQ_REQUIRE(i != 0);
        auto *l = u.await(vqt::variant(i)); VQ_ENSURE(l && vqt::variantOf(l->value()) == i && script.f[0].calls == 0, "C29.nothing"); delete l;
        Work w; std::optional<QmlTask> o; start<FromLong>(w, o); t = *o; o.reset(); // assigned later
        t.then(vqt::function(0)); end(w); VQ_ENSURE(script.f[0].calls == (w.outcome == Value), "C29.called-once"); VQ_COVER("C29.noTask");
    }
    clean();
}
// ensures: other awaitables become tasks
VQ_CONTRACT(C29, fromTimer) {
    {
        script = vqt::ScriptM(); QTimer timer; timer.start(std::chrono::milliseconds(7)); QmlTask t(&timer); t.then(vqt::function(0));
        VQ_ENSURE(script.f[0].calls == 0, "C29.not-before-finished"); vqt::expire(&timer); while (vqt::deliver()) {}
        VQ_ENSURE(script.f[0].calls == 1, "C29.called-once"); VQ_COVER("C29.timer");
    }
    clean();
}
