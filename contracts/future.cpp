// Contracts of awaiting futures (C15)
#include "common.h"
#include "qtmodel.h"
#include <QFuture>
#include <QPromise>
#include "qcorofuture.h"
using namespace vq;
using QCoro::Task;

namespace {
template<class T> struct How {
    static Task<> plain(QFuture<T> f, Outcome *o) { try { T v = co_await f; o->set(Value, v.get()); } catch (...) { recordException(*o); } }
    static Task<> temporary(QFuture<T> f, Outcome *o) { try { T v = co_await QFuture<T>(f); o->set(Value, v.get()); } catch (...) { recordException(*o); } }
    static Task<> result(QFuture<T> f, Outcome *o) { try { T v = co_await qCoro(f).result(); o->set(Value, v.get()); } catch (...) { recordException(*o); } }
    static Task<> finished(QFuture<T> f, Outcome *o) { try { T v = co_await qCoro(f).waitForFinished(); o->set(Value, v.get()); } catch (...) { recordException(*o); } }
    static Task<> take(QFuture<T> f, Outcome *o) { try { T v = co_await qCoro(f).takeResult(); o->set(Value, v.get()); } catch (...) { recordException(*o); } }
};
template<> struct How<void> {
    static Task<> plain(QFuture<void> f, Outcome *o) { try { co_await f; o->set(Value, 0); } catch (...) { recordException(*o); } }
    static Task<> result(QFuture<void> f, Outcome *o) { try { co_await qCoro(f).result(); o->set(Value, 0); } catch (...) { recordException(*o); } }
    static Task<> finished(QFuture<void> f, Outcome *o) { try { co_await qCoro(f).waitForFinished(); o->set(Value, 0); } catch (...) { recordException(*o); } }
};
struct MVal { // move-only, default constructible
    long v; MVal() : v(0) { ++alive; } explicit MVal(long x) : v(x) { ++alive; } MVal(MVal &&o) noexcept : v(o.v) { o.v = MOVED; ++alive; } MVal &operator=(MVal &&o) noexcept { v = o.v; o.v = MOVED; return *this; } ~MVal() { --alive; }
    long get() const { return v; }
};
// requires: a future in any state, any history of its producer, deliveries of the event loop
// ensures:  suspends iff unfinished; resumed once, when the finish has been delivered; result, exception or T{}
template<class T, bool Taking> void awaits(Task<> (*how)(QFuture<T>, Outcome *)) {
    alive = 0;
    {
        std::optional<QPromise<T>> p; p.emplace(); std::optional<QFuture<T>> f; f.emplace(p->future());
        Outcome o; int kind = Value; long v = 0; bool has = false, finished = false, delivered = false, started = false, cancelled = false; int more = 0; // more: results besides the first one
        auto step = [&](unsigned op) { // one step of the producer
            if (op == 0) { if (started || !p) vq_end(); p->start(); started = true; }
            else if (op == 1) {
                if constexpr (!std::is_void_v<T>) {
                    if (!started || !p || finished || kind != Value) vq_end();
                    if (!vq_choose(2, "first result")) {
                        if (has) vq_end();
                        const long x = vq_i64("result"); if (!p->isCanceled()) { has = true; v = x; } p->addResult(T(x), 0);
                    } else { if (more == 2) vq_end(); const int at = 2 - more; if (!p->isCanceled()) ++more; p->addResult(T(vq_i64("another result")), at); } // index 2 may come before 1, and 1 before 0
                } else vq_end();
            } else if (op == 2) {
                if (!started || !p || finished || kind != Value || p->isCanceled()) vq_end();
                kind = vq_bool("std exception") ? EStd : EPrim; v = vq_i64("code"); has = false;
                try { raise(kind, v); } catch (...) { p->setException(std::current_exception()); }
            } else if (op == 3) { if (cancelled) vq_end(); f->cancel(); cancelled = true; }
            else if (op == 4) { if (finished || !started || !p) vq_end(); p->finish(); finished = true; }
            else if (op == 5) { if (!p) vq_end(); p.reset(); if (!finished) cancelled = true; finished = true; }        // an abandoned promise cancels and finishes
        };
        while (vq_bool("producer first")) { vq_cut("C15.before"); step(vq_choose(6, "producer")); }
        const bool was = f->isFinished();
        vq_ensure(was == finished, "model.finished");
        {
            auto task = how(*f, &o);
            if (was) { vq_ensure(task.isReady(), "C15.no-suspend-when-finished"); vq_cover("C15.at-once"); delivered = true; }
            for (;;) {
                vq_cut("C15.history");
                vq_ensure(task.isReady() == delivered && o.times == (delivered ? 1 : 0), "C15.resumed-once-when-finished");
                if (delivered) {
                    vq_ensure(o.kind == kind, "C15.exception-or-result");
                    vq_ensure(o.v == (std::is_void_v<T> && kind == Value ? 0 : (has && !(cancelled && !std::is_copy_constructible_v<T>)) || kind != Value ? v : 0), "C15.exception-or-result");
                    if (kind != Value) vq_cover("C15.rethrown"); else if (has) vq_cover("C15.result"); else vq_cover("C15.none");
                    break;
                }
                const unsigned op = vq_choose(8, "event");
                if (op < 6) step(op);
                else if (op == 6) {
                    if (!vqt::pending()) vq_end();
                    vqt::deliver(); 
                    if (finished && task.isReady()) { vq_ensure(!delivered, "C15.resumed-once-when-finished"); delivered = true; vq_cover("C15.waited"); }
                } else { // nothing is left to happen: the task must be done
                    if (!finished || vqt::pending()) vq_end();
                    vq_ensure(task.isReady(), "C15.resumed-once-when-finished"); 
                }
            }
            while (vqt::pending()) { vqt::deliver(); }
            vq_ensure(o.times == 1, "C15.resumed-once-when-finished");
            if (Taking && has && !std::is_void_v<T>) vq_ensure(!f->isValid(), "C15.taking-moves-the-result-out");
            if (!Taking && has && kind == Value) {
                if constexpr (!std::is_void_v<T> && std::is_copy_constructible_v<T>) vq_ensure(f->resultCount() == (more == 2 ? 3 : 1) && f->result().get() == v, "C15.result-stays");
            }
        }
        vq_ensure(vqt::connections() == 0 && vqt::objects() == 0, "C15.nothing-left");
    }
    vq_ensure(alive == 0 && vq_live_heap() == 0, "C15.nothing-leaks");
}
template<class T> Task<> defaultFuture(Outcome *o, bool take) {
    try {
        QFuture<T> f;
        if constexpr (std::is_void_v<T>) { co_await f; o->set(Value, 0); }
        else if (take) { T v = co_await qCoro(f).takeResult(); o->set(Value, v.get()); }
        else { T v = co_await f; o->set(Value, v.get()); }
    } catch (...) { recordException(*o); }
}
} // namespace
VQ_CONTRACT(C15, direct) { awaits<CVal, false>(&How<CVal>::plain); }
VQ_CONTRACT(C15, temporary) { awaits<CVal, false>(&How<CVal>::temporary); }
VQ_CONTRACT(C15, result) { awaits<CVal, false>(&How<CVal>::result); }
VQ_CONTRACT(C15, waitForFinished) { awaits<CVal, false>(&How<CVal>::finished); }
VQ_CONTRACT(C15, takeResult) { awaits<CVal, true>(&How<CVal>::take); }
VQ_CONTRACT(C15, takeMoveOnly) { awaits<MVal, true>(&How<MVal>::take); }
VQ_CONTRACT(C15, voidDirect) { awaits<void, false>(&How<void>::plain); }
VQ_CONTRACT(C15, voidResult) { awaits<void, false>(&How<void>::result); }
VQ_CONTRACT(C15, voidFinished) { awaits<void, false>(&How<void>::finished); }
VQ_CONTRACT(C15, defaultConstructed) {
    alive = 0;
    {
        Outcome a, b, c;
        { auto t = defaultFuture<CVal>(&a, false); auto u = defaultFuture<CVal>(&b, true); auto w = defaultFuture<void>(&c, false);
          vq_ensure(t.isReady() && u.isReady() && w.isReady(), "C15.no-suspend-when-finished"); }
        vq_ensure(a.kind == Value && a.v == 0 && b.kind == Value && b.v == 0 && c.kind == Value, "C15.exception-or-result");
        vq_cover("C15.none");
    }
    vq_ensure(alive == 0 && vq_live_heap() == 0, "C15.nothing-leaks");
}
