// Contracts of QCoro::Generator / QCoro::AsyncGenerator (C08 - C10)
#include "common.h"
#include "qcorogenerator.h"
#include "qcoroasyncgenerator.h"
using namespace vq;
using QCoro::Generator; using QCoro::AsyncGenerator; using QCoro::Task;

namespace {
// What the generator's coroutine does, one step at a time, and what the consumer may have seen of it
struct Script {
    bool requested = false;   // the consumer is asking for the next element
    bool pending = false;     // an element was yielded and not yet delivered
    long cur = 0;             // its value
    int ended = 0;            // 0: running, 1: returned, 2..: threw (kind)
    long err = 0;             // what it threw
    int locals = 0;           // live locals of the coroutine
    int params = 0;           // live parameters of the coroutine
    Gate gate;                // where it may wait in between (async)
    bool started = false;
};
inline void produced(Script *s, long v) {
    vq_ensure(s->requested, "lazy");            // runs only as far as the value requested
    vq_ensure(!s->pending, "none-skipped");
    s->requested = false; s->pending = true; s->cur = v;
}
inline void finished(Script *s, int how, long v) {
    vq_ensure(s->requested, "lazy"); vq_ensure(!s->ended, "ends-once");
    s->requested = false; s->ended = how; s->err = v;
}
enum Form { Lvalue, Rvalue, ConstLvalue, Return, Throw, Wait, NForms };

template<class T, bool Async> std::conditional_t<Async, AsyncGenerator<T>, Generator<T>> body(Script *s, Probe param) {
    using V = std::remove_cv_t<std::remove_reference_t<T>>;
    s->started = true;
    vq_ensure(s->requested, "lazy");
    Probe local(&s->locals);
    for (;;) {
        const unsigned f = vq_choose(Async ? NForms : Wait, "coroutine");
        if (f == Return) { finished(s, Value, 0); co_return; }
        if (f == Throw) { int k = vq_choose(2, "exception") ? EStd : EOther; long e = vq_i64("error"); finished(s, k, e); raise(k, e); }
        if constexpr (Async) { if (f == Wait) { co_await s->gate; continue; } }
        const long v = vq_i64("value");
        if (f == Lvalue) { V x(v); produced(s, v); co_yield x; }
        else if (f == Rvalue) { produced(s, v); co_yield V(v); }
        else {
            if constexpr (std::is_const_v<std::remove_reference_t<T>>) { const V x(v); produced(s, v); co_yield x; }
            else { V x(v); V &r = x; produced(s, v); co_yield r; }
        }
    }
}
inline long valueOf(const CVal &x) { return x.get(); }
inline long valueOf(long x) { return x; }
template<class T> void checkElement(Script *s, T &&x) {
    vq_ensure(s->pending, "none-repeated");
    vq_ensure(valueOf(x) == s->cur, "same-value");
}
} // namespace

// ------------------------------------------------------------------ C08
namespace {
// a consumer that walks the generator, any number of elements, possibly stopping early
template<class T> void walk(bool manyReads) {
    alive = 0;
    Script s; Outcome o;
    {
        Generator<T> g = body<T, false>(&s, Probe(&s.params));
        vq_ensure(!s.started, "C08.not-started-before-begin");
        bool stopped = false;
        try {
            s.requested = true;
            auto it = g.begin();
            for (;;) {
                vq_cut("C08.element");
                vq_ensure(!s.requested, "C08.advanced");
                vq_ensure((it != g.end()) == s.pending, "C08.end-iff-finished");
                vq_ensure((it == g.end()) == (s.ended == Value), "C08.end-iff-finished");
                if (!s.pending) break;
                checkElement(&s, *it);
                if (manyReads) checkElement(&s, *it);
                if (vq_bool("stop early")) { stopped = true; break; }
                s.pending = false; s.requested = true;
                auto &&r = ++it;
                vq_ensure((r == g.end()) == (it == g.end()), "C08.increment-returns-iterator");
            }
        } catch (...) { recordException(o); }
        if (!stopped) {
            vq_ensure(s.ended != 0, "C08.ends-iff-finished");
            vq_ensure(o.times == (s.ended == Value ? 0 : 1), "C08.exception-from-the-advancing-call");
            if (o.times) vq_ensure(o.kind == s.ended && o.v == s.err, "C08.same-exception");
            if (vq_bool("iterate again")) {
                int n = 0;
                for (auto &&x : g) { (void)x; ++n; vq_unreachable("C08.nothing-after-the-end"); }
                vq_ensure(n == 0, "C08.nothing-after-the-end");
                vq_cover("C08.iterated-again");
            }
            vq_cover("C08.ended");
        } else { vq_ensure(o.times == 0, "C08.no-exception"); vq_cover("C08.stopped"); }
    }
    vq_ensure(s.locals == 0 && s.params == 0 && alive == 0, "C08.coroutine-destroyed");
    vq_ensure(vq_live_heap() == 0, "C08.nothing-leaks");
}
}
VQ_CONTRACT(C08, scalar) { walk<long>(vq_bool("reads twice")); }
VQ_CONTRACT(C08, object) { walk<CVal>(vq_bool("reads twice")); }
VQ_CONTRACT(C08, constObject) { walk<const CVal>(false); }
VQ_CONTRACT(C08, reference) { walk<CVal &>(false); }
VQ_CONTRACT(C08, rangeFor) {
    Script s; Outcome o;
    {
        auto g = body<long, false>(&s, Probe(&s.params));
        try {
            s.requested = true;
            for (long v : g) {
                vq_cut("C08.element");
                checkElement(&s, v);
                s.pending = false; s.requested = true;
            }
        } catch (...) { recordException(o); }
        vq_ensure(s.ended && !s.pending && o.times == (s.ended != Value), "C08.every-element-then-end");
        if (o.times) vq_ensure(o.kind == s.ended && o.v == s.err, "C08.same-exception");
        vq_cover("C08.range");
    }
    vq_ensure(s.locals == 0 && s.params == 0 && vq_live_heap() == 0, "C08.coroutine-destroyed");
}
VQ_CONTRACT(C08, emptyGenerator) {
    Script s;
    {
        Generator<long> g;
        vq_ensure(g.begin() == g.end(), "C08.empty-generator-is-at-end");
        auto from = body<long, false>(&s, Probe(&s.params));
        auto to = std::move(from);
        for (long v : from) { (void)v; vq_unreachable("C08.moved-from-generator-has-no-element"); }
        vq_ensure(!s.started && s.params == 1, "C08.moved-from-generator-has-no-element");
        vq_cover("C08.empty");
    }
    vq_ensure(s.params == 0 && vq_live_heap() == 0, "C08.coroutine-destroyed");
}

// ------------------------------------------------------------------ C09
namespace {
struct Consumer { Outcome o; int done = 0; bool stopped = false; bool busy = false; Gate gate; };
// the consumer awaits elements, may itself suspend in between, may stop early
template<class T> Task<> consume(AsyncGenerator<T> *g, Script *s, Consumer *c) {
    try {
        s->requested = true; c->busy = true;
        auto it = co_await g->begin();
        for (;;) {
            vq_ensure(c->busy, "C09.resumed-once-per-request");
            c->busy = false;
            vq_ensure(!s->requested, "C09.resumed-only-when-available");
            vq_ensure((it != g->end()) == s->pending, "C09.end-iff-finished");
            vq_ensure((it == g->end()) == (s->ended == Value), "C09.end-iff-finished");
            if (!s->pending) break;
            checkElement(s, *it);
            unsigned w = vq_choose(3, "consumer");
            if (w == 1) { c->stopped = true; break; }
            if (w == 2) { co_await c->gate; checkElement(s, *it); }
            vq_cut("C09.element");
            s->pending = false; s->requested = true; c->busy = true;
            auto &&r = co_await ++it;
            vq_ensure((r == g->end()) == (it == g->end()), "C09.increment-yields-iterator");
        }
    } catch (...) { vq_ensure(c->busy, "C09.resumed-once-per-request"); c->busy = false; recordException(c->o); }
    if (!c->stopped && vq_bool("iterate again")) {
        auto it = co_await g->begin();
        vq_ensure(it == g->end(), "C09.nothing-after-the-end");
        vq_cover("C09.iterated-again");
    }
    ++c->done;
}
template<class T> void asyncWalk() {
    alive = 0;
    {
        Script s; Consumer c;
        {
            AsyncGenerator<T> g = body<T, true>(&s, Probe(&s.params));
            vq_ensure(!s.started, "C09.not-started-before-begin");
            {
                auto t = consume<T>(&g, &s, &c);
                for (;;) {
                    vq_cut("C09.waiting");
                    vq_ensure(!(s.gate.waiting() && c.gate.waiting()), "C09.one-runs-at-a-time");
                    vq_ensure((s.gate.waiting() || c.gate.waiting()) == !c.done, "C09.consumer-waits-for-the-producer-only");
                    vq_ensure(c.busy == s.gate.waiting() && s.requested == c.busy, "C09.resumed-iff-available");
                    if (c.done) break;
                    if (s.gate.waiting()) s.gate.open(); else c.gate.open();
                }
                vq_ensure(c.done == 1 && t.isReady(), "C09.ends-once");
            }
            if (!c.stopped) {
                vq_ensure(s.ended && !s.pending, "C09.every-element-then-end");
                vq_ensure(c.o.times == (s.ended == Value ? 0 : 1), "C09.exception-from-the-await");
                if (c.o.times) vq_ensure(c.o.kind == s.ended && c.o.v == s.err, "C09.same-exception");
                vq_cover("C09.ended");
            } else vq_cover("C09.stopped");
        }
        vq_ensure(s.locals == 0 && s.params == 0, "C09.coroutine-destroyed");
    }
    vq_ensure(alive == 0 && vq_live_heap() == 0, "C09.nothing-leaks");
}
}
VQ_CONTRACT(C09, scalar) { asyncWalk<long>(); }
VQ_CONTRACT(C09, object) { asyncWalk<CVal>(); }
VQ_CONTRACT(C09, constObject) { asyncWalk<const CVal>(); }
VQ_CONTRACT(C09, reference) { asyncWalk<CVal &>(); }
namespace {
Task<> foreachConsumer(Script *s, Consumer *c) {
    try {
        s->requested = true;
        QCORO_FOREACH(long v, (body<long, true>(s, Probe(&s->params)))) {
            checkElement(s, v);
            unsigned w = vq_choose(3, "consumer");
            if (w == 1) { c->stopped = true; break; }
            if (w == 2) co_await c->gate;
            vq_cut("C09.element");
            s->pending = false; s->requested = true;
        }
    } catch (...) { recordException(c->o); }
    ++c->done;
}
Task<> emptyConsumer(int *done) {
    Script s;
    auto g = body<long, true>(&s, Probe(&s.params));
    if (vq_bool("moved from")) { auto to = std::move(g); } else g = AsyncGenerator<long>();
    auto it = co_await g.begin();
    vq_ensure(it == g.end(), "C09.empty-generator-is-at-end");
    QCORO_FOREACH(long v, g) { (void)v; vq_unreachable("C09.empty-generator-has-no-element"); }
    ++*done;
}
}
namespace {
// two coroutines take turns at the same iteration, or begin anew where the other stopped
struct Turns { std::optional<QCoro::AsyncGenerator<long>::iterator> it; bool stop = false; bool ended = false; Outcome o; };
Task<> takesTurns(AsyncGenerator<long> *g, Script *s, Turns *t, Consumer *c) {
    for (;;) {
        co_await c->gate;
        if (t->stop) break;
        bool again = false; // goes on
        try {
            s->pending = false; s->requested = !t->ended; c->busy = true;
            again = t->it && !t->ended && !vq_choose(2, "begin again");
            if (!again) // (an iterator at the end is not incremented)
                { auto it = co_await g->begin(); t->it.emplace(it); }
            else co_await ++*t->it;
            vq_ensure(c->busy, "C09.resumed-once-per-request"); c->busy = false;
            vq_ensure(!s->requested, "C09.resumed-only-when-available");
            if (t->ended) { vq_ensure(*t->it == g->end(), "C09.nothing-after-the-end"); continue; }
            vq_ensure((*t->it != g->end()) == s->pending, "C09.end-iff-finished");
            if (s->pending) checkElement(s, **t->it); else t->ended = true;
        } catch (...) { vq_ensure(c->busy, "C09.resumed-once-per-request"); c->busy = false; recordException(t->o); t->ended = true; if (t->it && again) vq_ensure(*t->it == g->end(), "C09.end-after-an-exception"); }
    }
    ++c->done;
}
}
VQ_CONTRACT(C09, takeTurns) {
    {
        Script s; Consumer c[2]; Turns t;
        {
            AsyncGenerator<long> g = body<long, true>(&s, Probe(&s.params));
            auto x = takesTurns(&g, &s, &t, &c[0]); auto y = takesTurns(&g, &s, &t, &c[1]);
            for (;;) {
                vq_cut("C09.turns");
                vq_ensure((c[0].busy || c[1].busy) == s.gate.waiting() && !(c[0].busy && c[1].busy), "C09.resumed-iff-available");
                for (auto &k : c) vq_ensure(k.gate.waiting() == !k.busy && !k.done, "C09.the-one-that-asked-is-resumed");
                if (s.gate.waiting()) { s.gate.open(); continue; }
                const unsigned k = vq_choose(3, "turn");
                if (k == 2) break;
                c[k].gate.open();
            }
            t.stop = true; for (auto &k : c) k.gate.open();
            vq_ensure(c[0].done == 1 && c[1].done == 1, "C09.ends-once");
            if (t.ended && s.started) { vq_ensure(t.o.times == (s.ended != Value), "C09.exception-from-the-await"); if (t.o.times) vq_ensure(t.o.kind == s.ended && t.o.v == s.err, "C09.same-exception"); }
            vq_cover("C09.turns");
        }
        vq_ensure(s.locals == 0 && s.params == 0, "C09.coroutine-destroyed");
    }
    vq_ensure(vq_live_heap() == 0, "C09.nothing-leaks");
}
VQ_CONTRACT(C09, foreachMacro) {
    {
        Script s; Consumer c;
        {
            auto t = foreachConsumer(&s, &c);
            while (!c.done) {
                vq_cut("C09.waiting");
                vq_ensure(s.gate.waiting() != c.gate.waiting(), "C09.consumer-waits-for-the-producer-only");
                if (s.gate.waiting()) s.gate.open(); else c.gate.open();
            }
        }
        if (!c.stopped) {
            vq_ensure(s.ended && !s.pending && c.o.times == (s.ended != Value), "C09.every-element-then-end");
            if (c.o.times) vq_ensure(c.o.kind == s.ended && c.o.v == s.err, "C09.same-exception");
        }
        vq_ensure(s.locals == 0 && s.params == 0, "C09.coroutine-destroyed");
        vq_cover("C09.foreach");
    }
    vq_ensure(vq_live_heap() == 0, "C09.nothing-leaks");
}
VQ_CONTRACT(C09, emptyGenerator) { { int done = 0; auto t = emptyConsumer(&done); vq_ensure(done == 1, "C09.empty-ends-at-once"); } vq_cover("C09.empty"); vq_ensure(vq_live_heap() == 0, "C09.nothing-leaks"); }

// ------------------------------------------------------------------ C10
namespace {
struct Life { int params = 0, locals = 0; bool started = false, ended = false; Gate gate; };
template<class T, bool Async> std::conditional_t<Async, AsyncGenerator<T>, Generator<T>> living(Life *s, Probe param) {
    s->started = true;
    {
        Probe local(&s->locals);
        for (;;) {
            const unsigned f = vq_choose(Async ? 4 : 3, "coroutine");
            if (f == 0) break;
            if (f == 1) { s->ended = true; throw OtherErr(1); }
            if constexpr (Async) { if (f == 3) { co_await s->gate; continue; } }
            co_yield T(1);
        }
    }
    s->ended = true;
}
template<class T, bool Async> struct Pool {
    using G = std::conditional_t<Async, AsyncGenerator<T>, Generator<T>>;
    Life s[3];          // one per coroutine
    std::optional<G> slot[2];
    int owner[2] = {-1, -1};
    Pool() { slot[0].emplace(); slot[1].emplace(); }
    int freeId() { for (int i = 0; i < 3; ++i) { bool o = owner[0] == i || owner[1] == i; if (!o) return i; } return 0; }
    // identities are interchangeable: the owners are numbered in order
    void check() {
        for (int i = 0; i < 3; ++i) {
            const bool owned = owner[0] == i || owner[1] == i;
            vq_ensure(s[i].params == (owned ? 1 : 0), "C10.coroutine-alive-iff-owned");
            vq_ensure(s[i].locals == (owned && s[i].started && !s[i].ended ? 1 : 0), "C10.locals-alive-iff-owned");
            if (!owned) s[i] = Life{};
        }
    }
};
// an unmanaged coroutine, for a consumer that is abandoned together with the generator
struct Fire {
    struct promise_type {
        Fire get_return_object() { return Fire{std::coroutine_handle<promise_type>::from_promise(*this)}; }
        std::suspend_never initial_suspend() noexcept { return {}; }
        std::suspend_always final_suspend() noexcept { return {}; }
        void return_void() {}
        void unhandled_exception() { vq_unreachable("unexpected exception"); }
    };
    std::coroutine_handle<promise_type> h;
    ~Fire() { if (h) h.destroy(); }
};
template<class T> Fire takeOne(AsyncGenerator<T> *g, bool *got, bool *end) {
    try { auto it = co_await g->begin(); *got = true; *end = it == g->end(); if (it != g->end()) { auto &r = *it; (void)valueOf(r); } } catch (...) { *got = *end = true; }
}
template<class T, bool Async> void owners() {
    alive = 0;
    {
        Pool<T, Async> p;
        {
            for (;;) {
                vq_cut("C10.history");
                p.check();
                unsigned op = vq_choose(7, "operation");
                if (op == 6) break;
                const unsigned k = vq_choose(2, "generator");
                if (op == 0) { // a new coroutine is assigned
                    if (!p.slot[k]) vq_end();
                    const int id = p.freeId();
                    *p.slot[k] = living<T, Async>(&p.s[id], Probe(&p.s[id].params));
                    p.owner[k] = id;
                    vq_ensure(!p.s[id].started, "C10.not-started");
                } else if (op == 1) { // advance
                    if (!p.slot[k]) vq_end();
                    Life none; none.ended = true;
                    Life &s = p.owner[k] < 0 ? none : p.s[p.owner[k]];
                    if constexpr (!Async) {
                        try { auto it = p.slot[k]->begin(); vq_ensure((it == p.slot[k]->end()) == s.ended, "C10.end-iff-finished"); } catch (const OtherErr &) { vq_ensure(s.ended, "C10.end-iff-finished"); }
                    } else {
                        bool got = false, end = false;
                        Fire f = takeOne<T>(&*p.slot[k], &got, &end);
                        vq_ensure(!got || end == s.ended, "C10.end-iff-finished");
                        vq_ensure(got == !s.gate.waiting(), "C10.waiting-iff-suspended");
                        if (!got) { // destroy the generator while it is suspended on something else
                            p.slot[k].reset(); scrub(p.slot[k]); p.owner[k] = -1; s.gate.h = nullptr;
                            vq_ensure(s.locals == 0 && s.params == 0, "C10.destroyed-wherever-suspended");
                        }
                    }
                } else if (op == 2) { // destruction
                    if (!p.slot[k]) vq_end();
                    p.slot[k].reset(); scrub(p.slot[k]); p.owner[k] = -1;
                } else if (op == 3) { // move assignment, also to itself
                    const unsigned b = vq_choose(2, "from"); if (!p.slot[k] || !p.slot[b]) vq_end();
                    auto &to = *p.slot[k]; auto &from = *p.slot[b];
                    to = std::move(from);
                    if (k != b) { p.owner[k] = p.owner[b]; p.owner[b] = -1; }
                } else if (op == 4) { // move construction
                    const unsigned b = 1 - k; if (p.slot[k] || !p.slot[b]) vq_end();
                    p.slot[k].emplace(std::move(*p.slot[b])); p.owner[k] = p.owner[b]; p.owner[b] = -1;
                } else { // swap
                    if (!p.slot[0] || !p.slot[1]) vq_end();
                    if constexpr (Async) { if (k) p.slot[0]->swap(*p.slot[1]); else swap(*p.slot[0], *p.slot[1]); }
                    else std::swap(*p.slot[0], *p.slot[1]);
                    std::swap(p.owner[0], p.owner[1]);
                }
            }
            p.slot[0].reset(); p.slot[1].reset(); p.owner[0] = p.owner[1] = -1;
            p.check();
            vq_cover("C10.history");
        }
    }
    vq_ensure(alive == 0 && vq_live_heap() == 0, "C10.nothing-leaks");
}
}
VQ_CONTRACT(C10, generator) { owners<CVal, false>(); }
VQ_CONTRACT(C10, asyncGenerator) { owners<CVal, true>(); }
VQ_CONTRACT(C10, temporaries) {
    alive = 0;
    {
        Script s;
        { auto g = body<CVal, false>(&s, Probe(&s.params)); auto h = std::move(g); (void)h; }
        vq_ensure(s.params == 0 && !s.started, "C10.never-started-destroyed");
        { auto g = body<CVal, true>(&s, Probe(&s.params)); auto h = std::move(g); (void)h; }
        vq_ensure(s.params == 0 && !s.started, "C10.never-started-destroyed");
        vq_cover("C10.temporaries");
    }
    vq_ensure(alive == 0 && vq_live_heap() == 0, "C10.nothing-leaks");
}
