// Contracts of the awaitable signals and timers (C11 - C14)
#include "common.h"
#include "many.h"
#include "qtmodel.h"
#include "qcorosignal.h"
#include "qcorotimer.h"
#include <chrono>
using namespace vq;
using QCoro::Task;
using std::chrono::milliseconds;

class Sender : public QObject {
    Q_OBJECT
public:
    void none() { vqt::fire(this, &Sender::none); }
    void one(long a) { vqt::fire(this, &Sender::one, a); }
    void byRef(const CVal &v) { vqt::fire(this, &Sender::byRef, v); }
    void two(long a, const CVal &b) { vqt::fire(this, &Sender::two, a, b); }
    void priv(QPrivateSignal p) { vqt::fire(this, &Sender::priv, p); }
    void privOne(long a, QPrivateSignal p) { vqt::fire(this, &Sender::privOne, a, p); }
    void privTwo(long a, const CVal &b, QPrivateSignal p) { vqt::fire(this, &Sender::privTwo, a, b, p); }
    void other(long a) { vqt::fire(this, &Sender::other, a); }
    static QPrivateSignal tag() { return {}; }
};
VQ_META(Sender, QObject)

namespace {
struct Em { long a, b; };
// the kinds of signals: how to name, emit and read them
struct NoArgs { static constexpr auto sig = &Sender::none; static void emitIt(Sender *s, Em) { s->none(); } static Em get(const std::tuple<> &) { return {0, 0}; } static constexpr int n = 0; };
struct One { static constexpr auto sig = &Sender::one; static void emitIt(Sender *s, Em e) { s->one(e.a); } static Em get(const long &v) { return {v, 0}; } static constexpr int n = 1; };
struct ByRef { static constexpr auto sig = &Sender::byRef; static void emitIt(Sender *s, Em e) { s->byRef(CVal(e.a)); } static Em get(const CVal &v) { return {v.get(), 0}; } static constexpr int n = 1; };
struct Two { static constexpr auto sig = &Sender::two; static void emitIt(Sender *s, Em e) { s->two(e.a, CVal(e.b)); } static Em get(const std::tuple<long, CVal> &v) { return {std::get<0>(v), std::get<1>(v).get()}; } static constexpr int n = 2; };
struct Priv { static constexpr auto sig = &Sender::priv; static void emitIt(Sender *s, Em) { s->priv(Sender::tag()); } static Em get(const std::tuple<> &) { return {0, 0}; } static constexpr int n = 0; };
struct PrivOne { static constexpr auto sig = &Sender::privOne; static void emitIt(Sender *s, Em e) { s->privOne(e.a, Sender::tag()); } static Em get(const long &v) { return {v, 0}; } static constexpr int n = 1; };
struct PrivTwo { static constexpr auto sig = &Sender::privTwo; static void emitIt(Sender *s, Em e) { s->privTwo(e.a, CVal(e.b), Sender::tag()); } static Em get(const std::tuple<long, CVal> &v) { return {std::get<0>(v), std::get<1>(v).get()}; } static constexpr int n = 2; };
template<class K> Em fresh() { Em e{0, 0}; if (K::n > 0) e.a = vq_i64("argument"); if (K::n > 1) e.b = vq_i64("argument"); return e; }

struct Got { int times = 0; bool value = false; Em e{0, 0}; };
template<class K> Task<> waits(Sender *s, Got *g) {
    auto v = co_await qCoro(s, K::sig);
    ++g->times; g->value = true; g->e = K::get(v);
}
template<class K> Task<> waitsFor(Sender *s, Got *g, milliseconds t) {
    auto v = co_await qCoro(s, K::sig, t);
    ++g->times; g->value = v.has_value(); if (v) g->e = K::get(*v);
}
constexpr int MaxPending = 2; // undelivered emissions at any one time

// ------------------------------------------------------------------ C11, C12
// requires: any sender, any timeout (or none), any history of emissions, deliveries, expiry and destruction
// ensures:  see C11/C12: one resumption, by the first emission delivered or the timeout
template<class K> void signalAwait(bool timed) {
    alive = 0;
    {
        std::optional<Sender> s; s.emplace(); Sender s2;
        const int t = timed ? vq_i32("timeout") : -1;
        const bool limited = timed && t >= 0;
        Got g; bool first = false, sent = false; Em e{0, 0}; bool gone = false, expired = false;
        if (vq_bool("earlier emission")) K::emitIt(&*s, fresh<K>());
        vq_ensure(vqt::pending() == 0, "C11.earlier-emission-ignored");
        {
            auto task = timed ? waitsFor<K>(&*s, &g, milliseconds(t)) : waits<K>(&*s, &g);
            vq_ensure(g.times == 0, "C11.suspends-until-emitted");
            for (;;) {
                vq_cut("C11.history");
                vq_ensure(g.times == (first || expired ? 1 : 0), "C11.resumed-exactly-once");
                vq_ensure(task.isReady() == (g.times == 1), "C11.finished-iff-resumed");
                if (first) { vq_ensure(g.value && g.e.a == e.a && g.e.b == e.b, "C11.arguments-of-the-first-emission"); }
                if (expired) vq_ensure(!g.value, "C12.timeout-yields-nothing");
                QTimer *timer = vqt::running();
                vq_ensure((timer != nullptr) == (limited && !first && !expired), "C12.timer-runs-iff-limited-and-waiting");
                if (timer) vq_ensure(timer->interval() == t && timer->isSingleShot(), "C12.exact-timeout");
                if (g.times) { vq_ensure(vqt::pending() == 0 && vqt::connections() == 0, "C11.no-further-effect"); e = Em{0, 0}; g.e = e; }
                if (g.times && first) { first = true; }
                const unsigned op = vq_choose(7, "event");
                if (op == 6) break;
                if (op == 0) { // an emission
                    if (gone || vqt::pending() >= MaxPending) vq_end();
                    const Em x = fresh<K>(); if (!sent && !g.times) { sent = true; e = x; }
                    K::emitIt(&*s, x);
                    if (g.times) vq_ensure(vqt::pending() == 0, "C11.later-emission-ignored");
                } else if (op == 1) { if (gone) vq_end(); const Em x = fresh<One>(); const int p = vqt::pending(); s->other(x.a); vq_ensure(vqt::pending() == p, "C11.other-signal-ignored"); }
                else if (op == 2) { const int p = vqt::pending(); K::emitIt(&s2, fresh<K>()); vq_ensure(vqt::pending() == p, "C11.other-object-ignored"); }
                else if (op == 3) { if (!vqt::pending()) vq_end(); vq_ensure(sent && !g.times, "C11.no-further-effect"); vqt::deliver(); first = true; }
                else if (op == 4) { if (!timer) vq_end(); vqt::expire(timer); expired = true; }
                else { if (gone) vq_end(); s.reset(); gone = true; }
            }
            // drain: the wait can still end
            if (!g.times) {
                if (vqt::pending()) { vqt::deliver(); first = true; }
                else if (limited) { QTimer *timer = vqt::running(); vq_ensure(timer, "C12.timer-runs-iff-limited-and-waiting"); vqt::expire(timer); expired = true; }
                else if (!gone) { e = fresh<K>(); K::emitIt(&*s, e); vqt::deliver(); first = true; }
                else { vq_end(); }
                vq_ensure(g.times == 1 && g.value == first, "C11.resumed-exactly-once");
                if (first) vq_ensure(g.e.a == e.a && g.e.b == e.b, "C11.arguments-of-the-first-emission");
            }
            vq_cover("C11.resumed");
            if (expired) vq_cover("C12.expired");
        }
        vq_ensure(vqt::connections() == 0 && vqt::pending() == 0 && !vqt::running(), "C11.nothing-left");
    }
    vq_ensure(alive == 0 && vq_live_heap() == 0 && vqt::objects() == 0, "C11.nothing-leaks");
}
// requires: nothing (the object is gone)
// ensures:  the await does not suspend, there is nothing to yield
template<class K> void senderIsGone() {
    alive = 0;
    {
        Got g;
        if (vq_bool("timed")) { auto task = waitsFor<K>(nullptr, &g, milliseconds(vq_i32("timeout"))); vq_ensure(g.times == 1 && task.isReady() && !g.value, "C11.gone-does-not-suspend"); }
        else { auto task = waits<K>(nullptr, &g); vq_ensure(g.times == 1 && task.isReady() && g.e.a == 0 && g.e.b == 0, "C11.gone-does-not-suspend"); }
        vq_ensure(vqt::connections() == 0 && vqt::pending() == 0 && !vqt::running(), "C11.nothing-left");
        vq_cover("C11.gone");
    }
    vq_ensure(alive == 0 && vq_live_heap() == 0 && vqt::objects() == 0, "C11.nothing-leaks");
}
} // namespace
VQ_CONTRACT(C11, goneNone) { senderIsGone<NoArgs>(); }
VQ_CONTRACT(C11, goneOne) { senderIsGone<One>(); }
VQ_CONTRACT(C11, goneByRef) { senderIsGone<ByRef>(); }
VQ_CONTRACT(C11, goneTwo) { senderIsGone<Two>(); }
VQ_CONTRACT(C11, gonePrivateTwo) { senderIsGone<PrivTwo>(); }
VQ_CONTRACT(C11, none) { signalAwait<NoArgs>(false); }
VQ_CONTRACT(C11, one) { signalAwait<One>(false); }
VQ_CONTRACT(C11, byRef) { signalAwait<ByRef>(false); }
VQ_CONTRACT(C11, two) { signalAwait<Two>(false); }
VQ_CONTRACT(C11, privateNone) { signalAwait<Priv>(false); }
VQ_CONTRACT(C11, privateOne) { signalAwait<PrivOne>(false); }
VQ_CONTRACT(C11, privateTwo) { signalAwait<PrivTwo>(false); }
VQ_CONTRACT(C12, one) { signalAwait<One>(true); }
VQ_CONTRACT(C12, two) { signalAwait<Two>(true); }
VQ_CONTRACT(C12, privateNone) { signalAwait<Priv>(true); }

namespace {
// ------------------------------------------------------------------ C13
constexpr int MaxOut = 3; // emissions that are not consumed yet, at any one time
struct Lis {
    Em fifo[MaxOut]; int n = 0;      // emitted, not yet delivered to the consumer
    bool waiting = false, ended = false, left = false;
    Gate gate;
    QThread *home = nullptr;
};
template<class K> void took(Lis *st, Em e) {
    vq_ensure(st->waiting, "C13.resumed-only-while-waiting"); st->waiting = false;
    vq_ensure(vqt::current == st->home, "C13.resumed-in-its-thread");
    vq_ensure(st->n > 0, "C13.no-element-without-emission");
    vq_ensure(e.a == st->fifo[0].a && e.b == st->fifo[0].b, "C13.in-order-with-its-arguments");
    for (int i = 1; i < st->n; ++i) st->fifo[i - 1] = st->fifo[i];
    st->fifo[--st->n] = Em{0, 0};
}
template<class K> Task<> listens(Sender *s, Lis *st, milliseconds t) {
    auto gen = qCoroSignalListener(s, K::sig, t);
    while (vq_bool("starts later")) co_await st->gate;
    st->waiting = true;
    auto it = co_await gen.begin();
    while (it != gen.end()) {
        { const auto v = std::move(*it); took<K>(st, K::get(v)); }
        unsigned c; 
        while ((c = vq_choose(3, "consumer")) == 1) co_await st->gate;  // busy with something else
        if (c == 2) { st->left = true; co_return; }
        st->waiting = true;
        co_await ++it;
    }
    vq_ensure(st->waiting, "C13.resumed-only-while-waiting"); st->waiting = false;
    st->ended = true;
    while (vq_bool("lives on")) co_await st->gate;                      // the generator is still around
}
template<class K> void listener(bool timed) {
    alive = 0;
    {
        std::optional<Sender> s; s.emplace();
        const int t = timed ? vq_i32("timeout") : -1;
        const bool limited = timed && t >= 0;
        QThread worker, mine; vqt::current = &mine; // the emitter may live in another thread
        Lis st; st.home = &mine; bool gone = false, expired = false;
        K::emitIt(&*s, fresh<K>());                   // before the generator exists
        vq_ensure(vqt::pending() == 0, "C13.earlier-emission-ignored");
        {
            auto task = listens<K>(&*s, &st, milliseconds(t));
            for (;;) {
                vq_cut("C13.history");
                const bool over = st.ended || st.left;
                vq_ensure(task.isReady() == (over && !st.gate.waiting()), "C13.consumer-finishes");
                vq_ensure(!st.ended || expired || gone, "C13.ends-only-on-timeout");
                vq_ensure(!expired || over, "C13.timeout-ends-it");
                vq_ensure(!(st.waiting && st.n > vqt::pending()), "C13.none-held-back");
                QTimer *timer = vqt::running();
                vq_ensure((timer != nullptr) == (limited && st.waiting), "C13.each-wait-is-limited");
                if (timer) vq_ensure(timer->interval() == t && timer->isSingleShot(), "C13.exact-timeout");
                if (over) { st.n = 0; for (auto &x : st.fifo) x = Em{0, 0}; }
                if (st.left && !st.gate.waiting()) vq_ensure(vqt::pending() == 0 && vqt::connections() == 0, "C13.no-effect-after-leaving");
                const unsigned op = vq_choose(6, "event");
                if (op == 5) break;
                if (op == 0) {
                    if (gone || (over ? vqt::pending() >= MaxPending : st.n >= MaxOut)) vq_end();
                    const Em x = fresh<K>(); if (!over) st.fifo[st.n++] = x;
                    if (vq_bool("from another thread")) vqt::current = &worker;
                    K::emitIt(&*s, x);
                    vqt::current = &mine;
                } else if (op == 1) { if (!vqt::pending()) vq_end(); vqt::current = &worker; vqt::deliver(); vqt::current = &mine; vq_cover("C13.delivered"); }
                else if (op == 2) { if (!st.gate.waiting()) vq_end(); st.gate.open(); }
                else if (op == 3) { if (!timer) vq_end(); expired = true; vqt::current = &worker; vqt::expire(timer); vqt::current = &mine; vq_cover("C13.expired"); }
                else { if (gone) vq_end(); s.reset(); gone = true; }
            }
            if (!task.isReady()) vq_end();            // a waiting or busy consumer is not destroyed here
        }
        vqt::current = nullptr;
        vq_ensure(vqt::connections() == 0 && vqt::pending() == 0 && !vqt::running(), "C13.nothing-left");
    }
    vq_ensure(alive == 0 && vq_live_heap() == 0 && vqt::objects() == 0, "C13.nothing-leaks");
}
} // namespace
// requires: any number of emissions that the busy consumer has not asked for yet
// ensures:  one more emission comes last and changes none of them; the consumer gets the first of them at once
namespace {
struct Taking { Gate gate; int times = 0; long last = 0; bool stop = false; };
Task<> takes(Sender *s, Taking *g, milliseconds t) {
    auto gen = qCoroSignalListener(s, &Sender::one, t);
    auto it = co_await gen.begin();
    while (it != gen.end()) {
        g->last = *it; ++g->times;
        co_await g->gate; if (g->stop) break;
        co_await ++it;
    }
}
}
VQ_CONTRACT(C13, anyNumberWaiting) {
    {
        Sender s; Taking g; std::int64_t n = vq_i64("waiting"); vq_assume(n >= 0 && n < (1L << 40));
        const long a = vq_i64("first"), b = vq_i64("last but one"), x = vq_i64("last");
        auto emits = [&s](long v) { s.one(v); vqt::deliver(); };
        {
            auto task = takes(&s, &g, milliseconds(vq_choose(2, "timed") ? 1000 : -1));
            emits(0); vq_ensure(g.times == 1, "C13.delivered");
            emits(a);
            const std::int64_t real = reallyThere(n); for (long i = 0; i < real; ++i) emits(i);
            emits(b);
            const bool hidden = real == 0 && moreWaiting(n);
            emits(x);
            vq_ensure(!hidden || others() == n, "C13.none-dropped");
            g.gate.open(); vq_ensure(g.times == 2 && g.last == a, "C13.in-order-with-its-arguments"); // at once
            vq_ensure(!hidden || others() == n, "C13.none-dropped"); if (hidden) moreWaiting(0);
            for (long i = 0; i < real; ++i) { g.gate.open(); vq_ensure(g.times == 3 + i && g.last == i, "C13.in-order-with-its-arguments"); }
            g.gate.open(); vq_ensure(g.times == 3 + real && g.last == b, "C13.in-order-with-its-arguments");
            g.gate.open(); vq_ensure(g.times == 4 + real && g.last == x, "C13.in-order-with-its-arguments");
            vq_cover("C13.any-number");
            g.stop = true; g.gate.open();
        }
        vq_ensure(vqt::connections() == 0 && vqt::pending() == 0 && !vqt::running(), "C13.nothing-left");
    }
    vq_ensure(vq_live_heap() == 0 && vqt::objects() == 0, "C13.nothing-leaks");
}
VQ_CONTRACT(C13, gone) { // the emitter is gone when the listener is made, or before its first element is requested
    alive = 0;
    {
        std::optional<Sender> s; s.emplace();
        const int t = vq_i32("timeout"); const bool before = vq_bool("before");
        Lis st; st.home = nullptr;
        if (before) s.reset();
        Gate gate;
        {
            auto go = [](Sender *s, Lis *st, Gate *gate, milliseconds t) -> Task<> {
                auto gen = qCoroSignalListener(s, &Sender::byRef, t);
                co_await *gate;
                auto it = co_await gen.begin();
                vq_ensure(it == gen.end(), "C13.nothing-from-an-object-that-is-gone"); st->ended = true;
            };
            auto task = go(before ? nullptr : &*s, &st, &gate, milliseconds(t));
            s.reset();
            gate.open();
            vq_ensure(st.ended && task.isReady(), "C13.ends-when-the-object-is-gone");
            vq_cover("C13.gone");
        }
        vq_ensure(vqt::connections() == 0 && vqt::pending() == 0 && !vqt::running(), "C13.nothing-left");
    }
    vq_ensure(alive == 0 && vq_live_heap() == 0 && vqt::objects() == 0, "C13.nothing-leaks");
}
VQ_CONTRACT(C13, one) { listener<One>(false); }
VQ_CONTRACT(C13, oneTimed) { listener<One>(true); }
VQ_CONTRACT(C13, byRef) { listener<ByRef>(false); }
VQ_CONTRACT(C13, two) { listener<Two>(true); }
VQ_CONTRACT(C13, privateNone) { listener<Priv>(true); }
VQ_CONTRACT(C13, privateTwo) { listener<PrivTwo>(false); }
namespace {
// ------------------------------------------------------------------ C14
struct Tick { int times = 0; };
struct ByRefTimer { static Task<> go(QTimer *t, Tick *g) { co_await *t; ++g->times; } static constexpr bool queued = false; };
struct ByPtrTimer { static Task<> go(QTimer *t, Tick *g) { co_await t; ++g->times; } static constexpr bool queued = false; };
struct Wrapped { static Task<> go(QTimer *t, Tick *g) { co_await qCoro(t).waitForTimeout(); ++g->times; } static constexpr bool queued = true; };
struct WrappedRef { static Task<> go(QTimer *t, Tick *g) { co_await qCoro(*t).waitForTimeout(); ++g->times; } static constexpr bool queued = true; };
void settings(QTimer *t, int interval) {
    t->setInterval(interval); vq_assume(t->interval() >= 0);
    t->setSingleShot(vq_choose(2, "single shot"));
    if (vq_bool("running")) t->start();
}
// requires: a timer in any state; any history of timeouts, restarts, stops, changes and destruction
// ensures:  one resumption, at the first timeout after the await; none needed when it is not running
template<class K> void timerAwait() {
    {
        std::optional<QTimer> t; t.emplace(); QTimer other; const int iv = vq_i32("interval"); settings(&*t, iv); other.start(7);
        const bool wasActive = t->isActive();
        struct State { bool active, single; int interval; bool operator==(const State &) const = default; };
        const auto state = [](QTimer &t) { return State{t.isActive(), t.isSingleShot(), t.interval()}; };
        const State initially = state(*t);
        Tick g; bool fired = false, gone = false;
        {
            auto task = K::go(&*t, &g);
            vq_ensure(state(*t) == initially, "C14.timer-left-as-it-is");
            if (!wasActive) { vq_ensure(g.times == 1, "C14.no-suspend-when-not-running"); vq_cover("C14.idle"); }
            const bool at = wasActive;
            for (;;) {
                vq_cut("C14.history");
                const bool due = !at || (fired && !(K::queued && vqt::pending()));
                vq_ensure(g.times == (due ? 1 : 0), "C14.resumed-at-the-next-timeout");
                vq_ensure(task.isReady() == due, "C14.finished-iff-resumed");
                if (due) vq_ensure(vqt::pending() == 0 && vqt::connections() == 0, "C14.no-further-effect");
                const unsigned op = vq_choose(6, "event");
                if (op == 5) break;
                if (op == 0) { if (gone || !t->isActive() || vqt::pending()) vq_end(); State after = state(*t); after.active = !after.single; vqt::expire(&*t); vq_ensure(state(*t) == after, "C14.timer-left-as-it-is"); fired = true; vq_cover("C14.fired"); }
                else if (op == 1) { if (gone) vq_end(); settings(&*t, iv); if (vq_bool("stop")) t->stop(); }
                else if (op == 2) { if (!other.isActive()) vq_end(); vqt::expire(&other); }
                else if (op == 3) { if (!vqt::pending()) vq_end(); if (gone) vqt::deliver(); else { const State before = state(*t); vqt::deliver(); vq_ensure(state(*t) == before, "C14.timer-left-as-it-is"); } }
                else { if (gone || !fired && at) vq_end(); t.reset(); gone = true; } // destroyed once it has fired
            }
            if (!task.isReady()) { if (!fired) { if (!t->isActive()) t->start(); vqt::expire(&*t); } if (K::queued) vqt::deliver(); }
            vq_ensure(g.times == 1 && task.isReady(), "C14.resumed-at-the-next-timeout");
        }
        vq_ensure(vqt::connections() == 0 && vqt::pending() == 0, "C14.nothing-left");
    }
    vq_ensure(vq_live_heap() == 0 && vqt::objects() == 0, "C14.nothing-leaks");
}
// the duration d, in whole milliseconds; no timer for at most zero
template<class F> void sleeps(long ms, F start) {
    {
        const bool immediate = ms <= 0;
        auto task = start();
        QTimer *t = vqt::running();
        for (int rounds = 0; rounds < 2 && t == nullptr && vqt::pending(); ++rounds) { vqt::deliver(); t = vqt::running(); }
        if (immediate) { // no delay: at most one turn of the event loop
            if (t) { vq_ensure(t->interval() == 0 && t->isSingleShot(), "C14.past-means-no-delay"); vqt::expire(t); }
            vq_ensure(task.isReady(), "C14.past-means-no-delay");
        } else {
            vq_ensure(t && !task.isReady(), "C14.sleep-suspends");
            vq_ensure(t->interval() == ms, "C14.exact-duration");
            vqt::expire(t);
            vq_ensure(task.isReady(), "C14.sleep-ends");
            vq_cover("C14.slept");
        }
        vq_ensure(!vqt::running() && !vqt::pending() && !vqt::connections(), "C14.nothing-left");
    }
    vq_ensure(vq_live_heap() == 0 && vqt::objects() == 0, "C14.nothing-leaks");
}
template<class D> void sleepForContract() {
    using P = typename D::period; // a whole number of milliseconds, or a fraction of one
    const long n = vq_i64("count");
    constexpr long perMs = std::ratio_divide<std::milli, P>::num, msPer = std::ratio_divide<std::milli, P>::den;
    vq_assume(n >= -1000000000L && n <= 2000000000L * perMs / msPer);
    sleeps(n * msPer / perMs, [&] { return QCoro::sleepFor(D(static_cast<typename D::rep>(n))); });
}
struct Ticks { // a clock of its own epoch and resolution
    using rep = long; using period = std::ratio<1, 10>; using duration = std::chrono::duration<rep, period>; using time_point = std::chrono::time_point<Ticks>;
    static constexpr bool is_steady = false;
    static inline long nowTicks = 0;
    static time_point now() noexcept { return time_point(duration(nowTicks)); }
};
void clocks() {
    constexpr long Lim = 1000000000000000L;
    vqt::steadyNow = vq_i64("steady clock"); vqt::systemNow = vq_i64("system clock"); Ticks::nowTicks = vq_i64("custom clock");
    vq_assume(vqt::steadyNow >= 0 && vqt::steadyNow <= Lim && vqt::systemNow >= 0 && vqt::systemNow <= Lim && Ticks::nowTicks >= 0 && Ticks::nowTicks <= 1000000000L);
}
template<class Clock, class D> void sleepUntilContract() {
    clocks();
    using CD = std::chrono::duration<long, typename Clock::period>;
    const long ahead = vq_i64("ahead"); // in units of D
    constexpr long perMs = std::ratio_divide<std::milli, typename D::period>::num, msPer = std::ratio_divide<std::milli, typename D::period>::den;
    vq_assume(ahead >= -1000000L && ahead <= 2000000000L * perMs / msPer);
    const auto when = std::chrono::time_point<Clock, std::common_type_t<D, CD>>(Clock::now() + D(ahead));
    sleeps(ahead * msPer / perMs, [&] { return QCoro::sleepUntil(when); });
}
// the wrapper outlives the timer
void wrapperOfDestroyedTimer() {
    std::optional<QTimer> t; t.emplace(); settings(&*t, vq_i32("interval"));
    auto w = qCoro(*t);
    t.reset();
    auto task = w.waitForTimeout();
    vq_ensure(task.isReady(), "C14.no-suspend-when-gone");
    vq_cover("C14.gone");
}
} // namespace
VQ_CONTRACT(C14, byReference) { timerAwait<ByRefTimer>(); }
VQ_CONTRACT(C14, byPointer) { timerAwait<ByPtrTimer>(); }
VQ_CONTRACT(C14, waitForTimeout) { timerAwait<Wrapped>(); }
VQ_CONTRACT(C14, waitForTimeoutRef) { timerAwait<WrappedRef>(); }
VQ_CONTRACT(C14, timerIsGone) { wrapperOfDestroyedTimer(); }
VQ_CONTRACT(C14, sleepForMs) { sleepForContract<milliseconds>(); }
VQ_CONTRACT(C14, sleepForSeconds) { sleepForContract<std::chrono::seconds>(); }
VQ_CONTRACT(C14, sleepForMinutes) { sleepForContract<std::chrono::duration<int, std::ratio<60>>>(); }
VQ_CONTRACT(C14, sleepForUs) { sleepForContract<std::chrono::microseconds>(); }
VQ_CONTRACT(C14, sleepForFrames) { sleepForContract<std::chrono::duration<long, std::ratio<1, 50>>>(); }
VQ_CONTRACT(C14, sleepUntilSteady) { sleepUntilContract<std::chrono::steady_clock, milliseconds>(); }
VQ_CONTRACT(C14, sleepUntilSteadyNs) { sleepUntilContract<std::chrono::steady_clock, std::chrono::nanoseconds>(); }
VQ_CONTRACT(C14, sleepUntilSystem) { sleepUntilContract<std::chrono::system_clock, milliseconds>(); }
VQ_CONTRACT(C14, sleepUntilSystemSeconds) { sleepUntilContract<std::chrono::system_clock, std::chrono::seconds>(); }
VQ_CONTRACT(C14, sleepUntilCustom) { sleepUntilContract<Ticks, std::chrono::duration<long, std::ratio<1, 10>>>(); }
