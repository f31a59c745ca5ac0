// Contracts of QCoro::Task / QCoro::LazyTask (C01 - C05)
#include "common.h"
#include <optional>
#include <string_view>
using namespace vq;
using QCoro::Task; using QCoro::LazyTask;

// ------------------------------------------------------------------ C01
// requires: any value v, any outcome kind (value or exception of any family), coroutine finishing
//           before or after the await
// ensures:  the awaiting coroutine observes exactly that outcome, once; all objects destroyed once
namespace {
template<class TaskT> TaskT produceVal(Gate *g, bool susp, int kind, long v, unsigned form) {
    if (susp) co_await *g;
    raise(kind, v);
    Val local{v};
    if (form == 0) co_return Val{v};
    co_return std::move(local);
}
template<class TaskT> TaskT produceCVal(Gate *g, bool susp, int kind, long v, unsigned form) {
    if (susp) co_await *g;
    raise(kind, v);
    CVal local{v};
    const CVal clocal{v};
    if (form == 0) co_return CVal{v};
    if (form == 1) co_return local;
    if (form == 2) co_return clocal;
    if (form == 3) { CVal &r = local; co_return r; }
    if (form == 4) co_return Src{v};            // converted, from a temporary
    if (form == 5) { const Src s{v}; co_return s; } // converted, from an lvalue
    co_return {v};
}
template<class TaskT> TaskT produceLong(Gate *g, bool susp, int kind, long v, unsigned form) {
    if (susp) co_await *g;
    raise(kind, v);
    if (form == 0) co_return v;
    if (form == 1) { const long c = v; co_return c; }
    co_return long{v};
}
template<class TaskT> TaskT produceVoid(Gate *g, bool susp, int kind, long v) {
    if (susp) co_await *g;
    raise(kind, v);
    if (v == 3) co_return;
}
inline long valueOf(const Val &x) { return x.get(); }
inline long valueOf(const CVal &x) { return x.get(); }
inline long valueOf(long x) { return x; }
inline long valueOf(const std::optional<CVal> &x) { return x ? x->get() : 0; }
inline long valueOf(const std::optional<long> &x) { return x ? *x : 0; }

template<class TaskT> Task<> awaitIt(TaskT &t, Outcome &o, unsigned how, int *done) {
    try {
        if constexpr (std::is_void_v<typename TaskT::value_type>) {
            if (how == 0) co_await t; else co_await std::move(t);
            o.set(Value, 0);
        } else {
            if (how == 0) { auto r = co_await t; o.set(Value, valueOf(r)); }
            else if (how == 1) { const auto r = co_await std::move(t); o.set(Value, valueOf(r)); }
            else { auto &&r = co_await t; o.set(Value, valueOf(r)); }
        }
    } catch (...) { recordException(o); }
    ++*done;
}

template<class F> void deliver(F make, bool isVoid) {
    alive = 0;
    {
        Gate g; Outcome o; int done = 0;
        const bool susp = vq_bool("suspends");
        const int kind = anyOutcome();
        const long v = vq_i64("value");
        auto t = make(&g, susp, kind, v);
        vq_ensure(t.isReady() == !susp, "C01.ready-iff-finished");
        vq_ensure(g.waiting() == susp, "C01.runs-to-first-suspension");
        {
            auto c = awaitIt(t, o, vq_choose(isVoid ? 2 : 3, "form of await"), &done);
            if (susp) {
                vq_ensure(done == 0 && o.times == 0, "C01.no-result-before-finish");
                g.open();
            }
            vq_ensure(done == 1 && o.times == 1, "C01.exactly-one-outcome");
            vq_ensure(o.kind == kind, "C01.same-kind-of-outcome");
            vq_ensure((isVoid && kind == Value) || o.v == v, "C01.same-value");
            vq_ensure(t.isReady(), "C01.ready-after-finish");
        }
        vq_cover("C01.delivered");
    }
    vq_ensure(alive == 0, "C01.values-destroyed-once");
    vq_ensure(vq_live_heap() == 0, "C01.nothing-leaks");
}
} // namespace

VQ_CONTRACT(C01, moveOnly) { unsigned f = vq_choose(2, "form"); deliver([f](auto... a) { return produceVal<Task<Val>>(a..., f); }, false); }
VQ_CONTRACT(C01, copyable) { unsigned f = vq_choose(7, "form"); deliver([f](auto... a) { return produceCVal<Task<CVal>>(a..., f); }, false); }
VQ_CONTRACT(C01, scalar) { unsigned f = vq_choose(3, "form"); deliver([f](auto... a) { return produceLong<Task<long>>(a..., f); }, false); }
VQ_CONTRACT(C01, optionalValue) { unsigned f = vq_choose(3, "form"); deliver([f](auto... a) { return produceLong<Task<std::optional<long>>>(a..., f); }, false); }
VQ_CONTRACT(C01, nothing) { deliver([](auto... a) { return produceVoid<Task<>>(a...); }, true); }
namespace {
// returning an object that outlives the coroutine copies it: the object is not altered
struct Holder {
    CVal m; const CVal c; Src s;
    template<class T> Task<T> give(Gate *g, bool susp, unsigned form) {
        if (susp) co_await *g;
        if (form == 0) co_return m;
        if (form == 1) co_return c;
        CVal &r = m; const CVal &cr = m;
        if (form == 2) co_return r;
        if (form == 3) co_return cr;
        if (form == 4) { if constexpr (std::is_same_v<T, CVal>) co_return s; else co_return std::make_optional(m); }
        co_return std::move(m);
    }
};
template<class T> void lvalues() {
    alive = 0;
    {
        Gate g; const long v = vq_i64("value"); Holder h{CVal{v}, CVal{v}, Src{v}};
        const bool susp = vq_bool("suspends"); const unsigned form = vq_choose(6, "form");
        auto t = h.give<T>(&g, susp, form);
        Outcome o; int done = 0;
        { auto c = awaitIt(t, o, vq_choose(3, "form of await"), &done); if (susp) g.open(); }
        vq_ensure(done == 1 && o.kind == Value && o.v == v, "C01.same-value");
        vq_ensure(h.m.get() == (form == 5 ? MOVED : v) && h.c.get() == v && h.s.v == v, "C01.returned-object-not-altered");
        vq_cover("C01.lvalue");
    }
    vq_ensure(alive == 0 && vq_live_heap() == 0, "C01.values-destroyed-once");
}
}
VQ_CONTRACT(C01, lvalue) { lvalues<CVal>(); }
VQ_CONTRACT(C01, lvalueConverted) { lvalues<std::optional<CVal>>(); }
namespace {
// a result whose type can be made from the types that a promise may use for itself: it is a value all the same
struct Wrapped {
    int from = 0; long v = 0;
    Wrapped(std::exception_ptr p) : from(1), v(p ? 1 : 0) {}
    Wrapped(std::nullptr_t) : from(2) {}
    Wrapped(std::monostate) : from(3) {}
    Wrapped(std::string_view s) : from(4), v(long(s.size())) {}
    explicit Wrapped(long n) : from(5), v(n) {}
};
Task<Wrapped> giveWrapped(Gate *g, bool susp, unsigned form, std::exception_ptr e, long v) {
    if (susp) co_await *g;
    if (form == 0) co_return std::move(e);
    if (form == 1) { const std::exception_ptr c = e; co_return c; }
    if (form == 2) co_return std::monostate{};
    if (form == 3) { const std::monostate c; co_return c; }
    if (form == 4) co_return Wrapped(nullptr);
    co_return Wrapped(v);
}
Task<std::variant<std::monostate, long>> giveVariant(Gate *g, bool susp, unsigned form, long v) {
    if (susp) co_await *g;
    if (form == 0) co_return std::monostate{};
    if (form == 1) { const std::monostate c; co_return c; }
    co_return v;
}
template<class T> Task<> takeValue(Task<T> &t, int *done, std::optional<T> *out) {
    try { auto r = co_await t; out->emplace(std::move(r)); ++*done; } catch (...) { vq_unreachable("C01.value-is-not-an-exception"); }
}
}
VQ_CONTRACT(C01, returnedWrapper) {
    {
        Gate g; const long v = vq_i64("value"); const bool susp = vq_bool("suspends"); const unsigned form = vq_choose(6, "form");
        std::optional<Wrapped> r; int done = 0;
        auto t = giveWrapped(&g, susp, form, vq_bool("null") ? std::exception_ptr() : std::make_exception_ptr(OtherErr(1)), v);
        { auto c = takeValue(t, &done, &r); if (susp) g.open(); }
        vq_ensure(done == 1 && r && r->from == (form < 2 ? 1 : form < 4 ? 3 : form == 4 ? 2 : 5), "C01.converted-to-the-result-type");
        if (form == 5) vq_ensure(r->v == v, "C01.same-value");
        vq_cover("C01.wrapped");
    }
    vq_ensure(vq_live_heap() == 0, "C01.nothing-leaks");
}
VQ_CONTRACT(C01, returnedVariant) {
    {
        Gate g; const long v = vq_i64("value"); const bool susp = vq_bool("suspends"); const unsigned form = vq_choose(3, "form");
        std::optional<std::variant<std::monostate, long>> r; int done = 0;
        auto t = giveVariant(&g, susp, form, v);
        { auto c = takeValue(t, &done, &r); if (susp) g.open(); }
        vq_ensure(done == 1 && r && r->index() == (form < 2 ? 0u : 1u), "C01.converted-to-the-result-type");
        if (form == 2) vq_ensure(std::get<1>(*r) == v, "C01.same-value");
        vq_cover("C01.variant");
    }
    vq_ensure(vq_live_heap() == 0, "C01.nothing-leaks");
}
namespace {
// making the result throws: that exception escapes the coroutine like any other
struct Recipe {
    int kind; long v;
    operator CVal() const { raise(kind, v); return CVal{v}; }
};
struct Fragile {
    long v; int kind; // what copying or moving it throws
    Fragile(int k, long n) : v(n), kind(k) {}
    Fragile(const Fragile &o) : v(o.v), kind(Value) { raise(o.kind, o.v); }
};
inline long valueOf(const Fragile &f) { return f.v; }
Task<CVal> cook(Gate *g, bool susp, int kind, long v, unsigned form) {
    if (susp) co_await *g;
    if (form == 0) co_return Recipe{kind, v};
    const Recipe r{kind, v};
    co_return r;
}
Task<Fragile> copyFragile(Gate *g, bool susp, int kind, long v, unsigned form) {
    if (susp) co_await *g;
    if (form == 0) co_return Fragile{kind, v};
    const Fragile f{kind, v};
    co_return f;
}
}
VQ_CONTRACT(C01, throwingConversion) { unsigned f = vq_choose(2, "form"); deliver([f](auto... a) { return cook(a..., f); }, false); }
VQ_CONTRACT(C01, throwingCopy) { unsigned f = vq_choose(2, "form"); deliver([f](auto... a) { return copyFragile(a..., f); }, false); }
namespace {
// a chain: the outcome of the innermost coroutine reaches the outermost awaiter unaltered
Task<CVal> relay(Task<CVal> inner, bool viaThenCatch) {
    if (viaThenCatch) { try { co_return co_await inner; } catch (...) { throw; } }
    co_return co_await inner;
}
}
namespace {
// several coroutines await the same task, before and after it has finished
template<class TaskT> Task<> looksAt(TaskT &t, Outcome *o) {
    try {
        if constexpr (std::is_void_v<typename TaskT::value_type>) { co_await t; o->set(Value, 0); }
        else { auto &&r = co_await t; o->set(Value, valueOf(r)); }
    } catch (...) { recordException(*o); }
}
// (an object is handed to the first of them)
template<class F> void shared(F make, bool isVoid, bool moves = false) {
    alive = 0;
    {
        Gate g; Outcome o[3]; const bool susp = vq_bool("suspends"); const int kind = anyOutcome(); const long v = vq_i64("value");
        auto t = make(&g, susp, kind, v);
        {
            auto a = looksAt(t, &o[0]); auto b = looksAt(t, &o[1]);
            if (susp) { vq_ensure(!o[0].times && !o[1].times, "C01.no-result-before-finish"); g.open(); }
            auto c = looksAt(t, &o[2]);
        }
        for (auto &x : o) vq_ensure(x.times == 1 && x.kind == kind && (kind == Value && (isVoid || (moves && &x != o)) || x.v == v), "C01.every-awaiter-the-same");
        vq_cover("C01.shared");
    }
    vq_ensure(alive == 0 && vq_live_heap() == 0, "C01.nothing-leaks");
}
}
VQ_CONTRACT(C01, sharedNothing) { shared([](auto... a) { return produceVoid<Task<>>(a...); }, true); }
VQ_CONTRACT(C01, sharedObject) { shared([](auto... a) { return produceCVal<Task<CVal>>(a..., 0); }, false, true); }
VQ_CONTRACT(C01, sharedScalar) { shared([](auto... a) { return produceLong<Task<long>>(a..., 0); }, false); }
VQ_CONTRACT(C01, chain) {
    bool c = vq_bool("rethrow");
    deliver([c](Gate *g, bool s, int k, long v) { return relay(relay(produceCVal<Task<CVal>>(g, s, k, v, 0), c), false); }, false);
}
namespace {
// an exception thrown while another one is being handled, and one escaping after an inner one was handled
Task<long> nested(Gate *g, bool susp, int kind, long v) {
    bool again = false;
    try { throw OtherErr(v + 1); } catch (const OtherErr &) { again = true; }
    if (susp) co_await *g;
    if (again) raise(kind, v);
    co_return v;
}
struct ThrowInDtor { };
}
VQ_CONTRACT(C01, handledInside) { deliver([](Gate *g, bool s, int k, long v) { return nested(g, s, k, v); }, false); }
namespace {
// explicit use of the awaiter, as a foreign coroutine type would
}
VQ_CONTRACT(C01, rawAwaiter) {
    alive = 0;
    {
        Gate g; const bool susp = vq_bool("suspends"); const int kind = anyOutcome(); const long v = vq_i64("value");
        auto t = produceCVal<Task<CVal>>(&g, susp, kind, v, 0);
        auto aw = t.operator co_await();
        vq_ensure(aw.await_ready() == !susp, "C01.await-ready-iff-finished");
        if (susp) g.open();
        vq_ensure(aw.await_ready(), "C01.await-ready-after-finish");
        Outcome o;
        try { auto r = aw.await_resume(); o.set(Value, r.get()); } catch (...) { recordException(o); }
        vq_ensure(o.kind == kind && o.v == v && o.times == 1, "C01.same-value");
        vq_cover("C01.raw");
    }
    vq_ensure(alive == 0 && vq_live_heap() == 0, "C01.values-destroyed-once");
}

// ------------------------------------------------------------------ C02
// requires: a task with an arbitrary sequence of awaiting coroutines
// ensures:  final suspension resumes exactly that sequence, in order, once each
namespace c02 {
std::int64_t count;         // resumed so far
std::int64_t total;
void *elems;                // the symbolic sequence
bool finished;
Task<long> *task; bool dropTask; bool dropped;
}
extern "C" void *vq_sym_array(std::int64_t cap);
extern "C" void vq_foreign_resume(void *h) {
    using namespace c02;
    vq_ensure(count < total, "C02.no-extra-resume");
    vq_ensure(((void **)elems)[count] == h, "C02.in-await-order");
    vq_ensure(finished, "C02.only-after-finish");
    ++count;
    // the awaiter may drop the task while it runs
    if (task && dropTask) { Task<long> *t = task; task = nullptr; *t = Task<long>(); }
}
extern "C" void vq_foreign_destroy(void *) { vq_unreachable("C02.awaiter-not-destroyed"); }
namespace {
Task<long> finishing(Gate *g, int kind, long v) {
    co_await *g;
    c02::finished = true;
    raise(kind, v);
    co_return v;
}
struct Waiter; // see below
template<class P> auto *awaiterList(P &p) {
    if constexpr (requires { p.mAwaitingCoroutines.push_back(std::coroutine_handle<>{}); }) return &p.mAwaitingCoroutines;
    else return (int *)nullptr;
}
template<class L> void havocList(L *l, std::int64_t n, std::int64_t cap, void *copy) {
    if constexpr (requires { l->_M_impl._M_start; }) {
        // representation of std::vector: [start, finish, end_of_storage)
        using E = std::coroutine_handle<>;
        l->_M_impl._M_start = (E *)copy; l->_M_impl._M_finish = (E *)copy + n; l->_M_impl._M_end_of_storage = (E *)copy + cap;
    }
}
}
#ifdef VQ_SYMBOLIC_ONLY
VQ_CONTRACT(C02, anyNumberOfAwaiters) {
    alive = 0;
    {
        using namespace c02;
        Gate g; const int kind = vq_bool("throws") ? EOther : Value; const long v = vq_i64("value");
        count = 0; finished = false; dropped = false;
        {
            auto t = finishing(&g, kind, v);
            using H = decltype(t.mCoroutine);
            auto *list = awaiterList(t.mCoroutine.promise());
            // arbitrary earlier awaiters
            std::int64_t n = vq_i64("number of earlier awaiters");
            std::int64_t cap = vq_i64("capacity");
            vq_assume(n >= 0 && n <= cap && cap > 0 && cap < (1L << 32));
            void *arr = vq_sym_array(cap);
            void *orig = vq_sym_array(cap); // the sequence before the next await
            __builtin_memcpy(orig, arr, n * 8);
            vq_mark_model(orig);
            total = n;
            havocList(list, n, cap, arr);
            // one more awaiter arrives through the public protocol
            const bool one = vq_bool("another awaiter");
            if (one) {
                void **h = (void **)vq_i64("its handle");
                auto aw = t.operator co_await();
                vq_ensure(!aw.await_ready(), "C02.unfinished-suspends");
                aw.await_suspend(std::coroutine_handle<>::from_address(h));
                total = n + 1;
                elems = list->_M_impl._M_start;
                vq_ensure(((void **)elems)[n] == (void *)h, "C02.appended-last");
                std::int64_t k = vq_i64("any index");
                if (k >= 0 && k < n) vq_ensure(((void **)elems)[k] == ((void **)orig)[k], "C02.earlier-awaiters-kept");
                vq_ensure((std::int64_t)list->size() == n + 1, "C02.one-more-awaiter");
            }
            // keep an independent copy of the sequence: the promise's own list may be cleared while resuming
            elems = vq_sym_array(cap + n + 1);
            __builtin_memcpy(elems, list->_M_impl._M_start, total * 8);
            vq_mark_model(elems);
            dropTask = vq_bool("an awaiter drops the task");
            task = dropTask ? &t : nullptr;
            g.open();
            vq_ensure(finished, "C02.runs-to-the-end");
            vq_ensure(count == total, "C02.every-awaiter-resumed");
            if (!(dropTask && total > 0)) vq_ensure(t.isReady(), "C02.ready-after-finish");
            vq_cover("C02.any");
        }
    }
}
#else
// the bounded stand-in, executed only where the contract above is undecided: up to 70000 real awaiters
namespace { struct Many { Task<long> *t; std::int64_t resumed = 0; bool inOrder = true, drop = false, finished = false; Task<> *all = nullptr; };
Task<long> ending(Gate *g, Many *m, int kind, long v) { co_await *g; m->finished = true; raise(kind, v); co_return v; }
Task<> oneOfMany(Many *m, std::int64_t i, long v, int kind) {
    bool right = false;
    try { const long x = co_await *m->t; right = kind == Value && x == v; } catch (...) { right = kind != Value; }
    if (!m->finished || !right || m->resumed != i) m->inOrder = false;
    if (m->resumed++ == 0 && m->drop) *m->t = Task<long>();
} }
VQ_CONTRACT(C02, anyNumberOfAwaiters) {
    static const std::int64_t counts[] = {0, 1, 7, 255, 256, 257, 1000, 70000};
    const std::int64_t n = counts[vq_choose(8, "number of awaiters")]; const int kind = vq_bool("throws") ? EOther : Value; const long v = 42;
    Gate g; Many m; m.drop = vq_bool("an awaiter drops the task");
    Task<long> t = ending(&g, &m, kind, v); m.t = &t;
    m.all = new Task<>[n];
    for (std::int64_t i = 0; i < n; ++i) m.all[i] = oneOfMany(&m, i, v, kind);
    vq_ensure(m.resumed == 0, "C02.only-after-finish");
    g.open();
    vq_ensure(m.resumed == n && m.inOrder, "C02.every-awaiter-resumed");
    for (std::int64_t i = 0; i < n; ++i) vq_ensure(m.all[i].isReady(), "C02.every-awaiter-resumed");
    delete[] m.all;
}
#endif
namespace {
// up to three real coroutines that await the same task, each free to drop the task, to suspend again
// elsewhere, or to finish while being resumed
struct World {
    Gate g; Gate other[3];
    std::optional<Task<long>> t;
    int order[3]; int n = 0; bool finished = false; int plan[3] = {0, 0, 0}; int resumed[3] = {0, 0, 0};
};
Task<long> body(World *w, int kind, long v) { co_await w->g; w->finished = true; raise(kind, v); co_return v; }
Task<> waiter(World *w, int i) {
    try { co_await *w->t; } catch (...) {}
    vq_ensure(w->finished, "C02.only-after-finish");
    ++w->resumed[i];
    w->order[w->n++] = i;
    if (w->plan[i] == 1) w->t.reset();
    if (w->plan[i] == 2) co_await w->other[i];
    if (w->plan[i] == 3 && w->t) { try { co_await *w->t; } catch (...) {} vq_ensure(w->n > 0, "C02.finished-task-never-suspends"); }
}
}
VQ_CONTRACT(C02, realAwaiters) {
    alive = 0;
    {
        World w; const int kind = anyOutcome(); const long v = vq_i64("value");
        const int n = (int)vq_choose(4, "number of awaiters");
        w.t = body(&w, kind, v);
        {
            std::optional<Task<>> ws[3];
            for (int i = 0; i < n; ++i) {
                w.plan[i] = (int)vq_choose(4, "what the awaiter does next");
                ws[i] = waiter(&w, i);
                vq_ensure(w.resumed[i] == 0, "C02.unfinished-suspends");
                vq_ensure(!ws[i]->isReady(), "C02.unfinished-suspends");
            }
            w.g.open();
            vq_ensure(w.n == n, "C02.every-awaiter-resumed");
            for (int i = 0; i < n; ++i) {
                vq_ensure(w.resumed[i] == 1, "C02.resumed-once");
                vq_ensure(w.order[i] == i, "C02.in-await-order");
            }
            // a late awaiter does not suspend
            if (w.t) {
                Outcome o; int done = 0;
                auto late = awaitIt(*w.t, o, 0, &done);
                vq_ensure(done == 1, "C02.finished-task-never-suspends");
            }
            for (int i = 0; i < n; ++i) if (w.other[i].waiting()) w.other[i].open();
            for (int i = 0; i < n; ++i) vq_ensure(ws[i]->isReady(), "C02.awaiter-finishes");
            for (int i = 0; i < n; ++i) vq_ensure(w.resumed[i] == 1, "C02.resumed-once");
        }
        vq_cover("C02.real");
    }
    vq_ensure(vq_live_heap() == 0, "C02.nothing-leaks");
}
namespace {
Task<> relayWait(Task<> *t, int *n) { co_await *t; ++*n; }
Task<> nothing(Gate *g) { co_await *g; }
}
VQ_CONTRACT(C02, noTaskObjectLeft) {
    // the task object is gone before the coroutine finishes; nobody is resumed, nothing leaks
    {
        Gate g; { auto t = nothing(&g); } vq_ensure(g.waiting(), "C02.detached-keeps-running"); g.open();
        vq_cover("C02.detached");
    }
    vq_ensure(vq_live_heap() == 0, "C02.nothing-leaks");
}

// ------------------------------------------------------------------ C03
namespace {
struct Tracked { int locals = 0; int params = 0; int frames() const { return locals; } };
template<class R> Task<R> scoped(Gate *g, Tracked *tr, Probe param, int kind) {
    Probe local(&tr->locals);
    co_await *g;
    if constexpr (std::is_void_v<R>) { raise(kind, 1); co_return; }
    else { raise(kind, 1); co_return R(7); }
}
// Any history of finishing, moving and dropping two coroutines through three task objects.
template<class R> void history() {
    alive = 0;
    {
        Gate g[2]; Tracked tr[2]; bool fin[2] = {false, false};
        {
            // owner[k]: which coroutine slot k refers to (-1: none)
            std::optional<Task<R>> s[3]; int owner[3] = {0, 1, -1};
            s[0] = scoped<R>(&g[0], &tr[0], Probe(&tr[0].params), Value);
            s[1] = scoped<R>(&g[1], &tr[1], Probe(&tr[1].params), vq_bool("throws") ? EOther : Value);
            s[2].emplace();
            vq_ensure(s[2]->isReady(), "C03.empty-is-ready");
            for (;;) {
                vq_cut("C03.history");
                // representation invariant: a coroutine's state is alive iff unfinished or referred to
                for (int c = 0; c < 2; ++c) {
                    bool referred = owner[0] == c || owner[1] == c || owner[2] == c;
                    vq_ensure(tr[c].params == ((!fin[c] || referred) ? 1 : 0), "C03.alive-iff-running-or-referenced");
                    vq_ensure(tr[c].locals == (fin[c] ? 0 : 1), "C03.body-locals-alive-iff-running");
                }
                for (int k = 0; k < 3; ++k)
                    if (s[k]) vq_ensure(s[k]->isReady() == (owner[k] < 0 || fin[owner[k]]), "C03.ready-iff-empty-or-finished");
                unsigned op = vq_choose(6, "operation");
                if (op == 5) break;
                if (op == 0) { unsigned c = vq_choose(2, "which"); if (fin[c]) vq_end(); fin[c] = true; g[c].open(); }
                else if (op == 1) { unsigned k = vq_choose(3, "slot"); if (!s[k]) vq_end(); s[k].reset(); scrub(s[k]); owner[k] = -1; }
                else if (op == 2) { // move-assign
                    unsigned a = vq_choose(3, "to"), b = vq_choose(3, "from"); if (!s[a] || !s[b]) vq_end();
                    Task<R> &to = *s[a]; Task<R> &from = *s[b];
                    to = std::move(from);
                    if (a != b) { owner[a] = owner[b]; owner[b] = -1; }
                } else if (op == 3) { // move-construct into a destroyed slot
                    unsigned a = vq_choose(3, "to"), b = vq_choose(3, "from"); if (s[a] || !s[b]) vq_end();
                    s[a].emplace(std::move(*s[b])); owner[a] = owner[b]; owner[b] = -1;
                } else { // through a temporary
                    unsigned b = vq_choose(3, "from"); if (!s[b]) vq_end();
                    { Task<R> tmp(std::move(*s[b])); vq_ensure(s[b]->isReady(), "C03.moved-from-is-empty"); *s[b] = std::move(tmp); }
                }
            }
        }
        for (int c = 0; c < 2; ++c) vq_ensure(tr[c].params == (fin[c] ? 0 : 1), "C03.alive-iff-running-or-referenced");
        for (int c = 0; c < 2; ++c) if (!fin[c]) g[c].open();
        for (int c = 0; c < 2; ++c) vq_ensure(tr[c].params == 0 && tr[c].locals == 0, "C03.destroyed-at-finish");
        vq_cover("C03.history");
    }
    vq_ensure(alive == 0, "C03.values-destroyed-once");
    vq_ensure(vq_live_heap() == 0, "C03.nothing-leaks");
}
}
VQ_CONTRACT(C03, historyVoid) { history<void>(); }
VQ_CONTRACT(C03, historyValue) { history<CVal>(); }
namespace {
// destruction from inside a resumed awaiter, and from inside the coroutine itself
struct Self { std::optional<Task<long>> t; Gate g; Tracked tr; bool early; int done = 0; };
Task<long> dropsItself(Self *s, Probe p) {
    Probe l(&s->tr.locals);
    co_await s->g;
    if (s->early) s->t.reset();
    vq_ensure(s->tr.params == 1 && s->tr.locals == 1, "C03.running-coroutine-alive");
    co_return 4;
}
Task<> dropper(Self *s) {
    Task<long> &t = *s->t;
    long v = co_await t;
    vq_ensure(v == 4, "C03.result-survives");
    vq_ensure(s->tr.params == 1, "C03.alive-while-resuming-awaiters");
    s->t.reset();
    ++s->done;
}
}
VQ_CONTRACT(C03, droppedInside) {
    {
        Self s; s.early = vq_bool("drops itself while running"); const bool waits = vq_bool("has an awaiter");
        s.t = dropsItself(&s, Probe(&s.tr.params));
        { std::optional<Task<>> d; if (waits && !s.early) d = dropper(&s);
          s.g.open();
          if (waits && !s.early) vq_ensure(s.done == 1, "C03.awaiter-ran");
        }
        s.t.reset();
        vq_ensure(s.tr.params == 0 && s.tr.locals == 0, "C03.destroyed-at-finish");
        vq_cover("C03.inside");
    }
    vq_ensure(vq_live_heap() == 0, "C03.nothing-leaks");
}
namespace {
template<class T> LazyTask<T> trackedLazy(Tracked *tr, Probe p, Gate *g, bool susp, long v) {
    Probe l(&tr->locals);
    if (susp) co_await *g;
    if constexpr (!std::is_void_v<T>) co_return T{v};
}
template<class T> Task<> awaitLazy(LazyTask<T> &t) { co_await t; }
template<class T> Task<> awaitOwnedLazy(LazyTask<T> t) { co_await t; }
template<class T> void lazyLife() {
    alive = 0;
    {
        Tracked tr; Gate g; const bool susp = vq_bool("suspends"); const long v = vq_i64("value");
        const unsigned how = vq_choose(4, "lazy task is");
        {
            std::optional<LazyTask<T>> t;
            struct Make { Tracked *tr; Gate *g; bool s; long v; operator LazyTask<T>() const { return trackedLazy<T>(tr, Probe(&tr->params), g, s, v); } };
            t.emplace(Make{&tr, &g, susp, v});
            vq_ensure(tr.params == 1 && tr.locals == 0, "C03.alive-while-referenced");
            if (how == 0) { // dropped without ever being awaited
                t.reset();
                vq_ensure(tr.params == 0, "C03.never-started-destroyed-with-its-task");
            } else if (how == 1) { // dropped inside a chain that is never awaited
                { auto u = std::move(*t).then([] { return 1L; }); vq_ensure(tr.params == 1, "C03.alive-while-referenced"); }
                vq_ensure(tr.params == 0, "C03.never-started-destroyed-with-its-task");
            } else { // awaited; dropped before or after it finishes
                auto c = awaitLazy(*t);
                vq_ensure(tr.params == 1 && tr.locals == susp, "C03.alive-while-unfinished");
                if (how == 2) t.reset();
                if (susp) g.open();
                vq_ensure(tr.locals == 0 && tr.params == (how == 2 ? 0 : 1), "C03.alive-while-referenced");
            }
        }
        vq_ensure(tr.params == 0 && tr.locals == 0, "C03.destroyed-with-last-reference");
        vq_cover("C03.lazy");
    }
    vq_ensure(alive == 0 && vq_live_heap() == 0, "C03.nothing-leaks");
}
}
VQ_CONTRACT(C03, lazyVoid) { lazyLife<void>(); }
VQ_CONTRACT(C03, lazyValue) { lazyLife<CVal>(); }
namespace { struct alignas(64) Aligned { long v; explicit Aligned(long n) : v(n) {} }; }
VQ_CONTRACT(C03, overAligned) {
    {
        Tracked tr; Gate g; const bool susp = vq_bool("suspends"), keep = vq_bool("kept"); const long v = vq_i64("value");
        {
            std::optional<Task<Aligned>> t; t.emplace([](Tracked *tr, Probe p, Gate *g, bool s, long v) -> Task<Aligned> { Probe l(&tr->locals); if (s) co_await *g; co_return Aligned{v}; }(&tr, Probe(&tr.params), &g, susp, v));
            vq_ensure(tr.params == 1 && tr.locals == susp, "C03.alive-while-referenced");
            if (!keep) { t.reset(); vq_ensure(tr.params == susp, "C03.alive-while-unfinished"); }
            if (susp) g.open();
            vq_ensure(tr.locals == 0 && tr.params == keep, "C03.alive-while-referenced");
            if (keep) { long r = 0; [](Task<Aligned> &t, long *r) -> Task<> { *r = (co_await t).v; }(*t, &r); vq_ensure(r == v, "C03.value-kept"); }
        }
        vq_ensure(tr.params == 0, "C03.destroyed-with-last-reference");
        vq_cover("C03.aligned");
    }
    vq_ensure(vq_live_heap() == 0, "C03.nothing-leaks");
}
VQ_CONTRACT(C03, synchronous) {
    {
        Tracked tr; int kind = anyOutcome();
        {
            auto t = [](Tracked *tr, Probe p, int k) -> Task<CVal> { Probe l(&tr->locals); raise(k, 1); co_return CVal{3}; }(&tr, Probe(&tr.params), kind);
            vq_ensure(tr.params == 1 && tr.locals == 0, "C03.alive-while-referenced");
            Task<CVal> u(std::move(t));
            vq_ensure(t.isReady() && u.isReady() && tr.params == 1, "C03.move-transfers");
            Task<CVal> &ur = u; u = std::move(ur);
            vq_ensure(tr.params == 1, "C03.self-move-changes-nothing");
        }
        vq_ensure(tr.params == 0, "C03.destroyed-with-last-reference");
        vq_cover("C03.sync");
    }
    vq_ensure(alive == 0 && vq_live_heap() == 0, "C03.nothing-leaks");
}

// ------------------------------------------------------------------ C04
namespace {
struct Log { int started = 0, finished = 0, resumed = 0; };
template<class TaskT> TaskT logged(Log *l, Gate *g, bool susp, int kind, long v) {
    ++l->started;
    if (susp) co_await *g;
    ++l->finished;
    raise(kind, v);
    co_return CVal{v};
}
template<class TaskT> TaskT loggedVoid(Log *l, Gate *g, bool susp, int kind, long v) {
    ++l->started;
    if (susp) co_await *g;
    ++l->finished;
    raise(kind, v);
}
template<class TaskT> Task<> lazyConsumer(TaskT &t, Log *l, Outcome &o, int *done) {
    vq_ensure(l->started == 0, "C04.lazy-not-started-by-call");
    try {
        if constexpr (std::is_void_v<typename TaskT::value_type>) { co_await t; o.set(Value, 0); }
        else { auto r = co_await t; o.set(Value, valueOf(r)); }
    } catch (...) { recordException(o); }
    vq_ensure(l->finished == 1, "C04.resumed-after-finish");
    ++l->resumed; ++*done;
}
template<class TaskT> LazyTask<> lazyOuter(TaskT &t, Log *l, Outcome &o, int *done) {
    try {
        if constexpr (std::is_void_v<typename TaskT::value_type>) { co_await std::move(t); o.set(Value, 0); }
        else { auto r = co_await std::move(t); o.set(Value, valueOf(r)); }
    } catch (...) { recordException(o); }
    ++l->resumed; ++*done;
}
Task<> runLazy(LazyTask<> &t) { co_await t; }
template<class F> void lazily(F make, bool isVoid) {
    alive = 0;
    {
        Log l; Gate g; Outcome o; int done = 0;
        const bool susp = vq_bool("suspends"); const int kind = anyOutcome(); const long v = vq_i64("value");
        {
            auto t = make(&l, &g, susp, kind, v);
            vq_ensure(l.started == 0 && !g.waiting(), "C04.lazy-not-started-by-call");
            vq_ensure(!t.isReady(), "C04.lazy-not-ready");
            const bool viaLazy = vq_bool("awaited from another lazy task");
            auto check = [&](Task<> &c) {
                vq_ensure(l.started == 1, "C04.started-by-await");
                if (susp) {
                    vq_ensure(done == 0 && l.finished == 0, "C04.awaiter-waits");
                    g.open();
                }
                vq_ensure(l.started == 1 && l.finished == 1 && l.resumed == 1 && done == 1, "C04.started-once-resumed-once");
                vq_ensure(o.times == 1 && o.kind == kind && ((isVoid && kind == Value) || o.v == v), "C04.outcome-delivered");
                vq_ensure(c.isReady(), "C04.awaiter-finished");
            };
            if (viaLazy) {
                auto outer = lazyOuter(t, &l, o, &done);
                vq_ensure(l.started == 0, "C04.lazy-not-started-by-call");
                auto c = runLazy(outer);
                check(c);
            } else {
                auto c = lazyConsumer(t, &l, o, &done);
                check(c);
            }
            vq_cover("C04.lazy");
        }
    }
    vq_ensure(alive == 0, "C04.values-destroyed-once");
    vq_ensure(vq_live_heap() == 0, "C04.nothing-leaks");
}
}
VQ_CONTRACT(C04, lazyValue) { lazily([](auto... a) { return logged<LazyTask<CVal>>(a...); }, false); }
VQ_CONTRACT(C04, lazyVoid) { lazily([](auto... a) { return loggedVoid<LazyTask<>>(a...); }, true); }
namespace {
// several coroutines await the same lazy task: it is started once, by the first of them
template<class TaskT> Task<> oneOfMany(TaskT &t, Log *l, Outcome *o, int me, int *order, int *next) {
    try {
        if constexpr (std::is_void_v<typename TaskT::value_type>) { co_await t; o->set(Value, 0); }
        else { auto r = co_await t; o->set(Value, r); }
    } catch (...) { recordException(*o); }
    vq_ensure(l->finished == 1, "C04.resumed-after-finish");
    order[(*next)++] = me;
}
LazyTask<long> loggedLong(Log *l, Gate *g, bool susp, int kind, long v) {
    ++l->started;
    if (susp) { co_await *g; ++l->resumed; co_await *g; }
    ++l->finished;
    raise(kind, v);
    co_return v;
}
}
VQ_CONTRACT(C04, lazySeveralAwaiters) {
    alive = 0;
    {
        Log l; Gate g; Outcome o[3]; int order[3] = {}, next = 0;
        const bool susp = vq_bool("suspends"); const int kind = anyOutcome(); const long v = vq_i64("value");
        {
            auto t = loggedLong(&l, &g, susp, kind, v);
            std::optional<Task<>> c[3];
            const unsigned secondAt = vq_choose(3, "second awaits"), thirdAt = vq_choose(3, "third awaits");
            if (thirdAt < secondAt) vq_end();
            const auto at = [&](unsigned when) {
                if (secondAt == when) c[1].emplace(oneOfMany(t, &l, &o[1], 1, order, &next));
                if (thirdAt == when) c[2].emplace(oneOfMany(t, &l, &o[2], 2, order, &next));
                vq_ensure(l.started == 1, "C04.started-once");
            };
            c[0].emplace(oneOfMany(t, &l, &o[0], 0, order, &next));
            at(0);
            if (susp) {
                vq_ensure(next == 0 && l.resumed == 0 && g.waiting(), "C04.awaiter-waits");
                g.open();
                vq_ensure(next == 0 && l.resumed == 1 && g.waiting(), "C04.awaiter-waits");
            }
            at(1);
            if (susp) {
                vq_ensure(next == 0 && l.resumed == 1 && g.waiting(), "C04.awaiter-waits");
                g.open();
            }
            at(2);
            vq_ensure(next == 3 && order[0] == 0 && order[1] == 1 && order[2] == 2, "C04.every-awaiter-once-in-order");
            for (auto &x : o) vq_ensure(x.times == 1 && x.kind == kind && x.v == v, "C04.outcome-delivered");
            vq_ensure(l.started == 1 && l.finished == 1, "C04.started-once");
            vq_cover("C04.several");
        }
    }
    vq_ensure(alive == 0 && vq_live_heap() == 0, "C04.nothing-leaks");
}
VQ_CONTRACT(C04, lazyThen) {
    alive = 0;
    {
        Log l; Gate g; Outcome o; int cb = 0; long got = 0; int done = 0;
        const bool susp = vq_bool("suspends"); const int kind = anyOutcome(); const long v = vq_i64("value");
        {
            auto t = logged<LazyTask<CVal>>(&l, &g, susp, kind, v);
            auto t2 = std::move(t).then([&](CVal x) { ++cb; got = x.get(); return CVal{x.get()}; });
            vq_ensure(l.started == 0, "C04.then-on-lazy-stays-lazy");
            auto c = awaitIt(t2, o, 0, &done);
            vq_ensure(l.started == 1, "C04.started-by-await");
            if (susp) { vq_ensure(done == 0, "C04.awaiter-waits"); g.open(); }
            vq_ensure(done == 1 && o.kind == kind && o.v == v && l.started == 1, "C04.outcome-delivered");
            vq_ensure(cb == (kind == Value ? 1 : 0), "C04.continuation-once");
            vq_cover("C04.then");
        }
    }
    vq_ensure(alive == 0 && vq_live_heap() == 0, "C04.nothing-leaks");
}
VQ_CONTRACT(C04, eager) {
    alive = 0;
    {
        Log l; Gate g; Outcome o; int done = 0;
        const bool susp = vq_bool("suspends"); const int kind = anyOutcome(); const long v = vq_i64("value");
        {
            auto t = logged<Task<CVal>>(&l, &g, susp, kind, v);
            vq_ensure(l.started == 1, "C04.eager-starts-at-call");
            vq_ensure(l.finished == (susp ? 0 : 1) && g.waiting() == susp, "C04.eager-runs-to-first-suspension");
            auto c = awaitIt(t, o, 0, &done);
            vq_ensure(l.started == 1, "C04.started-once-resumed-once");
            if (susp) g.open();
            vq_ensure(l.started == 1 && l.finished == 1 && done == 1 && o.kind == kind && o.v == v, "C04.outcome-delivered");
            vq_cover("C04.eager");
        }
    }
    vq_ensure(alive == 0 && vq_live_heap() == 0, "C04.nothing-leaks");
}

// ------------------------------------------------------------------ C05
namespace {
struct CB { int then = 0, err = 0; long thenV = 0, errV = 0; int errKind = 0; };
inline void noteErr(CB &c, const std::exception &e) {
    ++c.err;
    if (auto *s = dynamic_cast<const SubErr *>(&e)) { c.errKind = ESub; c.errV = s->code; }
    else if (auto *s = dynamic_cast<const StdErr *>(&e)) { c.errKind = EStd; c.errV = s->code; }
}
// what the continuation does: 0 returns, otherwise throws kind
inline int anyThrow() { static const int k[] = {Value, EStd, EOther}; return k[vq_choose(3, "continuation outcome")]; }
// shape: 0 takes the value, returns CVal; 1 takes nothing, returns CVal; 2 takes value, returns void;
//        3 takes the value, returns Task<CVal> (may suspend); 4 takes nothing, returns Task<void>
Task<CVal> later(Gate *g, bool susp, int k, long v) { if (susp) co_await *g; raise(k, v); co_return CVal{v}; }
Task<> laterVoid(Gate *g, bool susp, int k, long v) { if (susp) co_await *g; raise(k, v); }

template<class Src, class Attach>
void thenContract(Src make, Attach attach, bool srcVoid, bool resVoid, bool hasErr, bool cbSuspends) {
    alive = 0;
    {
        Gate g, g2; CB cb; Outcome o; int done = 0;
        const bool susp = vq_bool("suspends"); const int kind = anyOutcome(); const long v = vq_i64("value");
        const int ck = anyThrow(); const long w = vq_i64("continuation value");
        const bool s2 = cbSuspends ? vq_bool("continuation suspends") : false;
        const int ek = hasErr ? anyThrow() : int(Value);
        const bool stdErr = kind == EStd || kind == ESub;
        {
            auto src = make(&g, susp, kind, v);
            auto res = attach(src, cb, &g2, s2, ck, w, ek);
            auto c = awaitIt(res, o, 0, &done);
            if (susp) {
                vq_ensure(cb.then == 0 && cb.err == 0 && done == 0, "C05.continuations-wait-for-finish");
                g.open();
            }
            if (kind == Value) {
                vq_ensure(cb.then == 1 && cb.err == 0, "C05.exactly-the-value-continuation");
                vq_ensure(srcVoid || cb.thenV == v, "C05.continuation-gets-the-value");
                if (s2) { vq_ensure(done == 0, "C05.result-waits-for-continuation"); g2.open(); }
                vq_ensure(o.times == 1 && o.kind == ck, "C05.result-carries-continuation-outcome");
                vq_ensure((resVoid && ck == Value) || o.v == w, "C05.result-carries-continuation-value");
            } else {
                vq_ensure(cb.then == 0, "C05.value-continuation-not-called");
                if (hasErr && stdErr) {
                    vq_ensure(cb.err == 1 && cb.errKind == kind && cb.errV == v, "C05.error-continuation-once-with-the-exception");
                    if (ek == Value) vq_ensure(o.times == 1 && o.kind == Value && (resVoid || o.v == 0), "C05.default-result-after-error");
                    else vq_ensure(o.times == 1 && o.kind == ek && o.v == w, "C05.error-continuation-exception-propagates");
                } else {
                    vq_ensure(cb.err == 0, "C05.error-continuation-not-called");
                    vq_ensure(o.times == 1 && o.kind == kind && o.v == v, "C05.exception-propagates");
                }
            }
            vq_ensure(done == 1, "C05.result-task-finishes");
            vq_ensure(cb.then + cb.err <= 1, "C05.at-most-one-continuation");
            vq_cover("C05.then");
        }
    }
    vq_ensure(alive == 0, "C05.values-destroyed-once");
    vq_ensure(vq_live_heap() == 0, "C05.nothing-leaks");
}
auto srcC = [](Gate *g, bool s, int k, long v) { return produceCVal<Task<CVal>>(g, s, k, v, 0); };
auto srcM = [](Gate *g, bool s, int k, long v) { return produceVal<Task<Val>>(g, s, k, v, 0); };
auto srcV = [](Gate *g, bool s, int k, long v) { return produceVoid<Task<>>(g, s, k, v); };
// attach on an lvalue or a temporary task, with or without an error continuation
template<class T, class F> auto onTask(T &src, bool, F &&f) { return src.then(std::forward<F>(f)); }
#define ATTACH(NAME, EXPR_THEN, ERR)                                                        \
    auto NAME = [](auto &src, CB &cb, Gate *g2, bool s2, int ck, long w, int ek) {          \
        auto err = [&cb, ek, w](const std::exception &e) { noteErr(cb, e); raise(ek, w); }; \
        (void)err; (void)g2; (void)s2;                                                      \
        return EXPR_THEN; };
ATTACH(valRef, src.then([&cb, ck, w](CVal x) { ++cb.then; cb.thenV = x.get(); raise(ck, w); return CVal{w}; }), 0)
ATTACH(valTmp, std::move(src).then([&cb, ck, w](CVal x) { ++cb.then; cb.thenV = x.get(); raise(ck, w); return CVal{w}; }), 0)
ATTACH(valRefErr, src.then([&cb, ck, w](CVal &&x) { ++cb.then; cb.thenV = x.get(); raise(ck, w); return CVal{w}; }, err), 1)
ATTACH(valTmpErr, std::move(src).then([&cb, ck, w](const CVal &x) { ++cb.then; cb.thenV = x.get(); raise(ck, w); return CVal{w}; }, err), 1)
ATTACH(moveOnlyTmp, std::move(src).then([&cb, ck, w](Val x) { ++cb.then; cb.thenV = x.get(); raise(ck, w); return CVal{w}; }), 0)
ATTACH(moveOnlyToVoidErr, src.then([&cb, ck, w](Val x) { ++cb.then; cb.thenV = x.get(); raise(ck, w); }, err), 1)
ATTACH(noArgErr, std::move(src).then([&cb, ck, w]() { ++cb.then; raise(ck, w); return CVal{w}; }, err), 1)
ATTACH(noArgRef, src.then([&cb, ck, w]() { ++cb.then; raise(ck, w); return CVal{w}; }), 0)
ATTACH(toVoidErr, src.then([&cb, ck, w](CVal x) { ++cb.then; cb.thenV = x.get(); raise(ck, w); }, err), 1)
ATTACH(toTaskRefErr, src.then([&cb, ck, w, g2, s2](CVal x) { ++cb.then; cb.thenV = x.get(); return later(g2, s2, ck, w); }, err), 1)
ATTACH(toTaskTmp, std::move(src).then([&cb, ck, w, g2, s2](CVal x) { ++cb.then; cb.thenV = x.get(); return later(g2, s2, ck, w); }), 0)
ATTACH(toVoidTaskTmpErr, std::move(src).then([&cb, ck, w, g2, s2]() { ++cb.then; return laterVoid(g2, s2, ck, w); }, err), 1)
ATTACH(toVoidTaskRef, src.then([&cb, ck, w, g2, s2]() { ++cb.then; return laterVoid(g2, s2, ck, w); }), 0)
ATTACH(coro, std::move(src).then([&cb, ck, w, g2, s2](CVal x) -> Task<CVal> { ++cb.then; cb.thenV = x.get(); if (s2) co_await *g2; raise(ck, w); co_return CVal{w}; }), 0)
}
VQ_CONTRACT(C05, valueFromLvalue) { thenContract(srcC, valRef, false, false, false, false); }
VQ_CONTRACT(C05, valueFromTemporary) { thenContract(srcC, valTmp, false, false, false, false); }
VQ_CONTRACT(C05, valueFromLvalueErr) { thenContract(srcC, valRefErr, false, false, true, false); }
VQ_CONTRACT(C05, valueFromTemporaryErr) { thenContract(srcC, valTmpErr, false, false, true, false); }
VQ_CONTRACT(C05, moveOnly) { thenContract(srcM, moveOnlyTmp, false, false, false, false); }
VQ_CONTRACT(C05, moveOnlyToVoidErr) { thenContract(srcM, moveOnlyToVoidErr, false, true, true, false); }
VQ_CONTRACT(C05, ignoringValueErr) { thenContract(srcC, noArgErr, true, false, true, false); }
VQ_CONTRACT(C05, ignoringValue) { thenContract(srcC, noArgRef, true, false, false, false); }
VQ_CONTRACT(C05, voidSourceErr) { thenContract(srcV, noArgErr, true, false, true, false); }
VQ_CONTRACT(C05, voidSource) { thenContract(srcV, noArgRef, true, false, false, false); }
VQ_CONTRACT(C05, toVoidErr) { thenContract(srcC, toVoidErr, false, true, true, false); }
VQ_CONTRACT(C05, toTaskErr) { thenContract(srcC, toTaskRefErr, false, false, true, true); }
VQ_CONTRACT(C05, toTask) { thenContract(srcC, toTaskTmp, false, false, false, true); }
VQ_CONTRACT(C05, voidToVoidTaskErr) { thenContract(srcV, toVoidTaskTmpErr, true, true, true, true); }
VQ_CONTRACT(C05, voidToVoidTask) { thenContract(srcV, toVoidTaskRef, true, true, false, true); }
VQ_CONTRACT(C05, coroutineContinuation) { thenContract(srcC, coro, false, false, false, true); }
VQ_CONTRACT(C05, unawaitedResult) {
    // the task returned by then() may be discarded: the continuation still runs exactly once
    alive = 0;
    {
        Gate g; const bool susp = vq_bool("suspends"); const long v = vq_i64("value"); int n = 0; long got = 0; bool tmp = vq_bool("temporary task");
        {
            if (tmp) { produceCVal<Task<CVal>>(&g, susp, Value, v, 0).then([&](CVal x) { ++n; got = x.get(); }); }
            else { auto t = produceCVal<Task<CVal>>(&g, susp, Value, v, 0); t.then([&](CVal x) { ++n; got = x.get(); }); if (susp) { vq_ensure(n == 0, "C05.continuations-wait-for-finish"); g.open(); } }
            if (tmp && susp) { vq_ensure(n == 0, "C05.continuations-wait-for-finish"); g.open(); }
            vq_ensure(n == 1 && got == v, "C05.exactly-the-value-continuation");
            vq_cover("C05.discarded");
        }
    }
    vq_ensure(alive == 0 && vq_live_heap() == 0, "C05.nothing-leaks");
}
