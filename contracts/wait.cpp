// Contracts of the blocking wait and of connecting a task to an object (C06, C07)
#include "common.h"
#include "qtmodel.h"
#include "qcorotask.h"
#include "qcorolazytask.h"
using namespace vq;
using QCoro::Task;
using QCoro::LazyTask;

class Ctx : public QObject {
    Q_OBJECT
public:
    Outcome *o = nullptr;
    void plain() { o->set(Value, 0); }
    void byValue(CVal v) { o->set(Value, v.get()); }
    void byRef(const CVal &v) { o->set(Value, v.get()); }
    void asConst(const CVal &v) const { o->set(Value, v.get()); }
    int returns(CVal v) { o->set(Value, v.get()); return 1; }
};
VQ_META(Ctx, QObject)
class SubCtx : public Ctx {
    Q_OBJECT
};
VQ_META(SubCtx, Ctx)

namespace {
// ------------------------------------------------------------------ C06
struct Job { Gate gate; int kind = Value; long v = 0; bool finished = false, lazy = false, suspended = false; };
Job *inner = nullptr, *outer = nullptr;
int rounds = 0; bool nested = false;

void before(Job *j) { j->finished = true; }
template<class T> Task<T> work(Job *j) {
    if (vq_bool("suspends")) co_await j->gate;
    while (vq_bool("suspends again")) co_await j->gate;
    before(j);
    raise(j->kind, j->v);
    if constexpr (!std::is_void_v<T>) co_return T(j->v);
}
template<class T> LazyTask<T> lazyWork(Job *j) {
    j->lazy = true;
    if (vq_bool("suspends")) { j->suspended = true; co_await j->gate; }
    before(j);
    raise(j->kind, j->v);
    if constexpr (!std::is_void_v<T>) co_return T(j->v);
}
struct Custom { // an awaitable of its own
    Job *j; bool ready;
    bool await_ready() const noexcept { return ready; }
    void await_suspend(std::coroutine_handle<> h) noexcept { j->gate.h = h; }
    long await_resume() { before(j); raise(j->kind, j->v); return j->v; }
};
struct ViaOperator { Job *j; bool ready; auto operator co_await() const noexcept { return Custom{j, ready}; } };

void turn() { // one turn of the nested event loop
    vq_ensure(!inner->finished, "C06.leaves-the-loop-when-finished");
    if (vq_bool("something else happens")) {
        if (outer && outer->gate.waiting() && vq_bool("outer proceeds")) outer->gate.open();
        return;
    }
    vq_assume(inner->gate.waiting());
    inner->gate.open();
}
// ensures: a value iff the job ended with one, only once it has finished, nested loop iff it had not
template<class F> void waits(F run) {
    {
        Job j; j.kind = anyOutcome(); j.v = vq_i64("value"); inner = &j; outer = nullptr;
        vqt::inLoop = turn; vqt::loopsRun = 0;
        Outcome o; bool wasFinished = false;
        try { o.set(Value, run(&j, &wasFinished)); } catch (...) { recordException(o); }
        vq_ensure(j.finished, "C06.only-after-it-finished");
        vq_ensure(o.times == 1 && o.kind == j.kind && o.v == j.v, "C06.same-result-or-exception");
        if (j.lazy) wasFinished = !j.suspended;
        vq_ensure(vqt::loopsRun == (wasFinished ? 0 : 1), "C06.nested-loop-iff-unfinished");
        vq_cover(wasFinished ? "C06.at-once" : "C06.waited");
        if (o.kind != Value) vq_cover("C06.rethrown");
    }
    vq_ensure(alive == 0 && vq_live_heap() == 0 && vqt::objects() == 0, "C06.nothing-leaks");
}
long readVal(Val &&v) { return v.get(); }
// two nested waits: the outer job may finish while the inner wait runs
void turnOuter() {
    vq_ensure(!outer->finished, "C06.leaves-the-loop-when-finished");
    if (vq_bool("inner wait")) {
        Job j; j.kind = anyOutcome(); j.v = vq_i64("inner value"); Job *prev = inner; inner = &j;
        vqt::inLoop = turn;
        auto t = work<CVal>(&j);
        Outcome o; const int loops = vqt::loopsRun; const bool was = j.finished;
        try { o.set(Value, QCoro::waitFor(t).get()); } catch (...) { recordException(o); }
        vq_ensure(j.finished && o.times == 1 && o.kind == j.kind && o.v == j.v, "C06.same-result-or-exception");
        vq_ensure(vqt::loopsRun == loops + (was ? 0 : 1), "C06.nested-loop-iff-unfinished");
        vqt::inLoop = turnOuter; inner = prev; vqt::loopsRun = loops;
        vq_cover("C06.nested");
        return;
    }
    vq_assume(outer->gate.waiting());
    outer->gate.open();
}
} // namespace
VQ_CONTRACT(C06, task) { waits([](Job *j, bool *f) { auto t = work<Val>(j); *f = j->finished; Val v = QCoro::waitFor(std::move(t)); return v.get(); }); }
VQ_CONTRACT(C06, taskLvalue) { waits([](Job *j, bool *f) { auto t = work<CVal>(j); *f = j->finished; CVal v = QCoro::waitFor(t); return v.get(); }); }
VQ_CONTRACT(C06, taskVoid) { waits([](Job *j, bool *f) { auto t = work<void>(j); *f = j->finished; QCoro::waitFor(t); return j->v; }); }
VQ_CONTRACT(C06, taskVoidTemp) { waits([](Job *j, bool *f) { auto t = work<void>(j); *f = j->finished; QCoro::waitFor(std::move(t)); return j->v; }); }
VQ_CONTRACT(C06, lazyTask) { waits([](Job *j, bool *f) { auto t = lazyWork<Val>(j); vq_ensure(!j->finished, "C06.lazy"); Val v = QCoro::waitFor(t); return v.get(); }); }
VQ_CONTRACT(C06, lazyTaskTemp) { waits([](Job *j, bool *f) { Val v = QCoro::waitFor(lazyWork<Val>(j)); return v.get(); }); }
VQ_CONTRACT(C06, lazyTaskVoid) { waits([](Job *j, bool *f) { QCoro::waitFor(lazyWork<void>(j)); return j->v; }); }
VQ_CONTRACT(C06, awaiter) { waits([](Job *j, bool *f) { *f = vq_bool("ready"); Custom c{j, *f}; return QCoro::waitFor(c); }); }
VQ_CONTRACT(C06, awaiterTemp) { waits([](Job *j, bool *f) { *f = vq_bool("ready"); return QCoro::waitFor(Custom{j, *f}); }); }
VQ_CONTRACT(C06, coAwaitOperator) { waits([](Job *j, bool *f) { *f = vq_bool("ready"); return QCoro::waitFor(ViaOperator{j, *f}); }); }
VQ_CONTRACT(C06, nestedWaits) {
    {
        Job j; j.kind = anyOutcome(); j.v = vq_i64("value"); outer = &j; inner = nullptr;
        vqt::inLoop = turnOuter; vqt::loopsRun = 0;
        Outcome o;
        auto t = work<CVal>(&j); const bool was = j.finished;
        try { o.set(Value, QCoro::waitFor(t).get()); } catch (...) { recordException(o); }
        vq_ensure(j.finished && o.times == 1 && o.kind == j.kind && o.v == j.v, "C06.same-result-or-exception");
        vq_ensure(vqt::loopsRun == (was ? 0 : 1), "C06.nested-loop-iff-unfinished");
        vq_cover("C06.waited");
    }
    vq_ensure(alive == 0 && vq_live_heap() == 0 && vqt::objects() == 0, "C06.nothing-leaks");
}

namespace {
// ------------------------------------------------------------------ C07
struct Job7 { Gate gate; int kind = Value; long v = 0; bool finished = false; };
template<class T> Task<T> work7(Job7 *j) {
    while (vq_bool("suspends")) co_await j->gate;
    j->finished = true;
    raise(j->kind, j->v);
    if constexpr (!std::is_void_v<T>) co_return T(j->v);
}
struct Op7 { // awaitable that is not a task
    Job7 *j; bool ready;
    struct Aw { Job7 *j; bool ready; bool await_ready() const noexcept { return ready; } void await_suspend(std::coroutine_handle<> h) noexcept { j->gate.h = h; }
                CVal await_resume() { j->finished = true; raise(j->kind, j->v); return CVal(j->v); } };
    auto operator co_await() const noexcept { return Aw{j, ready}; }
};
struct Self7 { // an awaiter: used until the operation ends
    Job7 *j = nullptr; bool ready = false; CVal tag{7};
    bool await_ready() const noexcept { return ready; }
    void await_suspend(std::coroutine_handle<> h) noexcept { j->gate.h = h; }
    CVal await_resume() { vq_ensure(tag.get() == 7, "C07.awaitable-alive"); j->finished = true; raise(j->kind, j->v); return CVal(j->v); }
};
struct Ref7 { // its awaiter refers to it
    Job7 *j = nullptr; bool ready = false; CVal tag{7};
    struct Aw { const Ref7 &op; bool await_ready() const noexcept { return op.ready; } void await_suspend(std::coroutine_handle<> h) noexcept { op.j->gate.h = h; }
                CVal await_resume() { vq_ensure(op.tag.get() == 7, "C07.awaitable-alive"); auto *j = op.j; j->finished = true; raise(j->kind, j->v); return CVal(j->v); } };
    auto operator co_await() const noexcept { return Aw{*this}; }
};
struct Fn { // a callable whose state must live until the call and go afterwards
    Outcome *o; CVal tag{7};
    explicit Fn(Outcome *o) : o(o) {}
    void operator()() const { vq_ensure(tag.get() == 7, "C07.callable-alive"); o->set(Value, 0); }
};
struct FnArg {
    Outcome *o; CVal tag{7};
    explicit FnArg(Outcome *o) : o(o) {}
    void operator()(const CVal &v) const { vq_ensure(tag.get() == 7, "C07.callable-alive"); o->set(Value, v.get()); }
};
// ensures: called exactly once, with the result, iff the awaitable ended with a result while the object was alive
template<class C, class F> void connects(bool takesValue, F conn) {
    {
        Job7 j; j.kind = vq_bool("throws") ? EStd : Value; j.v = vq_i64("value");
        Outcome o; std::optional<C> ctx; ctx.emplace(); ctx->o = &o; ctx->blockSignals(vq_choose(2, "its signals are blocked"));
        bool before = vq_bool("gone before"), aliveThen = true;
        if (!before) { conn(&j, &*ctx, &o); aliveThen = true; }
        else { conn(&j, &*ctx, &o); if (!j.finished) aliveThen = false; ctx.reset(); }
        bool gone = before;
        for (;;) {
            vq_cut("C07.history");
            vq_ensure(o.times == (j.finished && j.kind == Value && aliveThen ? 1 : 0), "C07.called-once-iff-alive");
            if (o.times) vq_ensure(o.v == (takesValue ? j.v : 0), "C07.with-the-result");
            const unsigned op = vq_choose(3, "event");
            if (op == 0) { if (!j.gate.waiting()) vq_end(); aliveThen = !gone; j.gate.open(); vq_cover(gone ? "C07.finished-after" : "C07.finished"); }
            else if (op == 1) { if (gone) vq_end(); ctx.reset(); gone = true; if (!j.finished) aliveThen = false; }
            else { if (!j.finished) vq_end(); break; }
        }
    }
    vq_ensure(alive == 0 && vq_live_heap() == 0 && vqt::objects() == 0, "C07.nothing-leaks");
}
} // namespace
VQ_CONTRACT(C07, callable) { connects<Ctx>(false, [](Job7 *j, Ctx *c, Outcome *o) { QCoro::connect(work7<CVal>(j), c, Fn(o)); }); }
VQ_CONTRACT(C07, callableWithValue) { connects<Ctx>(true, [](Job7 *j, Ctx *c, Outcome *o) { QCoro::connect(work7<CVal>(j), c, FnArg(o)); }); }
VQ_CONTRACT(C07, callableVoid) { connects<Ctx>(false, [](Job7 *j, Ctx *c, Outcome *o) { QCoro::connect(work7<void>(j), c, Fn(o)); }); }
VQ_CONTRACT(C07, member) { connects<Ctx>(false, [](Job7 *j, Ctx *c, Outcome *o) { QCoro::connect(work7<CVal>(j), c, &Ctx::plain); }); }
VQ_CONTRACT(C07, memberWithValue) { connects<Ctx>(true, [](Job7 *j, Ctx *c, Outcome *o) { QCoro::connect(work7<CVal>(j), c, &Ctx::byValue); }); }
VQ_CONTRACT(C07, memberWithRef) { connects<Ctx>(true, [](Job7 *j, Ctx *c, Outcome *o) { QCoro::connect(work7<CVal>(j), c, &Ctx::byRef); }); }
VQ_CONTRACT(C07, memberConst) { connects<Ctx>(true, [](Job7 *j, Ctx *c, Outcome *o) { QCoro::connect(work7<CVal>(j), c, &Ctx::asConst); }); }
VQ_CONTRACT(C07, memberReturning) { connects<Ctx>(true, [](Job7 *j, Ctx *c, Outcome *o) { QCoro::connect(work7<CVal>(j), c, &Ctx::returns); }); }
VQ_CONTRACT(C07, memberVoid) { connects<Ctx>(false, [](Job7 *j, Ctx *c, Outcome *o) { QCoro::connect(work7<void>(j), c, &Ctx::plain); }); }
VQ_CONTRACT(C07, inheritedMember) { connects<SubCtx>(true, [](Job7 *j, SubCtx *c, Outcome *o) { QCoro::connect(work7<CVal>(j), c, &Ctx::byRef); }); }
VQ_CONTRACT(C07, awaitable) { connects<Ctx>(true, [](Job7 *j, Ctx *c, Outcome *o) { QCoro::connect(Op7{j, vq_bool("ready")}, c, FnArg(o)); }); }
VQ_CONTRACT(C07, awaitableMember) { connects<Ctx>(true, [](Job7 *j, Ctx *c, Outcome *o) { QCoro::connect(Op7{j, vq_bool("ready")}, c, &Ctx::byRef); }); }
VQ_CONTRACT(C07, awaitableNoValue) { connects<Ctx>(false, [](Job7 *j, Ctx *c, Outcome *o) { QCoro::connect(Op7{j, vq_bool("ready")}, c, Fn(o)); }); }
VQ_CONTRACT(C07, awaiter) { connects<Ctx>(true, [](Job7 *j, Ctx *c, Outcome *o) { QCoro::connect(Self7{j, vq_bool("ready")}, c, FnArg(o)); }); }
VQ_CONTRACT(C07, awaiterMember) { connects<Ctx>(true, [](Job7 *j, Ctx *c, Outcome *o) { QCoro::connect(Self7{j, vq_bool("ready")}, c, &Ctx::byRef); }); }
VQ_CONTRACT(C07, referringAwaiter) { connects<Ctx>(true, [](Job7 *j, Ctx *c, Outcome *o) { QCoro::connect(Ref7{j, vq_bool("ready")}, c, FnArg(o)); }); }
namespace {
// requires: a task of the caller's (not a temporary), dropped at any moment or not
// ensures:  the same, and the task stays the caller's: it is neither taken nor emptied
template<class T> void connectsNamed() {
    {
        Job7 j; j.kind = vq_bool("throws") ? EStd : Value; j.v = vq_i64("value");
        Outcome o; std::optional<Ctx> ctx; ctx.emplace(); ctx->o = &o; ctx->blockSignals(vq_choose(2, "its signals are blocked"));
        std::optional<Task<T>> task(work7<T>(&j));
        QCoro::connect(*task, &*ctx, Fn(&o));
        bool gone = false, aliveThen = true;
        for (;;) {
            vq_cut("C07.history");
            vq_ensure(o.times == (j.finished && j.kind == Value && aliveThen ? 1 : 0), "C07.called-once-iff-alive");
            if (task) vq_ensure(task->isReady() == j.finished, "C07.stays-the-callers");
            const unsigned op = vq_choose(4, "event");
            if (op == 0) { if (!j.gate.waiting()) vq_end(); aliveThen = !gone; j.gate.open(); vq_cover(gone ? "C07.finished-after" : "C07.finished"); }
            else if (op == 1) { if (gone) vq_end(); ctx.reset(); gone = true; if (!j.finished) aliveThen = false; }
            else if (op == 2) { if (!task) vq_end(); task.reset(); scrub(task); }
            else { if (!j.finished) vq_end(); break; }
        }
    }
    vq_ensure(alive == 0 && vq_live_heap() == 0 && vqt::objects() == 0, "C07.nothing-leaks");
}
} // namespace
VQ_CONTRACT(C07, namedTask) { connectsNamed<CVal>(); }
VQ_CONTRACT(C07, namedTaskVoid) { connectsNamed<void>(); }
