// Shared vocabulary of the contracts: tracked value types, a resumable gate, exception types.
#pragma once
#include "vq.h"
#include "qcorotask.h"
#include "qcorolazytask.h"
#include <coroutine>
#include <exception>
#include <utility>
#include <optional>
#include <cstring>

namespace vq {

// --- instance accounting: every constructed tracked object is destroyed exactly once
inline long alive = 0;

constexpr long MOVED = -0x7fff0001L;

/// move-only value
struct Val {
    long v;
    Val *self;
    explicit Val(long x) : v(x), self(this) { ++alive; }
    Val(Val &&o) noexcept : v(o.v), self(this) { o.check(); o.v = MOVED; ++alive; }
    Val &operator=(Val &&o) noexcept { check(); o.check(); v = o.v; if (&o != this) o.v = MOVED; return *this; }
    Val(const Val &) = delete;
    Val &operator=(const Val &) = delete;
    ~Val() { check(); self = nullptr; --alive; }
    void check() const { vq_ensure(self == this, "object-integrity"); }
    long get() const { check(); return v; }
};

/// copyable value, default constructible to 0
struct CVal {
    long v;
    CVal *self;
    CVal() : v(0), self(this) { ++alive; }
    CVal(long x) : v(x), self(this) { ++alive; }
    CVal(const CVal &o) : v(o.v), self(this) { o.check(); ++alive; }
    CVal(CVal &&o) noexcept : v(o.v), self(this) { o.check(); o.v = MOVED; ++alive; }
    CVal &operator=(const CVal &o) { check(); o.check(); v = o.v; return *this; }
    CVal &operator=(CVal &&o) noexcept { check(); o.check(); long t = o.v; if (&o != this) o.v = MOVED; v = t; return *this; }
    ~CVal() { check(); self = nullptr; --alive; }
    void check() const { vq_ensure(self == this, "object-integrity"); }
    long get() const { check(); return v; }
};

/// something a CVal can be made from
struct Src {
    long v;
    operator CVal() const { return CVal{v}; }
};

/// RAII probe: counts live scopes
struct Probe {
    int *n;
    explicit Probe(int *c) : n(c) { ++*n; }
    Probe(Probe &&o) noexcept : n(o.n) { o.n = nullptr; }
    Probe(const Probe &) = delete;
    ~Probe() { if (n) --*n; }
};

struct StdErr : std::exception { // derived from std::exception
    long code;
    explicit StdErr(long c) : code(c) { ++alive; }
    StdErr(const StdErr &o) : std::exception(o), code(o.code) { ++alive; }
    ~StdErr() override { --alive; }
    const char *what() const noexcept override { return "StdErr"; }
};
struct SubErr : StdErr { using StdErr::StdErr; };
struct OtherErr { // unrelated to std::exception
    long code;
    explicit OtherErr(long c) : code(c) { ++alive; }
    OtherErr(const OtherErr &o) : code(o.code) { ++alive; }
    ~OtherErr() { --alive; }
};

/// outcome of an await, for comparison
enum Kind : int { None = 0, Value = 1, EStd = 2, ESub = 3, EOther = 4, EPrim = 5, EUnknown = 6 };
struct Outcome {
    int kind = None;
    long v = 0;
    int times = 0;
    void set(int k, long x) { kind = k; v = x; ++times; }
};
/// throw the exception of kind k
inline void raise(int k, long v) {
    if (k == EStd) throw StdErr(v);
    if (k == ESub) throw SubErr(v);
    if (k == EOther) throw OtherErr(v);
    if (k == EPrim) throw v;
}
/// records the exception being handled
inline void recordException(Outcome &o) {
    try { throw; }
    catch (const SubErr &e) { o.set(ESub, e.code); }
    catch (const StdErr &e) { o.set(EStd, e.code); }
    catch (const OtherErr &e) { o.set(EOther, e.code); }
    catch (long e) { o.set(EPrim, e); }
    catch (...) { o.set(EUnknown, 0); }
}
inline int anyOutcome() { static const int k[] = {Value, EStd, ESub, EOther, EPrim}; return k[vq_choose(5, "outcome")]; }

/// forget the stale bytes of a disengaged optional (keeps the state space of histories finite)
template<class T> void scrub(std::optional<T> &o) { if (!o) vq_undef((void *)&o, sizeof(T)); }

/// A suspension point under the control of the contract
struct Gate {
    std::coroutine_handle<> h;
    bool waiting() const { return bool(h); }
    void open() { auto x = h; h = nullptr; x.resume(); }
    struct Aw {
        Gate *g;
        bool await_ready() const noexcept { return false; }
        void await_suspend(std::coroutine_handle<> x) noexcept { vq_ensure(!g->h, "gate-single"); g->h = x; }
        void await_resume() const noexcept {}
    };
    Aw operator co_await() noexcept { return Aw{this}; }
};

} // namespace vq
