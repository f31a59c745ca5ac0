// Contracts of the coroutine test macros (C31)
#include "common.h"
#include <string_view>
#include "qttest.h"
#include "qcorotest.h"
using namespace vq;
using QCoro::Task;
using vqt::tst;

// The retrying macros use QCORO_TRY_LOOP_IMPL; where the header does not define it, none of them compiles. That is
// reported (known finding), and the rest of the macros is verified with the definition the header lacks.
#define VQ_STR2(...) #__VA_ARGS__
#define VQ_STR(...) VQ_STR2(__VA_ARGS__)
constexpr bool tryMacrosExpand = std::string_view(VQ_STR(QCORO_TRY_VERIFY(x) QCORO_TRY_VERIFY2(x, y) QCORO_TRY_COMPARE(x, y))).find("QCORO_TRY_") == std::string_view::npos;
#ifndef QCORO_TRY_LOOP_IMPL
#define QCORO_TRY_LOOP_IMPL(expr, timeoutValue, step) QTRY_LOOP_IMPL(expr, timeoutValue, step)
#endif
VQ_CONTRACT(C31, tryMacrosExpand) { vq_cover("C31.macros"); vq_ensure(tryMacrosExpand, "C31.every-macro-expands-completely"); }

namespace {
struct Args { int a = 0, b = 0; const char *text = "because"; };
struct Got { int first = 0, second = 0, third = 0; bool on = false, scope = false; int line = 0; };
struct Scope { Got *g; explicit Scope(Got *x) : g(x) { g->scope = true; } ~Scope() { g->scope = false; } };
int once(int &n, int v) { ++n; return v; }
const char *once(int &n, const char *s) { ++n; return s; }
#define BODY(name, ...) Task<> name(const Args *in, Got *g) { Scope s(g); __VA_ARGS__; g->on = true; co_return; }
BODY(verifies, g->line = __LINE__; QCORO_VERIFY(once(g->first, in->a)))
BODY(verifies2, g->line = __LINE__; QCORO_VERIFY2(once(g->first, in->a), once(g->second, in->text)))
BODY(compares, g->line = __LINE__; QCORO_COMPARE(once(g->first, in->a), once(g->second, in->b)))
BODY(tests, g->line = __LINE__; QCORO_TEST(once(g->first, in->a), once(g->second, in->text)))
BODY(fails, g->line = __LINE__; QCORO_FAIL(once(g->first, in->text)))
BODY(skips, g->line = __LINE__; QCORO_SKIP(once(g->first, in->text)))
BODY(expects, g->line = __LINE__; QCORO_EXPECT_FAIL(once(g->first, in->text), once(g->second, "why"), Continue))
BODY(throws, g->line = __LINE__; QCORO_VERIFY_THROWS_EXCEPTION(StdErr, ++g->first; raise(in->a, in->b)))
BODY(throwsExpression, g->line = __LINE__; QCORO_VERIFY_EXCEPTION_THROWN(raise(once(g->first, in->a), in->b), StdErr))
/// runs one coroutine; the frame is gone when it has ended
template<class F> void run(F &&f, const Args &in, Got &g) {
    vqt::tst = vqt::TestM(); tst.answer = vq_bool("answer"); tst.element = vq_i32("element");
    { auto t = f(&in, &g); VQ_ENSURE(t.isReady(), "C31.ends"); }
    VQ_ENSURE(!g.scope, "C31.scope-left");
}
}
// requires: any statement value; any answer of Qt Test
// ensures:  reported once with the statement's value, text and place; the coroutine goes on iff Qt Test says so
VQ_CONTRACT(C31, verify) {
    Args in; in.a = vq_i32("a"); Got g; run(verifies, in, g);
    VQ_ENSURE(g.first == 1, "C31.evaluated-once");
    VQ_ENSURE(tst.reports == 1 && tst.kind == vqt::Verify && tst.value == (in.a != 0) && tst.line == g.line, "C31.reported");
    VQ_ENSURE(vqt::same(tst.a, "once(g->first, in->a)") && vqt::same(tst.b, ""), "C31.text");
    VQ_ENSURE(g.on == tst.answer, "C31.continues-iff-passed");
    VQ_COVER("C31.verify"); vqt::tst = vqt::TestM();
}
VQ_CONTRACT(C31, verifyWithDescription) {
    Args in; in.a = vq_i32("a"); Got g; run(verifies2, in, g);
    VQ_ENSURE(g.first == 1 && g.second == 1, "C31.evaluated-once");
    VQ_ENSURE(tst.reports == 1 && tst.kind == vqt::Verify && tst.value == (in.a != 0) && tst.line == g.line, "C31.reported");
    VQ_ENSURE(vqt::same(tst.a, "once(g->first, in->a)") && vqt::same(tst.b, "because"), "C31.text");
    VQ_ENSURE(g.on == tst.answer, "C31.continues-iff-passed");
    VQ_COVER("C31.verify2"); vqt::tst = vqt::TestM();
}
VQ_CONTRACT(C31, compare) {
    Args in; in.a = vq_i32("a"); in.b = vq_i32("b"); Got g; run(compares, in, g);
    VQ_ENSURE(g.first == 1 && g.second == 1, "C31.evaluated-once");
    VQ_ENSURE(tst.reports == 1 && tst.kind == vqt::Compare && tst.actual == in.a && tst.expected == in.b && tst.line == g.line, "C31.reported");
    VQ_ENSURE(vqt::same(tst.a, "once(g->first, in->a)") && vqt::same(tst.b, "once(g->second, in->b)"), "C31.text");
    VQ_ENSURE(g.on == tst.answer, "C31.continues-iff-passed");
    VQ_COVER("C31.compare"); vqt::tst = vqt::TestM();
}
VQ_CONTRACT(C31, testElement) {
    Args in; in.a = vq_i32("a"); Got g; run(tests, in, g);
    VQ_ENSURE(g.first == 1 && g.second == 1, "C31.evaluated-once");
    VQ_ENSURE(tst.reports == 1 && tst.kind == vqt::Compare && tst.actual == in.a && tst.expected == tst.element && tst.line == g.line, "C31.reported");
    VQ_ENSURE(tst.named && vqt::same(tst.named, "because"), "C31.text");
    VQ_ENSURE(g.on == tst.answer, "C31.continues-iff-passed");
    VQ_COVER("C31.test"); vqt::tst = vqt::TestM();
}
VQ_CONTRACT(C31, expectFail) {
    Args in; Got g; run(expects, in, g);
    VQ_ENSURE(g.first == 1 && g.second == 1, "C31.evaluated-once");
    VQ_ENSURE(tst.reports == 1 && tst.kind == vqt::ExpectFail && tst.mode == QTest::Continue && tst.line == g.line, "C31.reported");
    VQ_ENSURE(vqt::same(tst.a, "because") && vqt::same(tst.b, "why"), "C31.text");
    VQ_ENSURE(g.on == tst.answer, "C31.continues-iff-passed");
    VQ_COVER("C31.expectFail"); vqt::tst = vqt::TestM();
}
// ensures: always ends the coroutine
VQ_CONTRACT(C31, failAndSkip) {
    Args in; Got g; const bool f = vq_choose(2, "fail"); run(f ? fails : skips, in, g);
    VQ_ENSURE(g.first == 1, "C31.evaluated-once");
    VQ_ENSURE(tst.reports == 1 && tst.kind == (f ? vqt::Fail : vqt::Skip) && vqt::same(tst.message, "because") && tst.line == g.line, "C31.reported");
    VQ_ENSURE(!g.on, "C31.always-ends");
    VQ_COVER("C31.fail"); vqt::tst = vqt::TestM();
}
// requires: nothing thrown, or an exception of the type, of a derived type or of another type
// ensures:  fails and ends the coroutine iff it is not of the type
static void throwing(Task<> (*how)(const Args *, Got *)) {
    Args in; in.a = vq_choose(2, "throws") ? anyOutcome() : int(Value); in.b = vq_i32("code"); Got g; run(how, in, g);
    const bool expected = in.a == EStd || in.a == ESub;
    VQ_ENSURE(g.first == 1, "C31.evaluated-once");
    VQ_ENSURE(expected ? tst.reports == 0 : tst.reports == 1 && tst.kind == vqt::Fail && tst.line == g.line, "C31.fails-iff-unexpected");
    VQ_ENSURE(g.on == expected, "C31.continues-iff-passed");
    VQ_ENSURE(alive == 0, "C31.exception-released");
    VQ_COVER("C31.throws"); vqt::tst = vqt::TestM();
}
VQ_CONTRACT(C31, throwsException) { throwing(throws); }
VQ_CONTRACT(C31, exceptionThrown) { throwing(throwsExpression); }
namespace {
struct Logic : std::exception { const char *what() const noexcept override { return "the reason"; } };
BODY(throwsOther, g->line = __LINE__; QCORO_VERIFY_THROWS_EXCEPTION(StdErr, throw Logic()))
}
// ensures: another std::exception's text is in the message
VQ_CONTRACT(C31, otherException) {
    Args in; Got g; run(throwsOther, in, g);
    unsigned n = 0; while (tst.message[n]) ++n;
    VQ_ENSURE(tst.reports == 1 && tst.kind == vqt::Fail && !g.on && n > 10 && vqt::same(tst.message + n - 10, "the reason"), "C31.names-the-exception");
    VQ_COVER("C31.other"); vqt::tst = vqt::TestM();
}
// ---- retrying
namespace {
struct Retry { int limit = 0; bool holds = false, inTime = false; int late = 0, idle = 0; };
Retry rt;
bool holds() { return rt.holds; }
BODY(tries, QCORO_TRY_VERIFY_WITH_TIMEOUT(holds(), in->a))
BODY(tries2, QCORO_TRY_VERIFY2_WITH_TIMEOUT(holds(), in->text, in->a))
BODY(triesCompare, QCORO_TRY_COMPARE_WITH_TIMEOUT(int(holds()), 1, in->a))
BODY(triesDefault, QCORO_TRY_VERIFY(holds()))
BODY(tries2Default, QCORO_TRY_VERIFY2(holds(), in->text))
BODY(triesCompareDefault, QCORO_TRY_COMPARE(int(holds()), 1))
// one round of waiting: afterwards the condition holds or does not
void round(int ms) {
    vq_loop("C31.waiting");
    const bool within = tst.waited < rt.limit || (tst.waits == 1 && ms == 0);
    VQ_ENSURE(ms >= 0 && rt.late <= 3 * rt.limit + 1000, "C31.waiting-ends");
    if (ms == 0) { ++rt.idle; VQ_ENSURE(rt.idle <= 2, "C31.waiting-ends"); }
    tst.waits = tst.waits > 1 ? 2 : tst.waits; // first, later
    if (tst.waited < rt.limit) tst.waited += ms; else rt.late += ms;
    rt.holds = vq_choose(2, "holds");
    if (rt.holds && within) rt.inTime = true;
}
// requires: any timeout; the condition holds at once, from any round on, or never
// ensures:  one report; passes iff the condition held within the timeout, and fails no earlier
void retrying(Task<> (*how)(const Args *, Got *), int limit, int kind) {
    Args in; in.a = limit; Got g; rt = Retry(); rt.limit = limit; rt.holds = rt.inTime = vq_choose(2, "holds at once"); vqt::during = round;
    run(how, in, g);
    VQ_ENSURE(tst.reports == 1, "C31.one-report");
    if (rt.inTime) {
        VQ_ENSURE(kind == vqt::Verify ? tst.kind == vqt::Verify && tst.value : tst.kind == vqt::Compare && tst.actual == tst.expected, "C31.passes-when-it-holds");
        VQ_ENSURE(g.on == tst.answer, "C31.continues-iff-passed"); VQ_COVER("C31.retry.passes");
    } else {
        VQ_ENSURE(tst.waited >= limit, "C31.fails-only-after-timeout");
        VQ_ENSURE(tst.kind == vqt::Fail || (kind == vqt::Verify ? tst.kind == vqt::Verify && !tst.value : tst.kind == vqt::Compare && tst.actual != tst.expected), "C31.fails-after-timeout");
        VQ_ENSURE(g.on == (tst.kind != vqt::Fail && tst.answer), "C31.continues-iff-passed"); VQ_COVER("C31.retry.fails");
    }
    vqt::tst = vqt::TestM(); rt = Retry(); vqt::during = nullptr;
}
int anyLimit() { const int t = vq_i32("timeout"); VQ_REQUIRE(t >= 0 && t <= 10000000); return t; }
int theDefault() { const int t = vq_i32("default"); VQ_REQUIRE(t == 5000); return t; }
}
VQ_CONTRACT(C31, tryVerify) { retrying(tries, anyLimit(), vqt::Verify); }
VQ_CONTRACT(C31, tryVerifyWithDescription) { retrying(tries2, anyLimit(), vqt::Verify); }
VQ_CONTRACT(C31, tryCompare) { retrying(triesCompare, anyLimit(), vqt::Compare); }
VQ_CONTRACT(C31, tryVerifyDefault) { retrying(triesDefault, theDefault(), vqt::Verify); }
VQ_CONTRACT(C31, tryVerifyWithDescriptionDefault) { retrying(tries2Default, theDefault(), vqt::Verify); }
VQ_CONTRACT(C31, tryCompareDefault) { retrying(triesCompareDefault, theDefault(), vqt::Compare); }
