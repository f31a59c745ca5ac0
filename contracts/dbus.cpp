// Contracts of awaiting D-Bus calls (C25, C32)
#include "common.h"
#include "qtdbus.h"
#include "qcorodbuspendingcall.h"
#include "qcorodbuspendingreply.h"
using namespace vq;
using QCoro::Task;

namespace {
enum Way { Direct, Wait, Later };
struct Got { int times = 0; long message = 0; int types = -1; bool right = true; };
template<class R, Way w> Task<> awaits(const R &c, Got *g) {
    if constexpr (w == Direct) { const auto r = co_await c; note(r, g); }
    else if constexpr (w == Wait) { const auto r = co_await qCoro(c).waitForFinished(); note(r, g); }
    else { // the wrapper is gone before the operation is awaited
        auto *q = new decltype(qCoro(c))(qCoro(c)); auto op = q->waitForFinished(); delete q;
        const auto r = co_await op; note(r, g);
    }
    ++g->times;
}
void note(const QDBusMessage &m, Got *g) { g->message = vqt::messageOf(m); }
template<class... T> void note(const QDBusPendingReply<T...> &r, Got *g) {
    g->message = vqt::messageOf(r.reply()); g->types = vqt::callOf(r) ? vqt::callOf(r)->types : -1;
    if constexpr (sizeof...(T) == 2) { const QMetaType t[] = {QMetaType::fromType<T>()...}; if (auto *d = vqt::callOf(r)) g->right = d->first.iface() == t[0].iface() && d->second.iface() == t[1].iface(); }
}
long answer; bool mayArrive;
bool arrives(QDBusPendingCallPrivate *d) { if (!mayArrive || !vq_choose(2, "arrives meanwhile")) return false; d->message = answer; return true; }
// requires: no call, or a call that is answered (with a reply or an error) or not, now or at any time in between;
//           watched by others or not
// ensures:  suspends only if it is not answered when asked; one resumption after the answer, with that answer
template<class R, Way w, int Types> void call() {
    {
        answer = vq_i64("answer"); vq_assume(answer > 0);
        const unsigned state = vq_choose(3, "call"); // 0: none, 1: not answered, 2: answered
        const bool watched = state && vq_choose(2, "watched");
        std::optional<R> c; if (state) c.emplace(vqt::call(state == 2, answer)); else if constexpr (Types >= 0) c.emplace(); else c.emplace(QDBusPendingCall(static_cast<QDBusPendingCallPrivate *>(nullptr)));
        std::optional<QDBusPendingCallWatcher> other; if (watched) { other.emplace(*c); while (vqt::pending()) vqt::deliver(); }
        Got g;
        {
            mayArrive = state == 1 && !watched; vqt::arrivesMeanwhile = &arrives;
            bool done = state != 1;
            auto task = awaits<R, w>(*c, &g); mayArrive = false;
            bool answered = state != 1 || vqt::callOf(*c)->finished, mine = c.has_value();
            vq_ensure(task.isReady() == done, "C25.suspends-only-while-unanswered");
            if (done) { if (state) vq_cover("C25.answered"); else vq_cover("C25.none"); }
            else if (answered) vq_cover("C25.answered-meanwhile");
            for (;;) {
                vq_cut("C25.history");
                vq_ensure(task.isReady() == done && g.times == (done ? 1 : 0), "C25.resumed-once");
                if (done) vq_ensure(g.message == (state ? answer : -1) && (!state || g.types == Types && g.right), "C25.yields-the-answer");
                const unsigned op = vq_choose(4, "event");
                if (op == 0) { if (answered || !mine) vq_end(); answered = true; vqt::answer(*c, answer); vq_cover("C25.arrives"); }
                else if (op == 1) { if (!other) vq_end(); other.reset(); }
                else if (op == 2) { if (!answered || !mine || w == Direct && Types < 0) vq_end(); c.reset(); mine = false; } // (the call itself stays while it is awaited directly)
                else {
                    const int before = vqt::pending();
                    if (!before) { if (done) break; vq_ensure(!answered, "C25.resumed-when-answered"); vq_end(); }
                    vqt::deliver();
                    if (!done && task.isReady()) { vq_ensure(answered, "C25.resumed-once"); done = true; }
                }
            }
        }
        other.reset(); c.reset();
        vq_ensure(vqt::connections() == 0 && vqt::objects() == 0, "C25.nothing-left");
    }
    vqt::arrivesMeanwhile = nullptr;
    vq_ensure(vq_live_heap() == 0, "C25.nothing-leaks");
}
} // namespace
VQ_CONTRACT(C25, pendingCall) { call<QDBusPendingCall, Direct, -1>(); }
VQ_CONTRACT(C25, pendingCallWait) { call<QDBusPendingCall, Wait, -1>(); }
VQ_CONTRACT(C25, replyDirect) { call<QDBusPendingReply<int, double>, Direct, 2>(); }
VQ_CONTRACT(C25, replyWait) { call<QDBusPendingReply<int, double>, Wait, 2>(); }
VQ_CONTRACT(C25, voidReplyDirect) { call<QDBusPendingReply<>, Direct, 0>(); }
VQ_CONTRACT(C25, voidReplyWait) { call<QDBusPendingReply<>, Wait, 0>(); }
VQ_CONTRACT(C32, pendingCall) { call<QDBusPendingCall, Later, -1>(); }
VQ_CONTRACT(C32, pendingReply) { call<QDBusPendingReply<int, double>, Later, 2>(); }
