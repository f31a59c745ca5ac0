// Contracts of WebSockets: opening, pinging, message generators, servers (C26 - C28, C32)
#include "common.h"
#include "many.h"
#include "qtwebsockets.h"
#include "qcorowebsocket.h"
#include "qcorowebsocketserver.h"
#include <chrono>
using namespace vq;
using QCoro::Task;
using std::chrono::milliseconds;
using S = QAbstractSocket;

namespace {
constexpr int MaxPending = 2; // emissions that are queued but not delivered
const int States[] = {S::UnconnectedState, S::ConnectingState, S::ConnectedState, S::ClosingState};
using Wrapper = QCoro::detail::QCoroWebSocket;
// ------------------------------------------------------------------ C26: open
struct Got { int times = 0; bool v = false; long ms = 0; };
struct Ask { QWebSocket *s; int t; long url; vqt::Bytes payload; };
enum Form { ByUrl, ByRequest, UrlLater, RequestLater };
constexpr bool requests(Form f) { return f == ByRequest || f == RequestLater; }
template<Form f> Task<> opening(const Ask *a, Got *g) {
    bool b;
    if constexpr (f == ByUrl) b = co_await qCoro(a->s).open(vqt::url(a->url), milliseconds(a->t));
    else if constexpr (f == ByRequest) b = co_await qCoro(*a->s).open(vqt::request(a->url), milliseconds(a->t));
    else { // wrapper and arguments are gone before the operation is awaited
        auto *q = new Wrapper(a->s); std::optional<QUrl> u(vqt::url(a->url)); std::optional<QNetworkRequest> r(vqt::request(a->url));
        auto op = f == UrlLater ? q->open(*u, milliseconds(a->t)) : q->open(*r, milliseconds(a->t));
        delete q; u.reset(); r.reset(); b = co_await op;
    }
    ++g->times; g->v = b;
}
// what can happen to a socket; false: not possible now
bool happens(QWebSocket *s, vqt::WebM *m, unsigned op) {
    if (op == 0) { // it proceeds, or somebody opens it
        if (m->state == S::UnconnectedState) vqt::becomes(s, S::ConnectingState);
        else if (m->state == S::ConnectingState) vqt::becomes(s, S::ConnectedState);
        else return false;
    } else if (op == 1) { if (m->state == S::UnconnectedState) return false; vqt::fails(s); }
    else if (op == 2) { if (m->state != S::ConnectedState) return false; vqt::becomes(s, S::ClosingState); }
    else { if (m->state == S::UnconnectedState) return false; s->abort(); }
    return true;
}
// requires: a socket in any state, any URL and timeout; any history of what sockets do
// ensures:  opened once with the argument as given, unless connected; one resumption with the outcome of the first event that decides it
template<Form f> void open() {
    {
        std::optional<QWebSocket> s; s.emplace(); vqt::WebM *m = &vqt::web(&*s);
        m->state = States[vq_choose(4, "state")];
        const bool connected = m->state == S::ConnectedState;
        Ask a{&*s, vq_i32("timeout"), vq_i32("url"), {}}; const int t = a.t;
        Got g;
        {
            auto task = opening<f>(&a, &g);
            vq_ensure(m->opens == (connected ? 0 : 1), "C26.opens-once");
            if (!connected) vq_ensure(m->byRequest == requests(f) && m->url == a.url, "C26.opens-as-asked");
            bool done = connected || m->failed, has = connected, seen = done;
            vq_ensure(task.isReady() == done, "C26.suspends-only-while-open");
            if (connected) vq_cover("C26.connected-already"); else if (done) vq_cover("C26.failed-at-once");
            for (;;) {
                vq_cut("C26.history");
                vq_ensure(task.isReady() == done && g.times == (done ? 1 : 0), "C26.resumed-once");
                if (done) vq_ensure(g.v == has, "C26.outcome");
                if (m) vq_ensure(m->opens == (connected ? 0 : 1), "C26.opens-once");
                const unsigned op = vq_choose(8, "event");
                if (op <= 4 && (!s || vqt::pending() >= MaxPending)) vq_end();
                if (op <= 3) {
                    if (!happens(&*s, m, op)) vq_end();
                    if (!seen && m->state == S::ConnectedState) { seen = has = true; vq_cover("C26.connected"); }
                    if (!seen && m->state == S::UnconnectedState) { seen = true; vq_cover("C26.disconnected"); }
                } else if (op == 4) { s.reset(); m = nullptr; seen = true; }
                else if (op == 5) {
                    QTimer *tm = vqt::running(); if (!tm) vq_end();
                    vq_ensure(!done && t >= 0 && vqt::of(tm)->interval == t, "C26.timeout-as-given"); vqt::expire(tm); seen = done = true; has = false; vq_cover("C26.expired");
                } else if (op == 6) { if (!vqt::pending()) vq_end(); vqt::deliver(); vq_ensure(seen && !done, "C26.resumed-once"); done = true; }
                else break;
            }
            if (!done) { vq_ensure(!seen || vqt::pending(), "C26.resumed-once"); vq_ensure(seen || t < 0 || vqt::running(), "C26.times-out"); vq_end(); }
            vq_ensure(!vqt::pending() && !vqt::running(), "C26.resumed-once");
        }
        vq_ensure(vqt::connections() == 0 && vqt::objects() == (s ? 1 : 0), "C26.nothing-left");
    }
    vq_ensure(vq_live_heap() == 0, "C26.nothing-leaks");
}
// ------------------------------------------------------------------ C26: ping
vqt::Bytes someBytes() { vqt::Bytes b; b.size = vq_i32("size"); b.id = vq_i32("id"); vq_assume(b.size > 0 && b.size <= 1000); return b; }
template<bool later> Task<> pinging(const Ask *a, Got *g) {
    std::optional<milliseconds> r;
    if constexpr (!later) r = co_await qCoro(a->s).ping(vqt::bytes(a->payload), milliseconds(a->t));
    else { auto *q = new Wrapper(a->s); std::optional<QByteArray> d(vqt::bytes(a->payload)); auto op = q->ping(*d, milliseconds(a->t)); delete q; d.reset(); r = co_await op; }
    ++g->times; g->v = r.has_value(); g->ms = r ? r->count() : 0;
}
// requires: a socket in any state, any payload and timeout; any history of what sockets do
// ensures:  one ping with the payload as given, if connected; one resumption with the time the first pong tells, or nothing
template<bool later> void ping() {
    {
        std::optional<QWebSocket> s; s.emplace(); vqt::WebM *m = &vqt::web(&*s);
        m->state = States[vq_choose(4, "state")];
        const bool connected = m->state == S::ConnectedState;
        Ask a{&*s, vq_i32("timeout"), 0, someBytes()}; const int t = a.t;
        Got g;
        {
            bool done = !connected, seen = done, has = false; long ms = 0;
            auto task = pinging<later>(&a, &g);
            vq_ensure(m->pings == (connected ? 1 : 0), "C26.pings-once");
            if (connected) vq_ensure(m->payload == a.payload, "C26.pings-as-asked"); else vq_cover("C26.not-connected");
            vq_ensure(task.isReady() == done, "C26.suspends-only-while-open");
            for (;;) {
                vq_cut("C26.history");
                vq_ensure(task.isReady() == done && g.times == (done ? 1 : 0), "C26.resumed-once");
                if (done) vq_ensure(g.v == has && (!has || g.ms == ms), "C26.outcome");
                if (m) vq_ensure(m->pings == (connected ? 1 : 0), "C26.pings-once");
                const unsigned op = vq_choose(9, "event");
                if (op <= 5 && (!s || vqt::pending() >= MaxPending)) vq_end();
                if (op <= 3) { if (!happens(&*s, m, op)) vq_end(); seen = true; }
                else if (op == 4) {
                    if (m->state != S::ConnectedState) vq_end();
                    const long e = vq_i64("elapsed"); vq_assume(e >= 0);
                    vqt::pongs(&*s, quint64(e), vqt::Bytes{7, 4}); if (!seen) { seen = has = true; ms = e; vq_cover("C26.pong"); }
                } else if (op == 5) { s.reset(); m = nullptr; seen = true; }
                else if (op == 6) {
                    QTimer *tm = vqt::running(); if (!tm) vq_end();
                    vq_ensure(!done && t >= 0 && vqt::of(tm)->interval == t, "C26.timeout-as-given"); vqt::expire(tm); seen = done = true; has = false; vq_cover("C26.ping-expired");
                } else if (op == 7) { if (!vqt::pending()) vq_end(); vqt::deliver(); vq_ensure(seen && !done, "C26.resumed-once"); done = true; }
                else break;
                if (!has) ms = 0;
            }
            if (!done) { vq_ensure(!seen || vqt::pending(), "C26.resumed-once"); vq_ensure(seen || t < 0 || vqt::running(), "C26.times-out"); vq_end(); }
            vq_ensure(!vqt::pending() && !vqt::running(), "C26.resumed-once");
        }
        vq_ensure(vqt::connections() == 0 && vqt::objects() == (s ? 1 : 0), "C26.nothing-left");
    }
    vq_ensure(vq_live_heap() == 0, "C26.nothing-leaks");
}
} // namespace
VQ_CONTRACT(C26, open) { open<ByUrl>(); }
VQ_CONTRACT(C26, openRequest) { open<ByRequest>(); }
VQ_CONTRACT(C26, ping) { ping<false>(); }
VQ_CONTRACT(C32, webSocketOpen) { open<UrlLater>(); }
VQ_CONTRACT(C32, webSocketOpenRequest) { open<RequestLater>(); }
VQ_CONTRACT(C32, webSocketPing) { ping<true>(); }

namespace {
// ------------------------------------------------------------------ C27
constexpr int MaxOut = 2; // messages that are not consumed yet, at any one time
struct Msg { long id = 0; long size = 0; bool last = false; };
struct TextMessages {
    static constexpr bool frame = false;
    static auto gen(Wrapper q, milliseconds t) { return q.textMessages(t); }
    static void arrives(QWebSocket *s, Msg m) { vqt::fire(s, &QWebSocket::textMessageReceived, vqt::message(m.id, m.size)); }
    static Msg get(const QString &s) { const auto b = vqt::dataOf(s); return {b.id, b.size, false}; }
};
struct BinaryMessages {
    static constexpr bool frame = false;
    static auto gen(Wrapper q, milliseconds t) { return q.binaryMessages(t); }
    static void arrives(QWebSocket *s, Msg m) { vqt::fire(s, &QWebSocket::binaryMessageReceived, vqt::bytes(vqt::Bytes{m.id, m.size})); }
    static Msg get(const QByteArray &a) { const auto b = vqt::dataOf(a); return {b.id, b.size, false}; }
};
struct TextFrames {
    static constexpr bool frame = true;
    static auto gen(Wrapper q, milliseconds t) { return q.textFrames(t); }
    static void arrives(QWebSocket *s, Msg m) { vqt::fire(s, &QWebSocket::textFrameReceived, vqt::message(m.id, m.size), m.last); }
    static Msg get(const std::tuple<QString, bool> &v) { const auto b = vqt::dataOf(std::get<0>(v)); return {b.id, b.size, std::get<1>(v)}; }
};
struct BinaryFrames {
    static constexpr bool frame = true;
    static auto gen(Wrapper q, milliseconds t) { return q.binaryFrames(t); }
    static void arrives(QWebSocket *s, Msg m) { vqt::fire(s, &QWebSocket::binaryFrameReceived, vqt::bytes(vqt::Bytes{m.id, m.size}), m.last); }
    static Msg get(const std::tuple<QByteArray, bool> &v) { const auto b = vqt::dataOf(std::get<0>(v)); return {b.id, b.size, std::get<1>(v)}; }
};
struct Reader {
    Msg fifo[MaxOut]; int n = 0;     // received, not yet yielded
    bool waiting = false, ended = false, left = false;
    Gate gate;
};
template<class K> void took(Reader *st, Msg e) {
    vq_ensure(st->waiting, "C27.resumed-only-while-waiting"); st->waiting = false;
    vq_ensure(st->n > 0, "C27.each-message-once");
    vq_ensure((e.id == st->fifo[0].id) & (e.size == st->fifo[0].size) & (e.last == st->fifo[0].last), "C27.in-order-unaltered");
    for (int i = 1; i < st->n; ++i) st->fifo[i - 1] = st->fifo[i];
    st->fifo[--st->n] = Msg{};
}
template<class K> Task<> reads(QWebSocket *s, Reader *st, milliseconds t) {
    auto gen = K::gen(qCoro(s), t);
    while (vq_bool("starts later")) co_await st->gate;
    st->waiting = true;
    auto it = co_await gen.begin();
    while (it != gen.end()) {
        { const auto v = std::move(*it); took<K>(st, K::get(v)); }
        unsigned c;
        while ((c = vq_choose(3, "consumer")) == 1) co_await st->gate;  // busy with something else
        if (c == 2) { st->left = true; co_return; }
        st->waiting = true;
        co_await ++it;
    }
    vq_ensure(st->waiting, "C27.resumed-only-while-waiting"); st->waiting = false;
    st->ended = true;
    while (vq_bool("lives on")) co_await st->gate;                      // the generator is still around
}
template<class K> Msg fresh() { Msg m; m.size = vq_i32("size"); vq_assume(m.size >= 0); m.id = vq_i64("message"); vq_assume((m.size > 0) | (m.id == 0)); m.last = K::frame && vq_bool("last"); return m; }
// requires: a socket in any state, any timeout; any history of messages, state changes and destruction, any pace of the reader
// ensures:  every message since the generator was made is yielded once, in order, until the connection ends or nothing comes in time
template<class K> void messages(bool timed) {
    {
        std::optional<QWebSocket> s; s.emplace(); vqt::WebM *m = &vqt::web(&*s);
        m->state = States[vq_choose(4, "state")];
        const int t = timed ? vq_i32("timeout") : -1;
        const bool limited = timed && t >= 0;
        Reader st; bool over = m->state == S::UnconnectedState, expired = false; int extra = 0; // over: the connection ended
        if (over) vq_cover("C27.not-connected");
        if (m->state == S::ConnectedState) K::arrives(&*s, fresh<K>());      // before the generator exists
        vq_ensure(vqt::pending() == 0, "C27.earlier-message-ignored");
        {
            auto task = reads<K>(&*s, &st, milliseconds(t));
            for (;;) {
                vq_cut("C27.history");
                const bool finished = st.ended || st.left;
                vq_ensure(task.isReady() == (finished && !st.gate.waiting()), "C27.reader-finishes");
                vq_ensure(!st.ended || expired || (over && st.n == 0), "C27.ends-only-with-the-connection-or-in-time");
                vq_ensure(!expired || finished, "C27.timeout-ends-it");
                vq_ensure(!(st.waiting && (st.n > 0 || over) && vqt::pending() == 0), "C27.none-held-back");
                if (finished) { st.n = 0; for (auto &x : st.fifo) x = Msg{}; extra = 0; over = expired = true; }
                QTimer *timer = vqt::running();
                vq_ensure((timer != nullptr) == (limited && st.waiting), "C27.each-wait-is-limited");
                if (timer) vq_ensure(timer->interval() == t && timer->isSingleShot(), "C27.exact-timeout");
                if (st.ended || (st.left && !st.gate.waiting())) vq_ensure(vqt::pending() == 0 && vqt::connections() == 0, "C27.stops-listening");
                const unsigned op = vq_choose(9, "event");
                if (op == 8) break;
                if (op <= 5 && (!s || (finished ? vqt::pending() >= MaxOut : st.n + extra >= MaxOut))) vq_end();
                if (op <= 3) { 
                    if (!happens(&*s, m, op)) vq_end();
                    if (m->state != S::ConnectedState) { over = true; if (!finished) ++extra; }
                    if (over) vq_cover("C27.disconnected");
                } else if (op == 4) {
                    if (m->state != S::ConnectedState) vq_end();
                    const Msg x = fresh<K>();
                    if (!finished && over) ++extra; else if (!finished) st.fifo[st.n++] = x;
                    K::arrives(&*s, x);
                } else if (op == 5) { s.reset(); m = nullptr; over = true; }
                else if (op == 6) {
                    if (vq_choose(2, "which")) { if (!st.gate.waiting()) vq_end(); st.gate.open(); }
                    else { if (!timer) vq_end(); expired = true; vqt::expire(timer); vq_cover("C27.expired"); }
                } else { if (!vqt::pending()) vq_end(); vqt::deliver(); vq_cover("C27.delivered"); }
            }
            if (!task.isReady()) vq_end();            // a waiting or busy reader is not destroyed here
        }
        vq_ensure(vqt::connections() == 0 && vqt::pending() == 0 && !vqt::running(), "C27.nothing-left");
        vq_ensure(vqt::objects() == (s ? 1 : 0), "C27.nothing-left");
    }
    vq_ensure(vq_live_heap() == 0, "C27.nothing-leaks");
}
} // namespace
VQ_CONTRACT(C27, textMessages) { messages<TextMessages>(true); }
VQ_CONTRACT(C27, binaryMessages) { messages<BinaryMessages>(false); }
VQ_CONTRACT(C27, textFrames) { messages<TextFrames>(false); }
VQ_CONTRACT(C27, binaryFrames) { messages<BinaryFrames>(true); }

// requires: any number of messages that the busy consumer has not asked for yet
// ensures:  one more message comes last and changes none of them; the consumer gets the first of them at once
namespace {
struct Taking { Gate gate; int times = 0; long last = 0; bool stop = false; };
Task<> takes(QWebSocket *s, Taking *g, milliseconds t) {
    auto gen = qCoro(s).binaryMessages(t);
    auto it = co_await gen.begin();
    while (it != gen.end()) {
        { const QByteArray m = *it; g->last = vqt::dataOf(m).id; } ++g->times;
        co_await g->gate; if (g->stop) break;
        co_await ++it;
    }
}
}
VQ_CONTRACT(C27, anyNumberWaiting) {
    {
        QWebSocket s; vqt::web(&s).state = S::ConnectedState;
        Taking g; const std::int64_t n = vq_i64("waiting"); vq_assume(n >= 0 && n < (1L << 40));
        const long a = vq_i64("first"), b = vq_i64("last but one"), x = vq_i64("last");
        auto arrives = [&s](long v) { vqt::fire(&s, &QWebSocket::binaryMessageReceived, vqt::bytes(vqt::Bytes{v, 8})); while (vqt::pending()) vqt::deliver(); };
        {
            auto task = takes(&s, &g, milliseconds(vq_choose(2, "timed") ? 1000 : -1));
            arrives(0); vq_ensure(g.times == 1, "C27.delivered");
            arrives(a);
            const std::int64_t real = reallyThere(n); for (long i = 0; i < real; ++i) arrives(i);
            arrives(b);
            const bool hidden = real == 0 && moreWaiting(n);
            arrives(x);
            vq_ensure(!hidden || others() == n, "C27.none-dropped");
            g.gate.open(); vq_ensure(g.times == 2 && g.last == a, "C27.in-order-unaltered"); // at once
            vq_ensure(!hidden || others() == n, "C27.none-dropped"); if (hidden) moreWaiting(0);
            for (long i = 0; i < real; ++i) { g.gate.open(); vq_ensure(g.times == 3 + i && g.last == i, "C27.in-order-unaltered"); }
            g.gate.open(); vq_ensure(g.times == 3 + real && g.last == b, "C27.in-order-unaltered");
            g.gate.open(); vq_ensure(g.times == 4 + real && g.last == x, "C27.in-order-unaltered");
            vq_cover("C27.any-number");
            g.stop = true; g.gate.open();
        }
        vq_ensure(vqt::connections() == 0 && vqt::pending() == 0 && !vqt::running(), "C27.nothing-left");
    }
    vq_ensure(vq_live_heap() == 0 && vqt::objects() == 0, "C27.nothing-leaks");
}
namespace {
// ------------------------------------------------------------------ C28
struct Taken { int times = 0; QWebSocket *s = nullptr; };
template<bool later> Task<> taking(QWebSocketServer *s, int t, Taken *g) {
    QWebSocket *r;
    if constexpr (!later) r = co_await qCoro(s).nextPendingConnection(milliseconds(t));
    else { auto *q = new QCoro::detail::QCoroWebSocketServer(s); auto op = q->nextPendingConnection(milliseconds(t)); delete q; r = co_await op; }
    ++g->times; g->s = r;
}
// requires: a server in any state, any timeout; any history of connections (also taken by others), close and destruction
// ensures:  takes one connection, when it resumes, or none; nothing reacts to connections afterwards
template<bool later> void nextConnection() {
    {
        std::optional<QWebSocketServer> s; s.emplace(QString(), QWebSocketServer::NonSecureMode); vqt::WebServerM *m = &vqt::server(&*s);
        m->listening = vq_choose(2, "listening"); if (m->listening) m->waiting = vq_choose(3, "waiting");
        const int t = vq_i32("timeout");
        Taken g;
        {
            bool done = !m->listening || m->waiting > 0, seen = done;
            QWebSocket *mine = nullptr;
            const bool atOnce = m->waiting > 0;
            auto task = taking<later>(&*s, t, &g);
            vq_ensure(m->taken == (atOnce ? 1 : 0), "C28.takes-one-connection"); mine = m->last; m->taken = 0;
            vq_ensure(task.isReady() == done, "C28.suspends-only-while-none-waits");
            if (done) { if (atOnce) vq_cover("C28.waiting"); else vq_cover("C28.not-listening"); }
            for (;;) {
                vq_cut("C28.history");
                vq_ensure(task.isReady() == done && g.times == (done ? 1 : 0), "C28.resumed-once");
                if (done) vq_ensure(g.s == mine, "C28.yields-the-connection-it-took");
                vq_ensure(!m || m->taken == 0, "C28.takes-one-connection");
                const unsigned op = vq_choose(6, "event");
                if ((op == 0 || op == 2 || op == 3) && vqt::pending() >= MaxPending) vq_end();
                if (op == 0) {
                    if (!s || !m->listening) vq_end();
                    vqt::incoming(&*s); if (!seen) { seen = true; vq_cover("C28.arrived"); }
                    // it may be taken when it arrives
                    if (m->taken) { vq_ensure(m->taken == 1 && !mine && !done, "C28.takes-one-connection"); mine = m->last; m->taken = 0; }
                } else if (op == 1) { if (!s || !m->waiting) vq_end(); s->nextPendingConnection(); m->taken = 0; } // somebody else takes it
                else if (op == 2) { if (!s || !m->listening) vq_end(); s->close(); if (!seen) { seen = true; vq_cover("C28.closed"); } }
                else if (op == 3) { if (!s) vq_end(); s.reset(); m = nullptr; seen = true; }
                else if (op == 4) {
                    QTimer *tm = vqt::running(); if (!tm) vq_end();
                    vq_ensure(!done && t >= 0 && vqt::of(tm)->interval == t, "C28.timeout-as-given"); vqt::expire(tm); seen = done = true; vq_cover("C28.expired");
                } else {
                    if (!vqt::pending()) { if (done) break; vq_ensure(!seen, "C28.resumed-when-one-arrives"); vq_ensure(t < 0 || vqt::running(), "C28.times-out"); vq_end(); }
                    const bool some = s && m->waiting > 0 && !mine;
                    vqt::deliver(); vq_ensure(seen && !done, "C28.resumed-once"); done = true;
                    if (s) { vq_ensure(m->taken == (some ? 1 : 0), "C28.takes-one-connection"); m->taken = 0; if (some) mine = m->last; }
                }
            }
        }
        vq_ensure(vqt::connections() == 0 && vqt::objects() == (s ? 1 : 0), "C28.nothing-left");
    }
    vq_ensure(vq_live_heap() == 0, "C28.nothing-leaks");
}
} // namespace
VQ_CONTRACT(C28, nextPendingConnection) { nextConnection<false>(); }
VQ_CONTRACT(C32, webSocketConnection) { nextConnection<true>(); }
