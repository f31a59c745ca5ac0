// Contracts of awaiting sockets, network replies and TCP servers (C18, C21 - C24, C32)
#include "common.h"
#include "qtnetwork.h"
#include "qcoroabstractsocket.h"
#include "qcorolocalsocket.h"
#include "qcoronetworkreply.h"
#include "qcorotcpserver.h"
#include <chrono>
using namespace vq;
using QCoro::Task;
using std::chrono::milliseconds;

namespace {
constexpr int MaxPending = 2; // emissions that are queued but not delivered
struct Got { int times = 0; bool v = false; };
struct Tcp : QAbstractSocket { Tcp() : QAbstractSocket(TcpSocket, nullptr) {} };
using Local = QLocalSocket;
template<class S> constexpr bool tcp = std::is_same_v<S, Tcp>;
template<class S> using Base = std::conditional_t<tcp<S>, QAbstractSocket, QLocalSocket>;
template<class S> using Wrapper = std::conditional_t<tcp<S>, QCoro::detail::QCoroAbstractSocket, QCoro::detail::QCoroLocalSocket>;
template<class S> struct Ask { Base<S> *s; int t; QIODevice::OpenMode mode; QString name; quint16 port = 0; QHostAddress address{quint32(0)}; QAbstractSocket::NetworkLayerProtocol protocol{}; };
enum Form { Int, Chrono, Later, ByName, ByAddress, ByDefault, NameLater, AddressLater };
constexpr bool connects(Form f) { return f >= ByName; }
template<class S, Form f> Task<> connecting(const Ask<S> *a, Got *g) {
    bool b;
    if constexpr (f == Int) b = co_await qCoro(a->s).waitForConnected(a->t);
    else if constexpr (f == Chrono) b = co_await qCoro(*a->s).waitForConnected(milliseconds(a->t));
    else if constexpr (f == Later) { auto *q = new Wrapper<S>(a->s); auto op = q->waitForConnected(milliseconds(a->t)); delete q; b = co_await op; }
    else if constexpr (tcp<S>) {
        if constexpr (f == ByName) b = co_await qCoro(*a->s).connectToHost(a->name, a->port, a->mode, a->protocol, milliseconds(a->t));
        else if constexpr (f == ByAddress) b = co_await qCoro(a->s).connectToHost(a->address, a->port, a->mode, milliseconds(a->t));
        else { // wrapper and arguments are gone before the operation is awaited
            auto *q = new Wrapper<S>(a->s); std::optional<QString> s(a->name); std::optional<QHostAddress> h(a->address);
            auto op = f == NameLater ? q->connectToHost(*s, a->port, a->mode, a->protocol, milliseconds(a->t)) : q->connectToHost(*h, a->port, a->mode, milliseconds(a->t));
            delete q; s.reset(); h.reset(); b = co_await op;
        }
    } else {
        if constexpr (f == ByName) b = co_await qCoro(*a->s).connectToServer(a->name, a->mode, milliseconds(a->t));
        else if constexpr (f == ByDefault) b = co_await qCoro(a->s).connectToServer(a->mode, milliseconds(a->t));
        else { auto *q = new Wrapper<S>(a->s); std::optional<QString> s(a->name); auto op = q->connectToServer(*s, a->mode, milliseconds(a->t)); delete q; s.reset(); b = co_await op; }
    }
    ++g->times; g->v = b;
}
template<class S, Form f> Task<> disconnecting(const Ask<S> *a, Got *g) {
    bool b;
    if constexpr (f == Int) b = co_await qCoro(*a->s).waitForDisconnected(a->t);
    else if constexpr (f == Chrono) b = co_await qCoro(a->s).waitForDisconnected(milliseconds(a->t));
    else { auto *q = new Wrapper<S>(a->s); auto op = q->waitForDisconnected(milliseconds(a->t)); delete q; b = co_await op; }
    ++g->times; g->v = b;
}
// requires: a socket in any state, any timeout, host, port, mode and protocol, any history of what sockets do
// ensures:  suspends iff the outcome is open; one resumption with the outcome of the first event that decides it;
//           connects once, with the arguments as given; nothing is left behind
template<class S, bool Connecting, Form f> void outcome(Task<> (*how)(const Ask<S> *, Got *)) {
    using B = Base<S>;
    constexpr bool Connects = connects(f);
    {
        std::optional<S> s; s.emplace(); vqt::SockM *m = &vqt::sock(static_cast<B *>(&*s));
        static const int states[] = {B::UnconnectedState, B::ConnectingState, B::ConnectedState, B::ClosingState, QAbstractSocket::HostLookupState, QAbstractSocket::BoundState};
        m->state = states[vq_choose(tcp<S> ? 6 : 4, "state")];
        const int before = m->state;
        Ask<S> a{&*s, vq_i32("timeout")}; const int t = a.t;
        long name = 0; const quint16 port = a.port = quint16(vq_i32("port"));
        if (Connects) {
            a.mode = QIODevice::OpenMode(vq_i32("mode")); name = vq_i32("name"); vq_assume(name >= 0); a.name = vqt::text(name); a.address = vqt::address(name);
            a.protocol = f == ByAddress || f == AddressLater ? QAbstractSocket::AnyIPProtocol : QAbstractSocket::NetworkLayerProtocol(vq_i32("protocol"));
        }
        Got g;
        {
            auto task = how(&a, &g);
            if (Connects) {
                vq_ensure(m->connects == 1 && m->mode == a.mode.toInt(), "P.connects-once-as-asked");
                if (tcp<S>) vq_ensure(m->byAddress == (f == ByAddress || f == AddressLater) && m->host == name && m->port == port && m->protocol == a.protocol, "P.connects-once-as-asked");
                else vq_ensure(m->named == (f != ByDefault) && (!m->named || m->host == name), "P.connects-once-as-asked");
            } else vq_ensure(m->connects == 0 && m->state == before, "P.only-waits");
            // the outcome when it is known already
            bool done = m->state == B::ConnectedState, has = done;
            if (!Connecting) { done = m->state == B::UnconnectedState; has = false; }
            else if (Connects && m->state == B::UnconnectedState) done = true;
            bool seen = done;
            vq_ensure(task.isReady() == done, "P.suspends-only-while-open");
            if (done) vq_cover("P.known");
            for (;;) {
                vq_cut("P.history");
                vq_ensure(task.isReady() == done && g.times == (done ? 1 : 0), "P.resumed-once");
                if (done) vq_ensure(g.v == has, "P.outcome");
                if (m) vq_ensure(m->connects == (Connects ? 1 : 0), "P.connects-once-as-asked");
                const unsigned op = vq_choose(9, "event");
                if (op <= 5 && (!s || vqt::pending() >= MaxPending)) vq_end();
                if (op == 0) { // a connection attempt proceeds
                    if (m->state == B::ConnectingState) { vqt::becomes<B>(&*s, B::ConnectedState); if (Connecting && !seen) { seen = has = true; vq_cover("P.connected"); } }
                    else if (m->state == QAbstractSocket::HostLookupState) vqt::becomes<B>(&*s, B::ConnectingState);
                    else if (m->state == B::UnconnectedState) vqt::becomes<B>(&*s, tcp<S> ? int(QAbstractSocket::HostLookupState) : int(B::ConnectingState)); // somebody connects it
                    else vq_end();
                } else if (op == 1) { // or fails
                    if (m->state != B::ConnectingState && m->state != QAbstractSocket::HostLookupState) vq_end();
                    vqt::fails<B>(&*s); if (!seen) { seen = true; has = !Connecting; vq_cover("P.failed"); }
                } else if (op == 2) { if (m->state != B::ConnectedState) vq_end(); vqt::becomes<B>(&*s, B::ClosingState); }
                else if (op == 3) {
                    if (m->state != B::ConnectedState && m->state != B::ClosingState) vq_end();
                    vqt::loses<B>(&*s); if (!seen) { seen = true; has = !Connecting; vq_cover("P.disconnected"); }
                } else if (op == 4) { // it is closed
                    const int old = m->state; s->close();
                    if (m->state == B::UnconnectedState && old != B::UnconnectedState && !seen) { seen = true; has = !Connecting; }
                } else if (op == 5) { s.reset(); m = nullptr; }
                else if (op == 6) {
                    QTimer *tm = vqt::running(); if (!tm) vq_end();
                    vq_ensure(!done && t >= 0 && vqt::of(tm)->interval == t, "P.timeout-as-given"); vqt::expire(tm); seen = done = true; has = false; vq_cover("P.expired");
                } else if (op == 7) { if (!vqt::pending()) vq_end(); vqt::deliver(); vq_ensure(seen && !done, "P.resumed-once"); done = true; }
                else break;
            }
            if (!done) { vq_ensure(!seen || vqt::pending(), "P.resumed-once"); vq_ensure(seen || t < 0 || vqt::running(), "P.times-out"); vq_end(); }
            vq_ensure(!vqt::pending() && !vqt::running(), "P.resumed-once");
        }
        vq_ensure(vqt::connections() == 0 && vqt::objects() == (s ? 1 : 0), "P.nothing-left");
    }
    vq_ensure(vq_live_heap() == 0, "P.nothing-leaks");
}
} // namespace
VQ_CONTRACT(C21, waitForConnected) { outcome<Tcp, true, Int>(&connecting<Tcp, Int>); }
VQ_CONTRACT(C21, waitForConnectedChrono) { outcome<Tcp, true, Chrono>(&connecting<Tcp, Chrono>); }
VQ_CONTRACT(C21, waitForDisconnected) { outcome<Tcp, false, Int>(&disconnecting<Tcp, Int>); }
VQ_CONTRACT(C21, waitForDisconnectedChrono) { outcome<Tcp, false, Chrono>(&disconnecting<Tcp, Chrono>); }
VQ_CONTRACT(C21, connectToHost) { outcome<Tcp, true, ByName>(&connecting<Tcp, ByName>); }
VQ_CONTRACT(C21, connectToAddress) { outcome<Tcp, true, ByAddress>(&connecting<Tcp, ByAddress>); }
VQ_CONTRACT(C22, waitForConnected) { outcome<Local, true, Int>(&connecting<Local, Int>); }
VQ_CONTRACT(C22, waitForConnectedChrono) { outcome<Local, true, Chrono>(&connecting<Local, Chrono>); }
VQ_CONTRACT(C22, waitForDisconnected) { outcome<Local, false, Int>(&disconnecting<Local, Int>); }
VQ_CONTRACT(C22, waitForDisconnectedChrono) { outcome<Local, false, Chrono>(&disconnecting<Local, Chrono>); }
VQ_CONTRACT(C22, connectToServer) { outcome<Local, true, ByDefault>(&connecting<Local, ByDefault>); }
VQ_CONTRACT(C22, connectToNamedServer) { outcome<Local, true, ByName>(&connecting<Local, ByName>); }
VQ_CONTRACT(C32, socketConnected) { outcome<Tcp, true, Later>(&connecting<Tcp, Later>); }
VQ_CONTRACT(C32, socketDisconnected) { outcome<Tcp, false, Later>(&disconnecting<Tcp, Later>); }
VQ_CONTRACT(C32, socketConnectToHost) { outcome<Tcp, true, NameLater>(&connecting<Tcp, NameLater>); }
VQ_CONTRACT(C32, socketConnectToAddress) { outcome<Tcp, true, AddressLater>(&connecting<Tcp, AddressLater>); }
VQ_CONTRACT(C32, localSocketConnected) { outcome<Local, true, Later>(&connecting<Local, Later>); }
VQ_CONTRACT(C32, localSocketDisconnected) { outcome<Local, false, Later>(&disconnecting<Local, Later>); }
VQ_CONTRACT(C32, localSocketConnectToServer) { outcome<Local, true, NameLater>(&connecting<Local, NameLater>); }

// ------------------------------------------------------------------ readiness of sockets and replies (C18, C23)
namespace {
struct Reply : QNetworkReply {
    qint64 readData(char *, qint64) override { return 0; }
    void abort() override {}
};
struct Ready { int times = 0; bool has = false; long v = 0; };
template<class D> using WrapperOf = decltype(qCoro(std::declval<D *>()));
template<class D, bool Reading, int form> Task<> ready(D *d, int t, Ready *g) {
    using T = std::conditional_t<Reading, bool, std::optional<qint64>>;
    T b;
    if constexpr (Reading) {
        if constexpr (form == 0) b = co_await qCoro(d).waitForReadyRead(t);
        else { auto *q = new WrapperOf<D>(d); auto op = q->waitForReadyRead(milliseconds(t)); delete q; b = co_await op; }
        g->has = b; g->v = 0;
    } else {
        if constexpr (form == 0) b = co_await qCoro(*d).waitForBytesWritten(t);
        else { auto *q = new WrapperOf<D>(d); auto op = q->waitForBytesWritten(milliseconds(t)); delete q; b = co_await op; }
        g->has = b.has_value(); g->v = b.value_or(0);
    }
    ++g->times;
}
// requires: a socket in any state, any timeout, any history of data, state changes, closing and destruction
// ensures:  suspends iff connected and the outcome is open; one resumption with the outcome of the first event
template<class S, bool Reading> void socketReady(Task<> (*how)(Base<S> *, int, Ready *)) {
    using B = Base<S>;
    {
        std::optional<S> s; s.emplace(); vqt::DevM *m = &vqt::dev(&*s); vqt::SockM *k = &vqt::sock(static_cast<B *>(&*s));
        static const int modes[] = {QIODevice::NotOpen, QIODevice::ReadOnly, QIODevice::WriteOnly, QIODevice::ReadWrite}; m->mode = modes[vq_choose(4, "open mode")];
        static const int states[] = {B::UnconnectedState, B::ConnectingState, B::ConnectedState, B::ClosingState};
        k->state = states[vq_choose(4, "state")];
        const int t = vq_i32("timeout");
        const bool able = m->mode & (Reading ? QIODevice::ReadOnly : QIODevice::WriteOnly), connected = k->state == B::ConnectedState;
        if (Reading && able) { m->avail = vq_i64("available"); vq_assume(m->avail >= 0); }
        if (!Reading && able) { m->unsent = vq_i64("unsent"); vq_assume(m->unsent >= 0); }
        Ready g;
        {
            bool done = !able || !connected || (Reading ? m->avail > 0 : m->unsent == 0), seen = done, closed = false, has = able && (Reading ? m->avail > 0 : m->unsent == 0); long v = 0;
            auto task = how(&*s, t, &g);
            vq_ensure(task.isReady() == done, "C18.suspends-only-while-open");
            if (done) vq_cover("C18.known");
            for (;;) {
                vq_cut("C18.history");
                vq_ensure(task.isReady() == done && g.times == (done ? 1 : 0), "C18.resumed-once");
                if (done) vq_ensure(g.has == has && (!has || g.v == v), "C18.outcome");
                vq_ensure(m == nullptr || m->reads == 0 && m->writes == 0 && k->connects == 0, "C18.only-waits");
                const unsigned op = vq_choose(9, "event");
                if (op == 0) {
                    if (!s || !(m->mode & QIODevice::ReadOnly) || closed || k->state != B::ConnectedState) vq_end();
                    if (Reading && !seen) { const long n = vq_i64("arrived"); vq_assume(n > m->avail); vqt::arrives(&*s, n); seen = has = true; vq_cover("C18.event"); }
                    else vqt::arrives(&*s, m->avail);
                } else if (op == 1) {
                    if (!s || !(m->mode & QIODevice::WriteOnly) || closed || k->state != B::ConnectedState && k->state != B::ClosingState) vq_end();
                    if (!Reading && !seen) { const long n = vq_i64("written"); vq_assume(n > 0 && n <= m->unsent); vqt::written(&*s, n); seen = has = true; v = n; vq_cover("C18.event"); }
                    else vqt::fire(&*s, &QIODevice::bytesWritten, (qint64)1);
                } else if (op == 2) { if (!s || k->state != B::ConnectedState) vq_end(); vqt::becomes<B>(&*s, B::ClosingState); if (!seen) { seen = true; has = false; vq_cover("C18.closing"); } }
                else if (op == 3) {
                    if (!s || k->state != B::ConnectedState && k->state != B::ClosingState) vq_end();
                    vqt::loses<B>(&*s); if (!seen) { seen = true; has = false; vq_cover("C18.lost"); }
                } else if (op == 4) { if (!s || closed) vq_end(); closed = true; s->close(); if (!seen) { seen = true; has = false; vq_cover("C18.closed"); } }
                else if (op == 5) { if (!s) vq_end(); s.reset(); m = nullptr; }
                else if (op == 6) {
                    QTimer *tm = vqt::running(); if (!tm) vq_end();
                    vq_ensure(!done && t >= 0 && vqt::of(tm)->interval == t, "C18.timeout-as-given"); vqt::expire(tm); seen = done = true; has = false; vq_cover("C18.expired");
                } else if (op == 7) { if (!vqt::pending()) vq_end(); vqt::deliver(); vq_ensure(seen && !done, "C18.resumed-once"); done = true; }
                else break;
            }
            if (!done) { vq_ensure(!seen || vqt::pending(), "C18.resumed-once"); vq_end(); }
            vq_ensure(!vqt::pending(), "C18.resumed-once");
        }
        vq_ensure(vqt::connections() == 0 && vqt::objects() == (s ? 1 : 0), "C18.nothing-left");
    }
    vq_ensure(vq_live_heap() == 0, "C18.nothing-leaks");
}
} // namespace
VQ_CONTRACT(C18, socketReadyRead) { socketReady<Tcp, true>(&ready<QAbstractSocket, true, 0>); }
VQ_CONTRACT(C18, socketBytesWritten) { socketReady<Tcp, false>(&ready<QAbstractSocket, false, 0>); }
VQ_CONTRACT(C18, localSocketReadyRead) { socketReady<Local, true>(&ready<QLocalSocket, true, 0>); }
VQ_CONTRACT(C18, localSocketBytesWritten) { socketReady<Local, false>(&ready<QLocalSocket, false, 0>); }
VQ_CONTRACT(C32, socketReadyRead) { socketReady<Tcp, true>(&ready<QAbstractSocket, true, 1>); }
VQ_CONTRACT(C32, localSocketBytesWritten) { socketReady<Local, false>(&ready<QLocalSocket, false, 1>); }

// ------------------------------------------------------------------ writing to sockets (C17)
namespace {
struct Wrote { int times = 0; long v = 0; };
template<class S> Task<> writesTo(Base<S> *s, vqt::Bytes b, Wrote *g) { const qint64 n = co_await qCoro(s).write(vqt::bytes(b)); ++g->times; g->v = n; }
// requires: a socket in any state, any array, accepted count, and any history of confirmations, state changes, closing and destruction
// ensures:  the array is passed once; not complete before the accepted bytes are written unless the socket closes or is not connected;
//           complete as soon as the socket has nothing left to write; yields the number written
template<class S> void socketWriting() {
    using B = Base<S>;
    {
        std::optional<S> s; s.emplace(); vqt::DevM *m = &vqt::dev(&*s); vqt::SockM *k = &vqt::sock(static_cast<B *>(&*s));
        static const int states[] = {B::UnconnectedState, B::ConnectingState, B::ConnectedState, B::ClosingState};
        k->state = states[vq_choose(4, "state")]; m->mode = vq_choose(2, "writable") ? QIODevice::ReadWrite : QIODevice::ReadOnly; m->buffered = true;
        const long before = vq_i64("unsent"); vq_assume(before >= 0 && before < (1L << 60) && (m->mode & QIODevice::WriteOnly || before == 0));
        m->unsent = before;
        vqt::Bytes b; b.size = vq_i64("size"); vq_assume(b.size >= 0 && b.size < (1L << 60)); if (b.size > 0) b.id = vq_i64("bytes");
        Wrote g;
        {
            bool closed = k->state != B::ConnectedState, gone = false;
            auto task = writesTo<S>(&*s, b, &g);
            const long accepted = m->accepted; const bool complete = accepted <= 0; long left = m->unsent; const long total = left;
            vq_ensure(m->writes == 1 && m->given == b, "C17.the-bytes-are-passed-once");
            for (;;) {
                vq_loop("C17.history");
                vq_ensure(gone || m->writes == 1 && k->connects == 0, "C17.the-bytes-are-passed-once");
                vq_ensure(g.times == (task.isReady() ? 1 : 0), "C17.completes-once");
                if (task.isReady()) {
                    vq_ensure(complete || closed || left <= before && total >= 0, "C17.not-before-all-accepted-bytes-are-written");
                    vq_ensure(accepted <= 0 ? g.v == 0 : g.v >= 0 && g.v <= accepted, "C17.yields-the-number-written");
                    vq_ensure(closed || accepted <= 0 || g.v == accepted, "C17.yields-the-number-written");
                    if (closed) vq_cover("C17.closed"); else if (complete) vq_cover("C17.refused"); else vq_cover("C17.complete");
                } else {
                    vq_ensure(!complete, "C17.completes");
                    if (!vqt::pending()) vq_ensure(gone || !closed && left > 0, "C17.completes");
                }
                const unsigned op = vq_choose(7, "event");
                if (op == 0) {
                    if (!s || closed) vq_end();
                    const long n = vq_i64("written"); vq_assume(n > 0 && n <= m->unsent); vqt::written(&*s, n); left = m->unsent;
                } else if (op == 1) { if (!s || closed) vq_end(); closed = true; s->close(); left = 0; }
                else if (op == 2) { if (!s || k->state != B::ConnectedState) vq_end(); closed = true; vqt::becomes<B>(&*s, B::ClosingState); left = 0; }
                else if (op == 3) { if (!s || k->state != B::ConnectedState) vq_end(); closed = true; vqt::loses<B>(&*s); left = 0; }
                else if (op == 4) { if (!s) vq_end(); s.reset(); m = nullptr; gone = closed = true; }
                else if (op == 5) { if (!vqt::pending()) vq_end(); vqt::deliver(); }
                else break;
            }
            if (!task.isReady()) vq_end();
            vq_ensure(!vqt::running(), "C17.nothing-left");
        }
        vq_ensure(vqt::connections() == 0 && vqt::objects() == (s ? 1 : 0), "C17.nothing-left");
    }
    vq_ensure(vq_live_heap() == 0, "C17.nothing-leaks");
}
} // namespace
VQ_CONTRACT(C17, socketWrite) { socketWriting<Tcp>(); }
VQ_CONTRACT(C17, localSocketWrite) { socketWriting<Local>(); }

// requires: a reply in any state, any timeout, any history of data, error, finish, closing and destruction
// ensures:  suspends iff unfinished and nothing is there; one resumption: data or the end of the reply, error, closing, timeout
namespace {
template<bool Reading> void replyReady(Task<> (*how)(QNetworkReply *, int, Ready *)) {
    {
        std::optional<Reply> r; r.emplace(); vqt::DevM *m = &vqt::dev(&*r); vqt::ReplyM *k = &vqt::reply(&*r);
        static const int modes[] = {QIODevice::NotOpen, QIODevice::ReadOnly, QIODevice::ReadWrite}; m->mode = modes[vq_choose(3, "open mode")];
        k->finished = vq_choose(2, "finished"); k->error = vq_choose(2, "failed already");
        const int t = vq_i32("timeout");
        const bool able = m->mode & (Reading ? QIODevice::ReadOnly : QIODevice::WriteOnly);
        if (Reading && able) { m->avail = vq_i64("available"); vq_assume(m->avail >= 0); }
        if (!Reading && able) { m->unsent = vq_i64("unsent"); vq_assume(m->unsent >= 0); }
        Ready g;
        {
            const bool known = Reading ? m->avail > 0 : m->unsent == 0;
            bool done = !able || k->finished || known, seen = done, closed = false, has = able && (known || k->finished && Reading); long v = 0;
            int late = 0; // what the queued events tell: 1 an error, 2 the end, 3 an error followed by the end
            auto task = how(&*r, t, &g);
            vq_ensure(task.isReady() == done, "C23.suspends-only-while-open");
            if (done) vq_cover("C23.known");
            for (;;) {
                vq_cut("C23.history");
                vq_ensure(task.isReady() == done && g.times == (done ? 1 : 0), "C23.resumed-once");
                if (done) vq_ensure(g.has == has && (!has || g.v == v), "C23.outcome");
                vq_ensure(m == nullptr || m->reads == 0 && m->writes == 0, "C23.only-waits");
                const unsigned op = vq_choose(8, "event");
                if (op == 0) {
                    if (!r || !(m->mode & QIODevice::ReadOnly) || closed || k->finished) vq_end();
                    if (Reading && !seen) { const long n = vq_i64("arrived"); vq_assume(n > m->avail); vqt::arrives(&*r, n); seen = has = true; vq_cover("C23.event"); }
                    else vqt::arrives(&*r, m->avail);
                } else if (op == 1) {
                    if (!r || !(m->mode & QIODevice::WriteOnly) || closed || k->finished) vq_end();
                    if (!Reading && !seen) { const long n = vq_i64("written"); vq_assume(n > 0 && n <= m->unsent); vqt::written(&*r, n); seen = has = true; v = n; vq_cover("C23.event"); }
                    else vqt::fire(&*r, &QIODevice::bytesWritten, (qint64)1);
                } else if (op == 2) { if (!r || k->finished || k->error) vq_end(); vqt::errs(&*r); if (!seen && !late) late = 1; }
                else if (op == 3) { if (!r || k->finished) vq_end(); vqt::finishes(&*r); if (!seen) late |= 2; }
                else if (op == 4) { if (!r || closed) vq_end(); closed = true; r->close(); if (!seen && able) { seen = true; has = false; vq_cover("C23.closed"); } }
                else if (op == 5) { if (!r) vq_end(); r.reset(); m = nullptr; }
                else if (op == 6) {
                    QTimer *tm = vqt::running(); if (!tm) vq_end();
                    vq_ensure(!done && t >= 0 && vqt::of(tm)->interval == t, "C23.timeout-as-given"); vqt::expire(tm); seen = done = true; has = false; vq_cover("C23.expired");
                } else if (op == 7) {
                    if (!vqt::pending()) { if (done) break; vq_ensure(!seen && !late, "C23.resumed-when-known"); vq_end(); }
                    vqt::deliver();
                    if (!done) {
                        if (task.isReady()) { vq_ensure(seen, "C23.resumed-once"); done = true; }
                        else if (late) { if (!seen) { seen = true; has = Reading && !(late & 1); v = 0; if (late & 1) vq_cover("C23.failed"); else vq_cover("C23.finished"); } late = 0; }
                    }
                }
            }
        }
        vq_ensure(vqt::connections() == 0 && vqt::objects() == (r ? 1 : 0), "C23.nothing-left");
    }
    vq_ensure(vq_live_heap() == 0, "C23.nothing-leaks");
}
enum Way { Pointer, FinishedDefault, FinishedTimed, FinishedLater };
struct End { int times = 0; QNetworkReply *r = nullptr; bool v = false; };
template<Way w> Task<> end(QNetworkReply *r, int t, End *g) {
    if constexpr (w == Pointer) g->r = co_await r;
    else if constexpr (w == FinishedDefault) g->v = co_await qCoro(*r).waitForFinished();
    else if constexpr (w == FinishedTimed) g->v = co_await qCoro(r).waitForFinished(milliseconds(t));
    else { auto *q = new WrapperOf<QNetworkReply>(r); auto op = q->waitForFinished(milliseconds(t)); delete q; g->v = co_await op; }
    ++g->times;
}
// requires: no reply, or a reply that is finished or not; any timeout; any history
// ensures:  suspends iff unfinished; one resumption once it finished, yielding the reply (or whether it finished)
template<Way w> void replyEnd() {
    {
        std::optional<Reply> r; const bool none = w == Pointer && vq_choose(2, "no reply");
        if (!none) { r.emplace(); vqt::reply(&*r).finished = vq_choose(2, "finished"); vqt::reply(&*r).error = vq_choose(2, "failed already"); }
        QNetworkReply *const p = none ? nullptr : &*r;
        const int t = w == Pointer || w == FinishedDefault ? -1 : vq_i32("timeout");
        End g;
        {
            bool done = none || vqt::reply(p).finished, seen = done, has = done, destroyed = none, there = !none; // there: the reply existed when the coroutine went on
            auto task = end<w>(p, t, &g);
            vq_ensure(task.isReady() == done, "C23.suspends-only-while-unfinished");
            if (done) vq_cover("C23.known");
            for (;;) {
                vq_cut("C23.end");
                vq_ensure(task.isReady() == done && g.times == (done ? 1 : 0), "C23.resumed-once");
                if (done) { if (w == Pointer) vq_ensure(g.r == (there ? p : nullptr), "C23.yields-the-reply"); else vq_ensure(g.v == has, "C23.tells-whether-finished"); }
                const unsigned op = vq_choose(6, "event");
                if (op == 0) { if (destroyed || vqt::reply(p).finished) vq_end(); vqt::finishes(p); if (!seen) { seen = has = true; vq_cover("C23.finished"); } }
                else if (op == 1) { if (destroyed || vqt::reply(p).finished) vq_end(); vqt::errs(p); }
                else if (op == 2) { if (destroyed || vqt::reply(p).finished) vq_end(); vqt::arrives(p, 1); }
                else if (op == 3) { if (destroyed) vq_end(); r.reset(); destroyed = true; }
                else if (op == 4) {
                    QTimer *tm = vqt::running(); if (!tm) vq_end();
                    vq_ensure(!done && t >= 0 && vqt::of(tm)->interval == t, "C23.timeout-as-given"); vqt::expire(tm); seen = done = true; has = false; vq_cover("C23.expired");
                } else {
                    if (!vqt::pending()) { if (done) break; vq_ensure(!seen, "C23.resumed-when-known"); vq_end(); }
                    vqt::deliver(); vq_ensure(seen && !done, "C23.resumed-once"); done = true; there = !destroyed;
                }
            }
        }
        vq_ensure(vqt::connections() == 0 && vqt::objects() == (r ? 1 : 0), "C23.nothing-left");
    }
    vq_ensure(vq_live_heap() == 0, "C23.nothing-leaks");
}
} // namespace
VQ_CONTRACT(C23, readyRead) { replyReady<true>(&ready<QNetworkReply, true, 0>); }
VQ_CONTRACT(C23, bytesWritten) { replyReady<false>(&ready<QNetworkReply, false, 0>); }
VQ_CONTRACT(C23, reply) { replyEnd<Pointer>(); }
VQ_CONTRACT(C23, waitForFinished) { replyEnd<FinishedTimed>(); }
VQ_CONTRACT(C23, waitForFinishedDefault) { replyEnd<FinishedDefault>(); }
VQ_CONTRACT(C32, replyReadyRead) { replyReady<true>(&ready<QNetworkReply, true, 1>); }
VQ_CONTRACT(C32, replyBytesWritten) { replyReady<false>(&ready<QNetworkReply, false, 1>); }
VQ_CONTRACT(C32, replyFinished) { replyEnd<FinishedLater>(); }

// ------------------------------------------------------------------ C24
namespace {
struct Taken { int times = 0; QTcpSocket *s = nullptr; };
template<Form f> Task<> taking(QTcpServer *s, int t, Taken *g) {
    QTcpSocket *r;
    if constexpr (f == Int) r = co_await qCoro(s).waitForNewConnection(t);
    else if constexpr (f == Chrono) r = co_await qCoro(*s).waitForNewConnection(milliseconds(t));
    else { auto *q = new QCoro::detail::QCoroTcpServer(s); auto op = q->waitForNewConnection(milliseconds(t)); delete q; r = co_await op; }
    ++g->times; g->s = r;
}
// requires: a server that listens or not, with any number of waiting connections; any timeout; any history of
//           connections, of others taking them, of closing and destruction
// ensures:  suspends iff listening without waiting connections; one resumption, with the connection it took off the server,
//           or null when there is none, the server is gone, or the timeout passed; takes no other connection
template<Form f> void newConnection() {
    {
        std::optional<QTcpServer> s; s.emplace(); vqt::ServerM *m = &vqt::server(&*s);
        m->listening = vq_choose(2, "listening"); if (m->listening) m->waiting = vq_choose(3, "waiting");
        const int t = vq_i32("timeout");
        Taken g;
        {
            bool done = !m->listening || m->waiting > 0, seen = done, expired = false;
            QTcpSocket *mine = nullptr;
            const bool atOnce = m->waiting > 0;
            auto task = taking<f>(&*s, t, &g);
            vq_ensure(m->taken == (atOnce ? 1 : 0), "C24.takes-one-connection"); mine = m->last; m->taken = 0;
            vq_ensure(task.isReady() == done, "C24.suspends-only-while-none-waits");
            if (done) { if (atOnce) vq_cover("C24.waiting"); else vq_cover("C24.not-listening"); }
            for (;;) {
                vq_cut("C24.history");
                vq_ensure(task.isReady() == done && g.times == (done ? 1 : 0), "C24.resumed-once");
                if (done) vq_ensure(g.s == mine, "C24.yields-the-connection-it-took");
                vq_ensure(!m || m->taken == 0, "C24.takes-one-connection");
                const unsigned op = vq_choose(6, "event");
                if (op == 0) {
                    if (!s || !m->listening || vqt::pending() >= MaxPending) vq_end();
                    vqt::incoming(&*s); if (!seen) { seen = true; vq_cover("C24.arrived"); }
                } else if (op == 1) { if (!s || !m->waiting) vq_end(); s->nextPendingConnection(); m->taken = 0; } // somebody else takes it
                else if (op == 2) { if (!s || !m->listening) vq_end(); s->close(); }
                else if (op == 3) { if (!s) vq_end(); s.reset(); m = nullptr; }
                else if (op == 4) {
                    QTimer *tm = vqt::running(); if (!tm) vq_end();
                    vq_ensure(!done && t >= 0 && vqt::of(tm)->interval == t, "C24.timeout-as-given"); vqt::expire(tm); seen = done = expired = true; vq_cover("C24.expired");
                } else {
                    if (!vqt::pending()) { if (done) break; vq_ensure(!seen, "C24.resumed-when-one-arrives"); vq_end(); }
                    const bool some = s && m->waiting > 0;
                    vqt::deliver(); vq_ensure(seen && !done, "C24.resumed-once"); done = true;
                    if (s) { vq_ensure(m->taken == (some ? 1 : 0), "C24.takes-one-connection"); m->taken = 0; }
                    mine = some ? m->last : nullptr;
                }
            }
        }
        vq_ensure(vqt::connections() == 0 && vqt::objects() == (s ? 1 : 0), "C24.nothing-left");
    }
    vq_ensure(vq_live_heap() == 0, "C24.nothing-leaks");
}
} // namespace
VQ_CONTRACT(C24, waitForNewConnection) { newConnection<Int>(); }
VQ_CONTRACT(C24, waitForNewConnectionChrono) { newConnection<Chrono>(); }
VQ_CONTRACT(C32, newConnection) { newConnection<Later>(); }
namespace {
// the operation has ended at once, with that result
template<class R> Task<> keeps(Task<R> op, R *r, int *n) { *r = co_await op; ++*n; }
template<class R> bool endsWith(Task<R> op, R expected) { R r{}; int n = 0; auto t = keeps(std::move(op), &r, &n); return t.isReady() && n == 1 && r == expected; }
// requires: the socket, reply or server is gone before the operation is called
// ensures:  false, or null, at once; nothing is touched
template<class S> void goneSocket() {
    {
        std::optional<S> s; s.emplace(); Wrapper<S> w(&*s); s.reset();
        const int t = vq_i32("timeout"); const unsigned op = vq_choose(6, "operation"); const auto mode = QIODevice::ReadWrite;
        auto task = op == 0 ? w.waitForConnected(t) : op == 1 ? w.waitForConnected(milliseconds(t)) : op == 2 ? w.waitForDisconnected(t) : op == 3 ? w.waitForDisconnected(milliseconds(t))
            : [&] { if constexpr (tcp<S>) return op == 4 ? w.connectToHost(vqt::text(1), 2, mode, QAbstractSocket::AnyIPProtocol, milliseconds(t)) : w.connectToHost(vqt::address(1), 2, mode, milliseconds(t));
                    else return op == 4 ? w.connectToServer(mode, milliseconds(t)) : w.connectToServer(vqt::text(1), mode, milliseconds(t)); }();
        vq_ensure(endsWith(std::move(task), false), "P.gone");
        vq_ensure(vqt::connections() == 0 && !vqt::running() && vqt::objects() == 0, "P.nothing-left"); vq_cover("P.gone");
    }
    vq_ensure(vq_live_heap() == 0, "P.nothing-leaks");
}
void goneReply() {
    {
        std::optional<Reply> r; r.emplace(); auto w = qCoro(*r); r.reset();
        vq_ensure(endsWith(vq_choose(2, "timeout given") ? w.waitForFinished(milliseconds(vq_i32("timeout"))) : w.waitForFinished(), false), "C23.gone");
        vq_ensure(vqt::connections() == 0 && !vqt::running() && vqt::objects() == 0, "C23.nothing-left"); vq_cover("C23.gone");
    }
    vq_ensure(vq_live_heap() == 0, "C23.nothing-leaks");
}
void goneServer() {
    {
        std::optional<QTcpServer> s; s.emplace(); auto w = qCoro(*s); s.reset();
        const int t = vq_i32("timeout");
        vq_ensure(endsWith<QTcpSocket *>(vq_choose(2, "in milliseconds") ? w.waitForNewConnection(milliseconds(t)) : w.waitForNewConnection(t), nullptr), "C24.gone");
        vq_ensure(vqt::connections() == 0 && !vqt::running() && vqt::objects() == 0, "C24.nothing-left"); vq_cover("C24.gone");
    }
    vq_ensure(vq_live_heap() == 0, "C24.nothing-leaks");
}
} // namespace
VQ_CONTRACT(C21, gone) { goneSocket<Tcp>(); }
VQ_CONTRACT(C22, gone) { goneSocket<Local>(); }
VQ_CONTRACT(C23, gone) { goneReply(); }
VQ_CONTRACT(C24, gone) { goneServer(); }
