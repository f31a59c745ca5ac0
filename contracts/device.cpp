// Contracts of the awaitable I/O device operations (C16 - C18, C32)
#include "common.h"
#include "qtdevice.h"
#include "qcoroiodevice.h"
#include <chrono>
using namespace vq;
using QCoro::Task;
using std::chrono::milliseconds;
using vqt::Bytes;

namespace {
struct Dev : QIODevice { // any device
    qint64 readData(char *, qint64) override { return 0; }
    qint64 writeData(const char *, qint64) override { return 0; }
    explicit Dev() { vqt::DevM &m = vqt::dev(this); static const int modes[] = {NotOpen, ReadOnly, WriteOnly, ReadWrite}; m.mode = modes[vq_choose(4, "open mode")]; }
};
struct Read { int times = 0; Bytes b; };
enum Way { Direct, All, AllT, Some, SomeT, Line, LineT };
// started: the wrapper is gone (and its memory freed) before the operation is awaited
template<Way w> auto start(QIODevice *d, long max, milliseconds t) {
    auto *q = new QCoro::detail::QCoroIODevice(d);
    auto r = [&] {
        if constexpr (w == All) return q->readAll(); else if constexpr (w == AllT) return q->readAll(t);
        else if constexpr (w == Some) return q->read(max); else if constexpr (w == SomeT) return q->read(max, t);
        else if constexpr (w == Line) return q->readLine(max); else return q->readLine(max, t);
    }();
    delete q;
    return r;
}
template<Way w> Task<> reads(QIODevice *d, long max, milliseconds t, Read *r) {
    QByteArray a;
    if constexpr (w == Direct) { if (max & 1) a = co_await *d; else a = co_await d; }
    else if constexpr (w == All) a = co_await qCoro(d).readAll();
    else if constexpr (w == AllT) a = co_await qCoro(d).readAll(t);
    else if constexpr (w == Some) a = co_await qCoro(*d).read(max);
    else if constexpr (w == SomeT) a = co_await qCoro(d).read(max, t);
    else if constexpr (w == Line) a = co_await qCoro(d).readLine(max);
    else a = co_await qCoro(*d).readLine(max, t);
    ++r->times; r->b = vqt::bytesOf(a);
}
template<Way w> Task<> readsLater(QIODevice *d, long max, milliseconds t, Read *r) {
    auto op = start<w>(d, max, t);
    QByteArray a = co_await op;
    ++r->times; r->b = vqt::bytesOf(a);
}
// requires: any device state, any size and timeout, any history of arrivals, closing, expiry and destruction
// ensures:  suspends iff readable and empty; one resumption; one read of that kind and size, its bytes returned
template<Way w> void reading(Task<> (*how)(QIODevice *, long, milliseconds, Read *)) {
    {
        std::optional<Dev> d; d.emplace(); vqt::DevM *m = &vqt::dev(&*d);
        m->avail = vq_i64("available"); vq_assume(m->avail >= 0 && (m->mode & QIODevice::ReadOnly || m->avail == 0));
        const long max = w == Direct ? (long)vq_choose(2, "through the pointer") : vq_i64("size"); const bool timed = w == AllT || w == SomeT || w == LineT;
        const int t = timed ? vq_i32("timeout") : -1; const bool limited = timed && t >= 0;
        const int kind = w == Direct || w == All || w == AllT ? vqt::ReadAll : w == Some || w == SomeT ? vqt::ReadSome : vqt::ReadALine;
        const bool readable = m->mode & QIODevice::ReadOnly, data = m->avail > 0;
        Read r;
        {
            auto task = how(&*d, max, milliseconds(t), &r);
            enum { None, Data, Closing, Expired } why = None;  // the event that ends the wait
            bool done = !readable || data, seen = done, closed = false; // resumed; event noticed
            bool reading = done && (data || w == Direct), gone = false;  // the device is to be read
            vq_ensure(task.isReady() == done, "C16.suspends-only-while-empty");
            for (;;) {
                vq_cut("C16.history");
                vq_ensure(task.isReady() == done && r.times == (done ? 1 : 0), "C16.resumed-once");
                if (done && !gone) {
                    vq_ensure(m->reads == 1 || m->reads == 0 && !reading, "C16.reads-once");
                    vq_ensure(!reading || m->readKind == kind && (kind == vqt::ReadAll || m->readMax == max), "C16.reads-what-was-asked");
                    vq_ensure(r.b == m->got, "C16.result-is-what-the-device-returned");
                    if (reading) vq_cover("C16.read"); else vq_cover("C16.nothing");
                }
                const unsigned op = vq_choose(6, "event");
                if (op == 0) {
                    if (!d || !(m->mode & QIODevice::ReadOnly) || closed) vq_end();
                    const long n = vq_i64("arrived"); vq_assume(n > m->avail); vqt::arrives(&*d, n);
                    if (!seen) { seen = true; why = Data; vq_cover("C16.data"); }
                } else if (op == 1) { if (!d || closed) vq_end(); closed = true; vqt::closes(&*d); if (!seen) { seen = true; why = Closing; vq_cover("C16.closing"); } }
                else if (op == 2) {
                    if (!d) vq_end(); d.reset(); m = nullptr; gone = true;
                    if (seen && !done) vq_cover("C16.destroyed-before-resumed");
                } else if (op == 3) {
                    QTimer *tm = vqt::running(); if (!tm || !limited) vq_end();
                    vq_ensure(!done && vqt::of(tm)->interval == t, "C16.timeout-as-given"); vqt::expire(tm);
                    seen = done = true; why = Expired; vq_ensure(r.b.size == 0, "C16.nothing-to-return"); vq_cover("C16.expired");
                } else if (op == 4) {
                    if (!vqt::pending()) vq_end();
                    vqt::deliver();
                    if (seen && !done && !(w == Direct && gone && false)) {
                        done = true; reading = !gone && (why == Data || w == Direct);
                        if (gone) vq_ensure(r.b.size == 0, "C16.nothing-to-return");
                    }
                } else break;
            }
            if (!done) vq_end(); // still waiting: nothing to check any more
            vq_ensure(!vqt::pending(), "C16.resumed-once");
        }
        vq_ensure(vqt::connections() == 0 && vqt::objects() == (d ? 1 : 0), "C16.nothing-left");
    }
    vq_ensure(vq_live_heap() == 0, "C16.nothing-leaks");
}
} // namespace
VQ_CONTRACT(C16, direct) { reading<Direct>(&reads<Direct>); }
VQ_CONTRACT(C16, readAll) { reading<All>(&reads<All>); }
VQ_CONTRACT(C16, readAllTimed) { reading<AllT>(&reads<AllT>); }
VQ_CONTRACT(C16, read) { reading<Some>(&reads<Some>); }
VQ_CONTRACT(C16, readTimed) { reading<SomeT>(&reads<SomeT>); }
VQ_CONTRACT(C16, readLine) { reading<Line>(&reads<Line>); }
VQ_CONTRACT(C16, readLineTimed) { reading<LineT>(&reads<LineT>); }
VQ_CONTRACT(C32, readAll) { reading<AllT>(&readsLater<AllT>); }
VQ_CONTRACT(C32, read) { reading<SomeT>(&readsLater<SomeT>); }
VQ_CONTRACT(C32, readLine) { reading<LineT>(&readsLater<LineT>); }

// ------------------------------------------------------------------ C18
namespace {
struct Got { int times = 0; bool has = false; long v = 0; };
template<int form> Task<> untilReadable(QIODevice *d, int t, Got *g) {
    bool b;
    if constexpr (form == 0) b = co_await qCoro(d).waitForReadyRead(t);
    else if constexpr (form == 1) b = co_await qCoro(*d).waitForReadyRead(milliseconds(t));
    else { auto *q = new QCoro::detail::QCoroIODevice(d); auto op = q->waitForReadyRead(milliseconds(t)); delete q; b = co_await op; }
    ++g->times; g->has = b; g->v = 0;
}
template<int form> Task<> untilWritten(QIODevice *d, int t, Got *g) {
    std::optional<qint64> b;
    if constexpr (form == 0) b = co_await qCoro(d).waitForBytesWritten(t);
    else if constexpr (form == 1) b = co_await qCoro(*d).waitForBytesWritten(milliseconds(t));
    else { auto *q = new QCoro::detail::QCoroIODevice(d); auto op = q->waitForBytesWritten(milliseconds(t)); delete q; b = co_await op; }
    ++g->times; g->has = b.has_value(); g->v = b.value_or(0);
}
// requires: any device state, timeout and history
// ensures:  suspends iff the outcome is open; one resumption with the outcome of the first event; no event, no expiry
template<bool Reading> void readiness(Task<> (*how)(QIODevice *, int, Got *)) {
    {
        std::optional<Dev> d; d.emplace(); vqt::DevM *m = &vqt::dev(&*d);
        const int t = vq_i32("timeout");
        const bool able = m->mode & (Reading ? QIODevice::ReadOnly : QIODevice::WriteOnly);
        if (Reading && able) { m->avail = vq_i64("available"); vq_assume(m->avail >= 0); }
        if (!Reading && able) { m->unsent = vq_i64("unsent"); vq_assume(m->unsent >= 0); }
        Got g;
        {
            bool done = !able || (Reading ? m->avail > 0 : m->unsent == 0), seen = done, closed = false, has = able && done; long v = 0;
            auto task = how(&*d, t, &g);
            vq_ensure(task.isReady() == done, "C18.suspends-only-while-open");
            if (done) vq_cover("C18.known");
            for (;;) {
                vq_cut("C18.history");
                vq_ensure(task.isReady() == done && g.times == (done ? 1 : 0), "C18.resumed-once");
                if (done) vq_ensure(g.has == has && (!has || g.v == v), "C18.outcome");
                vq_ensure(m == nullptr || m->reads == 0 && m->writes == 0, "C18.only-waits");
                const unsigned op = vq_choose(7, "event");
                if (op == 0) {
                    if (!d || !(m->mode & QIODevice::ReadOnly) || closed) vq_end();
                    if (Reading && !seen) { const long n = vq_i64("arrived"); vq_assume(n > m->avail); vqt::arrives(&*d, n); seen = has = true; vq_cover("C18.event"); }
                    else vqt::arrives(&*d, m->avail);
                } else if (op == 1) {
                    if (!d || !(m->mode & QIODevice::WriteOnly) || closed) vq_end();
                    if (!Reading && !seen) { const long n = vq_i64("written"); vq_assume(n > 0 && n <= m->unsent); vqt::written(&*d, n); seen = has = true; v = n; vq_cover("C18.event"); }
                    else vqt::fire(&*d, &QIODevice::bytesWritten, (qint64)1);
                } else if (op == 2) { if (!d || closed) vq_end(); closed = true; vqt::closes(&*d); if (!seen) { seen = true; has = false; vq_cover("C18.closing"); } }
                else if (op == 3) { if (!d) vq_end(); d.reset(); m = nullptr; }
                else if (op == 4) {
                    QTimer *tm = vqt::running(); if (!tm) vq_end();
                    vq_ensure(!done && t >= 0 && vqt::of(tm)->interval == t, "C18.timeout-as-given"); vqt::expire(tm); seen = done = true; has = false; vq_cover("C18.expired");
                } else if (op == 5) { if (!vqt::pending()) vq_end(); vqt::deliver(); vq_ensure(seen && !done, "C18.resumed-once"); done = true; }
                else break;
            }
            if (!done) { vq_ensure(!seen || vqt::pending(), "C18.resumed-once"); vq_end(); }
            vq_ensure(!vqt::pending(), "C18.resumed-once");
        }
        vq_ensure(vqt::connections() == 0 && vqt::objects() == (d ? 1 : 0), "C18.nothing-left");
    }
    vq_ensure(vq_live_heap() == 0, "C18.nothing-leaks");
}
} // namespace
VQ_CONTRACT(C18, readyRead) { readiness<true>(&untilReadable<0>); }
VQ_CONTRACT(C18, readyReadChrono) { readiness<true>(&untilReadable<1>); }
VQ_CONTRACT(C18, bytesWritten) { readiness<false>(&untilWritten<0>); }
VQ_CONTRACT(C18, bytesWrittenChrono) { readiness<false>(&untilWritten<1>); }
VQ_CONTRACT(C32, readyRead) { readiness<true>(&untilReadable<2>); }
VQ_CONTRACT(C32, bytesWritten) { readiness<false>(&untilWritten<2>); }

// ------------------------------------------------------------------ C17
namespace {
template<int form> Task<> writes(QIODevice *d, Bytes b, Got *g) {
    qint64 n;
    if constexpr (form == 0) n = co_await qCoro(d).write(vqt::bytes(b));
    else if constexpr (form == 1) { const QByteArray a = vqt::bytes(b); n = co_await qCoro(*d).write(a); }
    else { // the wrapper and the array are gone before the operation is awaited
        auto *q = new QCoro::detail::QCoroIODevice(d); std::optional<QByteArray> a(vqt::bytes(b));
        auto op = q->write(*a); delete q; a.reset();
        n = co_await op;
    }
    ++g->times; g->v = n;
}
// requires: any device, array, accepted count, and any history of confirmations, closing and destruction
// ensures:  the array is passed once; not complete before the accepted bytes are written unless the device closed;
//           complete as soon as the device has nothing left to write; yields the number written
void writing(Task<> (*how)(QIODevice *, Bytes, Got *)) {
    {
        std::optional<Dev> d; d.emplace(); vqt::DevM *m = &vqt::dev(&*d);
        m->buffered = vq_bool("buffered");
        const long before = vq_i64("unsent"); vq_assume(before >= 0 && before < (1L << 60) && (m->buffered && (m->mode & QIODevice::WriteOnly) || before == 0));
        m->unsent = before;
        Bytes b; b.size = vq_i64("size"); vq_assume(b.size >= 0 && b.size < (1L << 60)); if (b.size > 0) b.id = vq_i64("bytes");
        Got g;
        {
            auto task = how(&*d, b, &g);
            const long accepted = m->accepted; bool closed = false, gone = false, complete = !m->buffered || accepted <= 0; long left = m->unsent; const long total = left;
            vq_ensure(m->writes == 1 && m->given == b, "C17.the-bytes-are-passed-once");
            for (;;) {
                vq_loop("C17.history");
                vq_ensure(gone || m->writes == 1, "C17.the-bytes-are-passed-once");
                vq_ensure(g.times == (task.isReady() ? 1 : 0), "C17.completes-once");
                if (task.isReady()) {
                    vq_ensure(complete || closed || left <= before && total >= 0, "C17.not-before-all-accepted-bytes-are-written");
                    vq_ensure(accepted <= 0 ? g.v == 0 : g.v >= 0 && g.v <= accepted, "C17.yields-the-number-written");
                    vq_ensure(closed || accepted <= 0 || g.v == accepted, "C17.yields-the-number-written");
                    if (!m || !m->buffered) vq_cover("C17.unbuffered"); else if (closed) vq_cover("C17.closed"); else if (accepted <= 0) vq_cover("C17.refused"); else vq_cover("C17.complete");
                } else {
                    vq_ensure(!complete, "C17.completes");
                    if (!vqt::pending()) vq_ensure(gone || !closed && left > 0, "C17.completes");
                }
                const unsigned op = vq_choose(5, "event");
                if (op == 0) {
                    if (!d || closed) vq_end();
                    const long n = vq_i64("written"); vq_assume(n > 0 && n <= m->unsent); vqt::written(&*d, n); left = m->unsent;
                } else if (op == 1) { if (!d || closed) vq_end(); closed = true; vqt::closes(&*d); left = 0; }
                else if (op == 2) { if (!d) vq_end(); d.reset(); m = nullptr; gone = closed = true; }
                else if (op == 3) { if (!vqt::pending()) vq_end(); vqt::deliver(); }
                else break;
            }
            if (!task.isReady()) vq_end();
            vq_ensure(!vqt::running(), "C17.nothing-left");
        }
        vq_ensure(vqt::connections() == 0 && vqt::objects() == (d ? 1 : 0), "C17.nothing-left");
    }
    vq_ensure(vq_live_heap() == 0, "C17.nothing-leaks");
}
} // namespace
VQ_CONTRACT(C17, write) { writing(&writes<0>); }
VQ_CONTRACT(C17, writeNamed) { writing(&writes<1>); }
VQ_CONTRACT(C32, write) { writing(&writes<2>); }
namespace {
// the operation has ended at once, with that result
template<class R> Task<> keeps(Task<R> op, R *r, int *n) { *r = co_await op; ++*n; }
template<class R> bool endsWith(Task<R> op, R expected) { R r{}; int n = 0; auto t = keeps(std::move(op), &r, &n); return t.isReady() && n == 1 && r == expected; }
// requires: the device is gone before the operation is called
// ensures:  nothing was read, written or is ready; at once; nothing is touched
bool nothing(Task<QByteArray> op) { struct L { static Task<> go(Task<QByteArray> t, bool *e, int *n) { const QByteArray b = co_await t; *e = vqt::bytesOf(b).size == 0; ++*n; } }; bool e = false; int n = 0; auto t = L::go(std::move(op), &e, &n); return t.isReady() && n == 1 && e; }
template<int group> void gone() {
    {
        std::optional<Dev> d; d.emplace(); auto w = qCoro(*d); d.reset();
        const int t = vq_i32("timeout"); const milliseconds ms(t); const long max = vq_i64("size");
        if (group == 16) {
            const unsigned op = vq_choose(3, "operation");
            vq_ensure(nothing(op == 0 ? w.readAll(ms) : op == 1 ? w.read(max, ms) : w.readLine(max, ms)), "C16.gone");
        } else if (group == 17) vq_ensure(endsWith<qint64>(w.write(vqt::bytes(vqt::Bytes{max, max})), 0), "C17.gone");
        else {
            const unsigned op = vq_choose(4, "operation");
            if (op < 2) vq_ensure(endsWith(op ? w.waitForReadyRead(t) : w.waitForReadyRead(ms), false), "C18.gone");
            else vq_ensure(endsWith<std::optional<qint64>>(op == 2 ? w.waitForBytesWritten(t) : w.waitForBytesWritten(ms), std::nullopt), "C18.gone");
        }
        vq_ensure(vqt::connections() == 0 && !vqt::running() && vqt::objects() == 0, "gone.nothing-left"); vq_cover("gone.gone");
    }
    vq_ensure(vq_live_heap() == 0, "gone.nothing-leaks");
}
} // namespace
VQ_CONTRACT(C16, gone) { gone<16>(); }
VQ_CONTRACT(C17, gone) { gone<17>(); }
VQ_CONTRACT(C18, gone) { gone<18>(); }
