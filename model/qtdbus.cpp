// Environment contracts for QDBusPendingCall, its watcher, typed replies and messages (see qtdbus.h)
#include "qtdbus.h"
using namespace vqt;
namespace vqt {
bool (*arrivesMeanwhile)(QDBusPendingCallPrivate *) = nullptr;
QDBusMessage message(long id) { QDBusMessage m; m.d_ptr = reinterpret_cast<QDBusMessagePrivate *>(id); return m; }
long messageOf(const QDBusMessage &m) { return reinterpret_cast<long>(m.d_ptr); }
QDBusPendingCallPrivate *callOf(const QDBusPendingCall &c) { return c.d.data(); }
QDBusPendingCall call(bool finished, long message) { auto *d = noted(new QDBusPendingCallPrivate); d->finished = finished; d->message = message; return QDBusPendingCall(d); }
static void emitted(QDBusPendingCallPrivate *d) { if (d->helper) fire(d->helper, &QTimer::timeout, QTimer::QPrivateSignal{}); } // (a signal that has no other meaning here)
void answer(const QDBusPendingCall &c, long message) { auto *d = callOf(c); d->finished = true; d->message = message; emitted(d); }
}
// a message is only passed on; the even ones are replies, the odd ones errors
static bool isReply(long id) { return id > 0 && !(id & 1); }
QDBusMessage::MessageType QDBusMessage::type() const { const long id = messageOf(*this); return id <= 0 ? InvalidMessage : isReply(id) ? ReplyMessage : ErrorMessage; }
QDBusMessage::QDBusMessage() { d_ptr = nullptr; }
QDBusMessage::QDBusMessage(const QDBusMessage &o) { d_ptr = o.d_ptr; }
QDBusMessage::~QDBusMessage() {}
QDBusMessage &QDBusMessage::operator=(const QDBusMessage &o) { d_ptr = o.d_ptr; return *this; }
// ---- calls
QDBusPendingCall::QDBusPendingCall(QDBusPendingCallPrivate *dd) : d(dd) {}
QDBusPendingCall::QDBusPendingCall(const QDBusPendingCall &o) : d(o.d) {}
QDBusPendingCall::QDBusPendingCall() : d(nullptr) {}
QDBusPendingCall::~QDBusPendingCall() {}
QDBusPendingCall &QDBusPendingCall::operator=(const QDBusPendingCall &o) { d = o.d; return *this; }
bool QDBusPendingCall::isFinished() const {
    const bool r = !d || d->finished;
    if (!r && arrivesMeanwhile && arrivesMeanwhile(d.data())) { d->finished = true; emitted(d.data()); }
    return r;
}
bool QDBusPendingCall::isValid() const { return d && d->finished && isReply(d->message); }
bool QDBusPendingCall::isError() const { return !d || (d->finished && !isReply(d->message)); }
QDBusMessage QDBusPendingCall::reply() const { return message(!d ? -1 : d->finished ? d->message : 0); }
void QDBusPendingCall::waitForFinished() { vq_ensure(false, "no-blocking-wait"); }
QDBusPendingCall QDBusPendingCall::fromCompletedCall(const QDBusMessage &m) { return call(true, messageOf(m)); }
// ---- watchers: told through the event loop; the first watcher of an answered call is told, too
VQ_META(QDBusPendingCallWatcher, QObject)
QDBusPendingCallWatcher::QDBusPendingCallWatcher(const QDBusPendingCall &c, QObject *p) : QObject(p), QDBusPendingCall(c) {
    if (!d) return;
    const bool first = !d->helper;
    if (first) { vq_silent_alloc(1); d->helper = noted(new QTimer); vq_silent_alloc(-1); }
    vq_silent_alloc(1);
    QObject::connect(d->helper, &QTimer::timeout, this, [this] { fire(this, &QDBusPendingCallWatcher::finished, this); }, Qt::QueuedConnection);
    vq_silent_alloc(-1);
    if (first && d->finished) emitted(d.data());
}
QDBusPendingCallWatcher::~QDBusPendingCallWatcher() {}
void QDBusPendingCallWatcher::waitForFinished() { vq_ensure(false, "no-blocking-wait"); }
void QDBusPendingCallWatcher::finished(QDBusPendingCallWatcher *w) { fire(this, &QDBusPendingCallWatcher::finished, w); }
// ---- typed replies
QDBusPendingReplyBase::QDBusPendingReplyBase() : QDBusPendingCall(nullptr) {}
QDBusPendingReplyBase::~QDBusPendingReplyBase() {}
void QDBusPendingReplyBase::assign(const QDBusPendingCall &c) { QDBusPendingCall::operator=(c); }
void QDBusPendingReplyBase::assign(const QDBusMessage &m) { d = call(true, messageOf(m)).d; }
void QDBusPendingReplyBase::setMetaTypes(int n, const QMetaType *t) { d->types = n; if (n > 0) d->first = t[0]; if (n > 1) d->second = t[1]; }
