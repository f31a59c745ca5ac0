// Environment contracts for QtCore (see qtmodel.h)
#include "qtmodel.h"
#include <QCoreApplication>
#include <QDebug>
#include <QMetaMethod>
#include <atomic>
using namespace vqt;
extern "C" void vq_fail_assert(const char *) __attribute__((weak));

// ---- assertions of the code under contract
void qt_assert(const char *what, const char *, int) noexcept { if (!vq_symbolic() && vq_fail_assert) vq_fail_assert(what); vq_unreachable("assertion"); __builtin_unreachable(); }
void qt_assert_x(const char *, const char *what, const char *, int) noexcept { if (!vq_symbolic() && vq_fail_assert) vq_fail_assert(what); vq_unreachable("assertion"); __builtin_unreachable(); }

namespace vqt {
static ObjM *objs = nullptr;
static Conn *conns = nullptr;
static Ev *queue = nullptr;
static Ev *shotsList = nullptr;
QThread *current = nullptr;
void (*inLoop)() = nullptr;
int loopsRun = 0;

ObjM::~ObjM() {}
static void unref(Conn *c) { if (--c->ref == 0) delete c; }
static void dropConn(Conn *c) {
    if (!c->connected) return;
    c->connected = false;
    Conn **p = &conns; while (*p && *p != c) p = &(*p)->next;
    if (*p) *p = c->next;
    c->next = nullptr;
    auto *s = c->slot; c->slot = nullptr;
    if (s) s->destroyIfLastRef();
    unref(c);
}
static void push(Ev **list, Ev *e) { while (*list) list = &(*list)->next; *list = e; }
static void discard(Ev *e) {
    if (e->slot) e->slot->destroyIfLastRef();
    vq_silent_alloc(1); delete e->args; vq_silent_alloc(-1);
    delete e->event; delete e;
}
static void run(Ev *e) {
    QThread *prev = current;
    if (e->thread) current = e->thread;
    if (e->deleteObj) { const QObject *o = e->receiver; e->receiver = nullptr; delete o; }
    else if (e->event) { QObject *o = const_cast<QObject *>(e->receiver); o->event(e->event); }
    else { void *none[] = {nullptr}; e->slot->call(const_cast<QObject *>(e->receiver), e->args ? e->args->argv : none); }
    current = prev;
    discard(e);
}
void route(QObject *sender, void *pmf, const QMetaObject *mo, int index, void **argv, Args *(*copy)(void **, const int *)) {
    if (of(sender)->blockSig) return;
    Conn *hit[8]; int n = 0;
    for (Conn *c = conns; c; c = c->next)
        if (c->sender == sender && (mo ? (c->mo == mo && c->index == index) : c->pmf == pmf)) { if (n >= 8) vq_unreachable("model: too many connections"); hit[n++] = c; ++c->ref; }
    for (int i = 0; i < n; ++i) {
        Conn *c = hit[i];
        if (c->connected) {
            auto *slot = c->slot; slot->ref();
            const QObject *r = c->receiver;
            const int type = c->type & 0xff;
            QThread *rt = of(r)->thread;
            if (c->type & Qt::SingleShotConnection) dropConn(c);
            if (type == Qt::DirectConnection || (type == Qt::AutoConnection && rt == current)) {
                slot->call(const_cast<QObject *>(r), argv);
                slot->destroyIfLastRef();
            } else {
                if (type == Qt::BlockingQueuedConnection) vq_unreachable("model: blocking connection");
                Ev *e = noted(new Ev); e->receiver = r; e->thread = rt; e->slot = slot;
                Args *a = copy(argv, c->types); if (a) vq_mark_model(a); e->args = a;
                push(&queue, e);
            }
        }
        unref(c);
    }
}
int pending() { int n = 0; for (Ev *e = queue; e; e = e->next) ++n; return n; }
int pendingFor(const QObject *r) { int n = 0; for (Ev *e = queue; e; e = e->next) n += e->receiver == r; return n; }
bool deliver() { if (!queue) return false; Ev *e = queue; queue = e->next; run(e); return true; }
bool deliver(QThread *t) {
    for (Ev **p = &queue; *p; p = &(*p)->next) if ((*p)->thread == t) { Ev *e = *p; *p = e->next; run(e); return true; }
    return false;
}
bool shotPending() { return shotsList; }
int shotDelay() { return shotsList->delay; }
void shot() { Ev *e = shotsList; shotsList = e->next; run(e); }
int connections() { int n = 0; for (Conn *c = conns; c; c = c->next) ++n; return n; }
int connectionsOf(const QObject *s) { int n = 0; for (Conn *c = conns; c; c = c->next) n += c->sender == s; return n; }
int objects() { int n = 0; for (ObjM *o = objs; o; o = o->next) ++n; return n; }
QTimer *running(const QTimer *except) {
    for (ObjM *o = objs; o; o = o->next) if (o->active && o->interval >= 0 && o->q_ptr != except) return static_cast<QTimer *>(o->q_ptr);
    return nullptr;
}
void expire(QTimer *t) {
    ObjM *m = of(t); if (!m->active || m->interval < 0) return;
    QThread *prev = current; current = m->thread;
    if (m->single) m->active = false;
    fire(t, &QTimer::timeout, QTimer::QPrivateSignal{});
    current = prev;
}
void (*meanwhile)(QThread *) = nullptr;
static void others(const QThread *t) { if (meanwhile) meanwhile(const_cast<QThread *>(t)); }
void threadStep(QThread *t) {
    ObjM *m = of(t); QThread *prev = current; current = t;
    if (m->state == New || m->state == Finished) m->state = Launched;
    else if (m->state == Launched) { m->state = Running; fire(t, &QThread::started, QThread::QPrivateSignal{}); }
    else if (m->state == Running) m->state = Finishing;
    else { fire(t, &QThread::finished, QThread::QPrivateSignal{}); m->state = Finished; }
    current = prev;
}
}

// ---- QObject
QObjectData::~QObjectData() {}
QMetaObject *QObjectData::dynamicMetaObject() const { return nullptr; }
const QMetaObject QObject::staticMetaObject = {{QMetaObject::SuperData(nullptr), nullptr, nullptr, nullptr, nullptr, nullptr, nullptr}};
const QMetaObject *QObject::metaObject() const { return &staticMetaObject; }
void *QObject::qt_metacast(const char *) { return nullptr; }
int QObject::qt_metacall(QMetaObject::Call, int id, void **) { return id; }
QBindingStorage::QBindingStorage() { d = nullptr; bindingStatus = nullptr; }
QBindingStorage::~QBindingStorage() {}
QObject::QObject(QObject *parent) : d_ptr(noted(new ObjM)) {
    ObjM *m = of(this);
    __builtin_memset((char *)&m->children + sizeof m->children, 0, sizeof(uint)); // the flags
    m->q_ptr = this; m->parent = parent; m->metaObject = nullptr; m->thread = current;
    ObjM **p = &objs; while (*p) p = &(*p)->next; *p = m;
}
QObject::~QObject() {
    ObjM *m = of(this);
    vq_ensure(!m->wasDeleted, "qobject-destroyed-once");
    m->wasDeleted = 1;
    if (m->rc) { m->rc->strongref.storeRelaxed(0); auto *rc = m->rc; m->rc = nullptr; if (!rc->weakref.deref()) delete rc; }
    fire(this, &QObject::destroyed, this);
    for (Conn *c = conns; c;) { if (c->sender == this || c->receiver == this) { dropConn(c); c = conns; } else c = c->next; }
    for (Ev **p = &queue; *p;) { Ev *e = *p; if (e->receiver == this) { *p = e->next; discard(e); p = &queue; } else p = &e->next; }
    for (Ev **p = &shotsList; *p;) { Ev *e = *p; if (e->receiver == this) { *p = e->next; discard(e); p = &shotsList; } else p = &e->next; }
    for (ObjM *o = objs; o;) { if (o->parent == this) { delete o->q_ptr; o = objs; } else o = o->next; }
    ObjM **p = &objs; while (*p && *p != m) p = &(*p)->next; if (*p) *p = m->next;
}
void QObject::destroyed(QObject *o) { fire(this, &QObject::destroyed, o); }
void QObject::objectNameChanged(const QString &, QPrivateSignal) {}
bool QObject::event(QEvent *) { return false; }
bool QObject::eventFilter(QObject *, QEvent *) { return false; }
void QObject::timerEvent(QTimerEvent *) {}
void QObject::childEvent(QChildEvent *) {}
void QObject::customEvent(QEvent *) {}
void QObject::connectNotify(const QMetaMethod &) {}
void QObject::disconnectNotify(const QMetaMethod &) {}
void QObject::setParent(QObject *p) { of(this)->parent = p; }
bool QObject::blockSignals(bool b) noexcept { bool o = of(this)->blockSig; of(this)->blockSig = b; return o; }
QThread *QObject::thread() const { return of(this)->thread; }
void QObject::moveToThread(QThread *t) { of(this)->thread = t; for (Ev *e = queue; e; e = e->next) if (e->receiver == this) e->thread = t; }
void QObject::deleteLater() { Ev *e = noted(new Ev); e->receiver = this; e->thread = of(this)->thread; e->deleteObj = true; push(&queue, e); }
QMetaObject::Connection QObject::connectImpl(const QObject *sender, void **signal, const QObject *receiver, void **, QtPrivate::QSlotObjectBase *slot, Qt::ConnectionType type, const int *types, const QMetaObject *mo) {
    if (!sender || !receiver || !signal || !slot) { if (slot) slot->destroyIfLastRef(); return QMetaObject::Connection(); } // Qt: warns and does nothing
    vq_ensure(!of(sender)->wasDeleted && !of(receiver)->wasDeleted, "connect-live-objects");
    const bool other = sender->metaObject() == &QThread::staticMetaObject;
    if (other) others(static_cast<const QThread *>(sender));
    if (type & Qt::UniqueConnection) vq_unreachable("model: unique connection");
    Conn *c = noted(new Conn);
    c->sender = sender; c->receiver = receiver; c->pmf = *signal; c->slot = slot; c->type = type; c->types = types; c->connected = true; c->ref = 2;
    if (mo && mo->d.static_metacall) {
        int idx = -1; void *a[] = {&idx, signal};
        const QMetaObject *m = mo;
        while (m && idx < 0) { if (m->d.static_metacall) m->d.static_metacall(nullptr, QMetaObject::IndexOfMethod, 0, a); if (idx < 0) m = m->d.superdata.direct; }
        c->mo = m; c->index = idx;
    }
    Conn **p = &conns; while (*p) p = &(*p)->next; *p = c;
    if (other) others(static_cast<const QThread *>(sender));
    return QMetaObject::Connection(c);
}
bool QObject::disconnect(const QMetaObject::Connection &h) {
    Conn *c = static_cast<Conn *>(h.d_ptr);
    if (!c) return false;
    const bool was = c->connected;
    const_cast<QMetaObject::Connection &>(h).d_ptr = nullptr; // Qt does the same
    if (was) dropConn(c);
    unref(c);
    return was;
}
bool QObject::disconnectImpl(const QObject *sender, void **signal, const QObject *receiver, void **slot, const QMetaObject *) {
    bool any = false;
    for (Conn *c = conns; c;) {
        if (c->sender == sender && (!signal || c->pmf == *signal) && (!receiver || c->receiver == receiver) && (!slot || c->slot->compare(slot))) { dropConn(c); any = true; c = conns; }
        else c = c->next;
    }
    return any;
}
bool QObject::disconnect(const QObject *sender, const char *signal, const QObject *receiver, const char *member) {
    if (signal || member) vq_unreachable("model: string based disconnect");
    return disconnectImpl(sender, nullptr, receiver, nullptr, nullptr);
}
QMetaObject::Connection::Connection() : d_ptr(nullptr) {}
QMetaObject::Connection::~Connection() { if (d_ptr) unref(static_cast<Conn *>(d_ptr)); }
QMetaObject::Connection::Connection(const Connection &o) : d_ptr(o.d_ptr) { if (d_ptr) ++static_cast<Conn *>(d_ptr)->ref; }
QMetaObject::Connection &QMetaObject::Connection::operator=(const Connection &o) {
    if (o.d_ptr != d_ptr) { if (d_ptr) unref(static_cast<Conn *>(d_ptr)); d_ptr = o.d_ptr; if (d_ptr) ++static_cast<Conn *>(d_ptr)->ref; }
    return *this;
}
bool QMetaObject::Connection::isConnected_helper() const { return static_cast<Conn *>(d_ptr)->connected; }
QtSharedPointer::ExternalRefCountData *QtSharedPointer::ExternalRefCountData::getAndRef(const QObject *o) {
    ObjM *m = of(o);
    vq_ensure(!m->wasDeleted, "qpointer-to-live-object");
    if (!m->rc) { void *p = ::operator new(sizeof(ExternalRefCountData)); vq_mark_model(p); m->rc = new (p) ExternalRefCountData(Qt::Uninitialized); m->rc->strongref.storeRelaxed(-1); m->rc->weakref.storeRelaxed(1); }
    m->rc->weakref.ref();
    return m->rc;
}
const QObject *QMetaObject::cast(const QObject *o) const {
    if (!o) return nullptr;
    for (const QMetaObject *m = o->metaObject(); m; m = m->d.superdata.direct) if (m == this) return o;
    return nullptr;
}
const char *QMetaObject::className() const { return ""; }
namespace {
// types that got an id while running (the others have one already)
constexpr int FirstId = 70100, MaxIds = 16;
const QtPrivate::QMetaTypeInterface *known[MaxIds]; int knownIds = 0;
struct TypedArgs : Args {
    void *ptrs[4]; char data[3][16]; const QtPrivate::QMetaTypeInterface *types[3] = {};
    ~TypedArgs() override { for (int i = 0; i < 3; ++i) if (types[i]) { if (types[i]->dtor) types[i]->dtor(types[i], ptrs[i + 1]); vq_silent_alloc(1); ::operator delete(ptrs[i + 1]); vq_silent_alloc(-1); } }
};
Args *copyTyped(void **argv, const int *types) {
    if (!types) return nullptr;
    vq_silent_alloc(1); auto *a = new TypedArgs; vq_silent_alloc(-1);
    a->argv = a->ptrs; a->ptrs[0] = nullptr;
    for (int i = 0; i < 3 && types[i]; ++i) {
        const int id = types[i];
        if (id >= FirstId && id < FirstId + knownIds) {
            const auto *t = a->types[i] = known[id - FirstId];
            vq_silent_alloc(1); void *p = a->ptrs[i + 1] = noted(static_cast<char *>(::operator new(t->size))); vq_silent_alloc(-1);
            if (t->copyCtr) t->copyCtr(t, p, argv[i + 1]); else __builtin_memcpy(p, argv[i + 1], t->size);
            continue;
        }
        const int n = id == QMetaType::Bool ? 1 : (id == QMetaType::Int || id == QMetaType::UInt) ? 4 : (id == QMetaType::LongLong || id == QMetaType::ULongLong || id == QMetaType::Double) ? 8 : 0;
        if (!n) vq_unreachable("model: argument type of a queued signal");
        __builtin_memcpy(a->data[i], argv[i + 1], n);
        a->ptrs[i + 1] = a->data[i];
    }
    return a;
}
}
void QMetaObject::activate(QObject *sender, const QMetaObject *m, int local, void **argv) {
    void *none[] = {nullptr};
    route(sender, nullptr, m, local, argv ? argv : none, &copyTyped);
}
bool QMetaObject::invokeMethodImpl(QObject *o, QtPrivate::QSlotObjectBase *slot, Qt::ConnectionType type, void *ret) {
    if (!o) { slot->destroyIfLastRef(); return false; }
    if (type == Qt::DirectConnection || (type == Qt::AutoConnection && of(o)->thread == current)) { void *argv[] = {ret}; slot->call(o, argv); slot->destroyIfLastRef(); return true; }
    Ev *e = noted(new Ev); e->receiver = o; e->thread = of(o)->thread; e->slot = slot; push(&queue, e); return true;
}
int QMetaType::idHelper() const {
    if (knownIds >= MaxIds) return 1024;
    known[knownIds] = d_ptr; d_ptr->typeId.storeRelaxed(FirstId + knownIds); return FirstId + knownIds++;
}

// ---- QTimer
VQ_META(QTimer, QObject)
QTimer::QTimer(QObject *p) : QObject(p) {}
QTimer::~QTimer() { of(this)->active = false; }
bool QTimer::isActive() const { return of(this)->active; }
int QTimer::interval() const { return of(this)->interval; }
void QTimer::setInterval(int ms) { of(this)->interval = ms; }
void QTimer::setSingleShot(bool s) { of(this)->single = s; }
bool QTimer::isSingleShot() const { return of(this)->single; }
void QTimer::setTimerType(Qt::TimerType) {}
void QTimer::start() { of(this)->active = true; } // Qt 6.4: with a negative interval the timer counts as active but never times out
void QTimer::start(int ms) { of(this)->interval = ms; start(); }
void QTimer::stop() { of(this)->active = false; }
void QTimer::timerEvent(QTimerEvent *) {}
void QTimer::timeout(QPrivateSignal p) { fire(this, &QTimer::timeout, p); }
void QTimer::singleShotImpl(int msec, Qt::TimerType, const QObject *receiver, QtPrivate::QSlotObjectBase *slot) {
    Ev *e = noted(new Ev); e->receiver = receiver; e->thread = receiver ? of(receiver)->thread : current; e->slot = slot; e->delay = msec;
    push(msec == 0 ? &queue : &shotsList, e);
}

// ---- QEvent, QCoreApplication
QEvent::QEvent(Type t) : t(t) {}
QEvent::~QEvent() {}
QEvent *QEvent::clone() const { vq_unreachable("model: QEvent::clone"); return nullptr; }
int QEvent::registerEventType(int) noexcept { static int next = 65535; return next--; }
void QCoreApplication::postEvent(QObject *r, QEvent *ev, int) {
    if (!r) { delete ev; return; }
    Ev *e = noted(new Ev); e->receiver = r; e->thread = of(r)->thread; e->event = ev; push(&queue, e);
}
bool QCoreApplication::sendEvent(QObject *r, QEvent *ev) { return r->event(ev); }
void QCoreApplication::processEvents(QFlags<QEventLoop::ProcessEventsFlag>) { while (deliver()) {} }

// ---- QEventLoop
VQ_META(QEventLoop, QObject)
QEventLoop::QEventLoop(QObject *p) : QObject(p) {}
QEventLoop::~QEventLoop() {}
bool QEventLoop::event(QEvent *) { return false; }
int QEventLoop::exec(ProcessEventsFlags) {
    ObjM *m = of(this);
    vq_ensure(!m->state, "loop-not-nested-in-itself");
    m->state = 1; m->quit = false; ++loopsRun;
    while (!m->quit) { vq_cut("nested event loop"); inLoop(); }
    m->state = 0;
    return 0;
}
bool QEventLoop::isRunning() const { return of(this)->state; }
void QEventLoop::exit(int) { if (of(this)->state) of(this)->quit = true; }
void QEventLoop::quit() { exit(0); }

// ---- QThread
VQ_META(QThread, QObject)
QThread::QThread(QObject *p) : QObject(p) {}
QThread::~QThread() {}
QThread *QThread::currentThread() { return current; }
bool QThread::isRunning() const { others(this); const int s = of(this)->state; others(this); return s == Launched || s == Running; }
bool QThread::isFinished() const { others(this); const int s = of(this)->state; others(this); return s == Finishing || s == Finished; }
bool QThread::event(QEvent *) { return false; }
void QThread::run() {}
void QThread::started(QPrivateSignal p) { fire(this, &QThread::started, p); }
void QThread::finished(QPrivateSignal p) { fire(this, &QThread::finished, p); }

// ---- logging (no effect)
void QMessageLogger::warning(const char *, ...) const {}

// ---- clocks: arbitrary but fixed readings
#include <chrono>
namespace vqt { long steadyNow = 0, systemNow = 0; }
namespace std::chrono { inline namespace _V2 {
steady_clock::time_point steady_clock::now() noexcept { return time_point(duration(vqt::steadyNow)); }
system_clock::time_point system_clock::now() noexcept { return time_point(duration(vqt::systemNow)); }
} }

// ---- logging has no effect on the properties
#include <QTextStream>
class QTextStreamPrivate {};
QTextStream::QTextStream(QString *, OpenMode) {}
QTextStream::~QTextStream() {}
QTextStream &QTextStream::operator<<(const QString &) { return *this; }
QTextStream &QTextStream::operator<<(char) { return *this; }
QDebug::~QDebug() { if (stream && !--stream->ref) { vq_silent_alloc(1); delete stream; vq_silent_alloc(-1); } }
QDebug QMessageLogger::warning() const { vq_silent_alloc(1); QDebug d(QtWarningMsg); vq_silent_alloc(-1); return d; }
QString QString::fromUtf8(QByteArrayView v) { return QString(QString::DataPointer(nullptr, reinterpret_cast<char16_t *>(const_cast<char *>(v.data())), v.size())); } // the same text
void QArrayData::deallocate(QArrayData *data, qsizetype, qsizetype) noexcept { ::operator delete(data); }
