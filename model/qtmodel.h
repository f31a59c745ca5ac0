// Environment contracts for QtCore: what the verified code may rely on.
// One QObject is described by an ObjM (its d_ptr); signals, queued invocations, timers and threads are ghost
// state the contracts drive explicitly. Nothing here is QCoro code.
#pragma once
#include "vq.h"
#include <QObject>
#include <QPointer>
#include <QTimer>
#include <QEvent>
#include <QThread>
#include <QEventLoop>
#include <tuple>
#include <type_traits>

namespace vqt {
struct Args { void **argv = nullptr; virtual ~Args() {} };   // copied arguments of a queued emission
struct Conn {
    int ref = 0; bool connected = false;
    const QObject *sender = nullptr; const QObject *receiver = nullptr;
    void *pmf = nullptr; const QMetaObject *mo = nullptr; int index = -1;
    QtPrivate::QSlotObjectBase *slot = nullptr; int type = 0; const int *types = nullptr;
    Conn *next = nullptr;
};
struct Ev {
    Ev *next = nullptr; const QObject *receiver = nullptr; QThread *thread = nullptr;
    QtPrivate::QSlotObjectBase *slot = nullptr; Args *args = nullptr; QEvent *event = nullptr; bool deleteObj = false; int delay = 0;
};
struct ObjM : QObjectData {
    ObjM *next = nullptr; QtSharedPointer::ExternalRefCountData *rc = nullptr; QThread *thread = nullptr;
    bool active = false, single = false; int interval = 0;   // QTimer
    int state = 0;                                           // QThread: ThreadState; QEventLoop: 1 running
    bool quit = false;                                       // QEventLoop
    void *ext = nullptr, *ext2 = nullptr;                    // device models
    ~ObjM() override;
};
inline ObjM *of(const QObject *o) { return static_cast<ObjM *>(o->d_ptr.data()); }
template<class T> T *noted(T *p) { vq_mark_model(p); return p; } // bookkeeping of the model, not an allocation of the code

void route(QObject *sender, void *pmf, const QMetaObject *mo, int index, void **argv, Args *(*copy)(void **, const int *));
// --- emitting a signal (as moc's code would)
template<class... A> struct Packed : Args {
    std::tuple<std::decay_t<A>...> t; void *ptrs[sizeof...(A) + 1];
    template<std::size_t... I> Packed(void **a, std::index_sequence<I...>) : t(*reinterpret_cast<std::decay_t<A> *>(a[I + 1])...), ptrs{nullptr, (void *)std::addressof(std::get<I>(t))...} { argv = ptrs; }
    static Args *copy(void **a, const int *) { vq_silent_alloc(1); Args *r = new Packed(a, std::index_sequence_for<A...>{}); vq_silent_alloc(-1); return r; }
};
template<> struct Packed<> : Args { static Args *copy(void **, const int *) { return nullptr; } };
template<class F> inline void *pmfKey(F f) { union { F f; void *p[2]; } u; u.p[0] = nullptr; u.f = f; return u.p[0]; }
template<class F, class... A> inline void fire(QObject *sender, F signal, A... args) {
    void *argv[] = {nullptr, (void *)std::addressof(args)...};
    route(sender, pmfKey(signal), nullptr, -1, argv, &Packed<A...>::copy);
}
// --- the event loop, driven by the contract
int pending();                    // queued invocations and posted events
bool deliver();                   // deliver the first one
bool deliver(QThread *t);         // deliver the first one of a thread
int pendingFor(const QObject *receiver);
bool shotPending();               // non-zero single shots
int shotDelay();
void shot();
QTimer *running(const QTimer *except = nullptr); // a running timer other than the given one
void expire(QTimer *t);           // the timer times out
int connections();                // live connections
int connectionsOf(const QObject *sender);
int objects();                    // live QObjects
extern long steadyNow, systemNow;  // clock readings, ns
extern QThread *current;          // the thread that runs
extern void (*inLoop)();          // what happens during one round of a nested QEventLoop::exec()
extern int loopsRun;              // number of nested loops entered
enum ThreadState { New = 0, Launched = 1, Finished = 2, Running = 3, Finishing = 4 }; // Launched: started() not emitted yet; Finishing: finished() not emitted yet
extern void (*meanwhile)(QThread *); // what another thread does between any two accesses to its QThread
void threadStep(QThread *t);      // the thread makes its next step

}
#define VQ_META(C, BASE) \
    const QMetaObject C::staticMetaObject = {{QMetaObject::SuperData(&BASE::staticMetaObject), nullptr, nullptr, nullptr, nullptr, nullptr, nullptr}}; \
    const QMetaObject *C::metaObject() const { return &staticMetaObject; } \
    void *C::qt_metacast(const char *) { return nullptr; } \
    int C::qt_metacall(QMetaObject::Call, int id, void **) { return id; }
#define VQ_META_ROOT(C, BASE) VQ_META(C, BASE)
