// Environment contracts of QFuture's shared state and QFutureWatcher (Qt 6.4): state bits, results at any index,
// a stored exception, and call-outs that reach the watchers as posted events.
#include "qtmodel.h"
#include <QFuture>
#include <QFutureWatcher>
#include <QPromise>
#include <QMutex>
#include <map>
#include <QCoreApplication>
using namespace vqt;
using FIB = QFutureInterfaceBase;
namespace { struct Watch { QFutureWatcherBase *w; Watch *next; }; }
class QFutureInterfaceBasePrivate {
public:
    int ref = 1, refT = 0, state = 0; bool valid = true;
    std::exception_ptr exception; QtPrivate::ResultStoreBase store; QMutex mutex; Watch *watchers = nullptr;
    std::function<void(const FIB &)> continuation;
    explicit QFutureInterfaceBasePrivate(int s) : state(s), valid(!(s & FIB::Canceled)) {}
    ~QFutureInterfaceBasePrivate() { while (watchers) { Watch *n = watchers->next; delete watchers; watchers = n; } }
};
// --- a minimal ordered map (std::map's out-of-line primitives; balance is irrelevant)
namespace std {
_Rb_tree_node_base *_Rb_tree_increment(_Rb_tree_node_base *x) noexcept {
    if (x->_M_right) { x = x->_M_right; while (x->_M_left) x = x->_M_left; return x; }
    auto *y = x->_M_parent; while (x == y->_M_right) { x = y; y = y->_M_parent; }
    return x->_M_right != y ? y : x;
}
const _Rb_tree_node_base *_Rb_tree_increment(const _Rb_tree_node_base *x) noexcept { return _Rb_tree_increment(const_cast<_Rb_tree_node_base *>(x)); }
_Rb_tree_node_base *_Rb_tree_decrement(_Rb_tree_node_base *x) noexcept {
    if (x->_M_color == _S_red && x->_M_parent->_M_parent == x) return x->_M_right;
    if (x->_M_left) { auto *y = x->_M_left; while (y->_M_right) y = y->_M_right; return y; }
    auto *y = x->_M_parent; while (x == y->_M_left) { x = y; y = y->_M_parent; }
    return y;
}
const _Rb_tree_node_base *_Rb_tree_decrement(const _Rb_tree_node_base *x) noexcept { return _Rb_tree_decrement(const_cast<_Rb_tree_node_base *>(x)); }
void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base *x, _Rb_tree_node_base *p, _Rb_tree_node_base &header) noexcept {
    x->_M_parent = p; x->_M_left = x->_M_right = nullptr; x->_M_color = _S_black;
    if (left) { p->_M_left = x; if (p == &header) { header._M_parent = x; header._M_right = x; } else if (p == header._M_left) header._M_left = x; }
    else { p->_M_right = x; if (p == header._M_right) header._M_right = x; }
}
}
namespace {
struct Silent { Silent() { vq_silent_alloc(1); } ~Silent() { vq_silent_alloc(-1); } };
QFutureInterfaceBasePrivate *make(int s) { Silent q; return new QFutureInterfaceBasePrivate(s); }
void unref(QFutureInterfaceBasePrivate *d) { if (d && --d->ref == 0) { Silent q; delete d; } }
constexpr int FinishedEv = 60001, CanceledEv = 60002;
void post(QFutureWatcherBase *w, int t) { QEvent *e = noted(new QEvent(QEvent::Type(t))); QCoreApplication::postEvent(w, e); }
void callOut(QFutureInterfaceBasePrivate *d, int t) { for (Watch *w = d->watchers; w; w = w->next) post(w->w, t); }
}
FIB::QFutureInterfaceBase(State s) : d(make(s)) {}
FIB::QFutureInterfaceBase(const FIB &o) : d(o.d) { ++d->ref; }
FIB &FIB::operator=(const FIB &o) { if (o.d) ++o.d->ref; unref(d); d = o.d; return *this; }
FIB::~QFutureInterfaceBase() { unref(d); }
void FIB::swap(FIB &o) noexcept { auto *t = d; d = o.d; o.d = t; }
bool FIB::refT() const noexcept { if (d) ++d->refT; return true; }
bool FIB::derefT() const noexcept { return !d || --d->refT != 0; }
void FIB::reset() { d->valid = false; }
void FIB::rethrowPossibleException() { if (d->exception) std::rethrow_exception(d->exception); }
void FIB::reportStarted() { if (d->state & (Started | Canceled | Finished)) return; d->state = Started | Running; d->valid = true; }
void FIB::reportFinished() { if (!(d->state & Finished)) { d->state = (d->state & ~Running) | Finished; callOut(d, FinishedEv); } }
void FIB::reportCanceled() { cancel(); }
void FIB::cancel() { cancel(CancelMode::CancelOnly); }
void FIB::cancel(CancelMode m) {
    const bool fin = m == CancelMode::CancelAndFinish;
    if (!(d->state & Canceled) || (fin && !(d->state & Finished))) {
        d->state |= Canceled; d->valid = false; callOut(d, CanceledEv);
        if (fin && !(d->state & Finished)) { d->state = (d->state & ~Running) | Finished; callOut(d, FinishedEv); }
    }
}
void FIB::reportException(std::exception_ptr e) { if (d->exception || (d->state & (Canceled | Finished))) return; d->exception = e; d->state |= Canceled; callOut(d, CanceledEv); }
void FIB::reportResultsReady(int, int) {}
bool FIB::queryState(State s) const { return d->state & s; }
bool FIB::isRunning() const { return d->state & Running; }
bool FIB::isStarted() const { return d->state & Started; }
bool FIB::isCanceled() const { return d->state & Canceled; }
bool FIB::isFinished() const { return d->state & Finished; }
bool FIB::isSuspending() const { return false; }
bool FIB::isSuspended() const { return false; }
bool FIB::isThrottled() const { return false; }
bool FIB::isValid() const { return d->valid; }
int FIB::loadState() const { return d->state; }
bool FIB::isChainCanceled() const { return d->state & Canceled; }
bool FIB::isResultReadyAt(int i) const { return d->store.containsValidResultItem(i); }
int FIB::resultCount() const { return d->store.count(); }
bool FIB::hasException() const { return bool(d->exception); }
QtPrivate::ResultStoreBase &FIB::resultStoreBase() { return d->store; }
const QtPrivate::ResultStoreBase &FIB::resultStoreBase() const { return d->store; }
QMutex &FIB::mutex() const { return d->mutex; }
bool FIB::isRunningOrPending() const { return d->state & (Running | Pending); }
// the code under contract runs on the thread of the event loop: it may not block on an unfinished future
void FIB::waitForFinished() { vq_ensure(!isRunningOrPending(), "C15.no-blocking-wait"); rethrowPossibleException(); }
void FIB::waitForResult(int) { rethrowPossibleException(); vq_ensure(!isRunningOrPending(), "C15.no-blocking-wait"); }
void FIB::cleanContinuation() {}
void FIB::runContinuation() const { if (d->continuation) { auto f = std::move(d->continuation); d->continuation = nullptr; f(*this); } }
void FIB::setContinuation(std::function<void(const FIB &)> f) { if (d->state & Finished) f(*this); else d->continuation = std::move(f); }

QtPrivate::ResultStoreBase::ResultStoreBase() : insertIndex(0), resultCount(0), m_filterMode(false), filteredResults(0) {}
QtPrivate::ResultStoreBase::~ResultStoreBase() {}
bool QtPrivate::ResultStoreBase::filterMode() const { return false; }
int QtPrivate::ResultStoreBase::count() const { return resultCount; } // the results without a gap before them
bool QtPrivate::ResultStoreBase::containsValidResultItem(int i) const { return m_results.contains(i); }
int QtPrivate::ResultStoreBase::addResult(int index, const void *r) {
    Silent q; if (index < 0) index = insertIndex; else if (m_results.contains(index)) return -1; // an index is reported once
    m_results.insert(index, ResultItem(r)); if (index >= insertIndex) insertIndex = index + 1;
    while (m_results.contains(resultCount)) ++resultCount;
    return index;
}
QtPrivate::ResultIteratorBase QtPrivate::ResultStoreBase::resultAt(int i) const {
    auto it = m_results.find(i); vq_ensure(it != m_results.end(), "C15.reads-an-existing-result");
    return ResultIteratorBase(it, 0);
}
QtPrivate::ResultIteratorBase::ResultIteratorBase(QMap<int, ResultItem>::const_iterator i, int v) : mapIterator(i), m_vectorIndex(v) {}

void QBasicMutex::lockInternal() QT_MUTEX_LOCK_NOEXCEPT { vq_unreachable("model: mutex contention"); }
void QBasicMutex::unlockInternal() noexcept { vq_unreachable("model: mutex contention"); }
void QBasicMutex::destroyInternal(QMutexPrivate *) {}

VQ_META(QFutureWatcherBase, QObject)
QFutureWatcherBase::QFutureWatcherBase(QObject *p) : QObject(p) {}
void QFutureWatcherBase::connectNotify(const QMetaMethod &) {}
void QFutureWatcherBase::disconnectNotify(const QMetaMethod &) {}
void QFutureWatcherBase::connectOutputInterface() {
    auto *d = futureInterface().d; Silent q; d->watchers = new Watch{this, d->watchers};
    if (d->state & FIB::Canceled) post(this, CanceledEv);
    if (d->state & FIB::Finished) post(this, FinishedEv);
}
void QFutureWatcherBase::disconnectOutputInterface(bool) {
    auto *d = futureInterface().d; if (!d) return;
    for (Watch **p = &d->watchers; *p; p = &(*p)->next) if ((*p)->w == this) { Watch *x = *p; *p = x->next; Silent q; delete x; break; }
}
bool QFutureWatcherBase::event(QEvent *e) {
    if (int(e->type()) == FinishedEv) { finished(); return true; }
    if (int(e->type()) == CanceledEv) { canceled(); return true; }
    return false;
}
void QFutureWatcherBase::started() { fire(this, &QFutureWatcherBase::started); }
void QFutureWatcherBase::finished() { fire(this, &QFutureWatcherBase::finished); }
void QFutureWatcherBase::canceled() { fire(this, &QFutureWatcherBase::canceled); }
void QFutureWatcherBase::cancel() { futureInterface().cancel(); }
bool QFutureWatcherBase::isStarted() const { return futureInterface().queryState(FIB::Started); }
bool QFutureWatcherBase::isFinished() const { return futureInterface().isFinished(); }
bool QFutureWatcherBase::isRunning() const { return futureInterface().queryState(FIB::Running); }
bool QFutureWatcherBase::isCanceled() const { return futureInterface().queryState(FIB::Canceled); }
void QFutureWatcherBase::waitForFinished() { futureInterface().waitForFinished(); }
