// Environment contracts for QProcess, QString and QStringList as opaque values (see qtprocess.h)
#include "qtprocess.h"
using namespace vqt;
namespace vqt {
ProcM &proc(const QProcess *p) { return *static_cast<ProcM *>(of(p)->ext2); }
struct Block { QArrayData head; long id; };
static Block *block(long id) {
    vq_silent_alloc(1); auto *k = static_cast<Block *>(::operator new(sizeof(Block))); vq_silent_alloc(-1); vq_mark_model(k);
    k->head.ref_.storeRelaxed(1000); k->head.flags = {}; k->head.alloc = 1024; k->id = id; // shared: never freed, never modified
    return k;
}
QString text(long id) { Block *k = block(id); return QString(QString::DataPointer(static_cast<QTypedArrayData<char16_t> *>(&k->head), reinterpret_cast<char16_t *>(&k->id), 4)); }
long textOf(const QString &s) { return s.d.size == 4 ? *reinterpret_cast<const long *>(s.d.ptr) : -1; }
QStringList list(long id) { Block *k = block(id); QStringList l; l.d = QArrayDataPointer<QString>(static_cast<QTypedArrayData<QString> *>(&k->head), reinterpret_cast<QString *>(&k->id), 1); return l; }
long listOf(const QStringList &l) { return l.d.size == 1 ? *reinterpret_cast<const long *>(l.d.ptr) : -1; }
static void change(QProcess *p, int s) { proc(p).state = s; fire(p, &QProcess::stateChanged, QProcess::ProcessState(s), QProcess::QPrivateSignal{}); }
void starts(QProcess *p) { change(p, QProcess::Running); fire(p, &QProcess::started, QProcess::QPrivateSignal{}); }
void failsToStart(QProcess *p) { change(p, QProcess::NotRunning); fire(p, &QProcess::errorOccurred, QProcess::FailedToStart); }
void finishes(QProcess *p, int code, bool crash) {
    if (crash) fire(p, &QProcess::errorOccurred, QProcess::Crashed);
    change(p, QProcess::NotRunning);
    fire(p, qOverload<int, QProcess::ExitStatus>(&QProcess::finished), code, crash ? QProcess::CrashExit : QProcess::NormalExit);
}
void otherError(QProcess *p) {
    static const QProcess::ProcessError e[] = {QProcess::Timedout, QProcess::ReadError, QProcess::WriteError, QProcess::UnknownError};
    fire(p, &QProcess::errorOccurred, e[vq_choose(4, "error")]);
}
}
VQ_META(QProcess, QIODevice)
QProcess::QProcess(QObject *p) : QIODevice(p) { of(this)->ext2 = noted(new ProcM); }
QProcess::~QProcess() { delete &proc(this); of(this)->ext2 = nullptr; }
QProcess::ProcessState QProcess::state() const { return ProcessState(proc(this).state); }
static void starting(QProcess *p) {
    ProcM &m = proc(p);
    if (m.state != QProcess::NotRunning) return; // Qt: warns and does nothing
    static_cast<QIODevice *>(p)->QIODevice::open(QIODevice::OpenMode(m.mode));
    const unsigned how = vq_choose(3, "start");
    change(p, QProcess::Starting);
    if (how == 1) starts(p); else if (how == 2) failsToStart(p);
}
void QProcess::start(OpenMode mode) { ProcM &m = proc(this); ++m.starts; m.mode = mode.toInt(); m.given = false; starting(this); }
void QProcess::start(const QString &program, const QStringList &arguments, OpenMode mode) {
    ProcM &m = proc(this); ++m.starts; m.mode = mode.toInt(); m.given = true; m.program = textOf(program); m.arguments = listOf(arguments); starting(this);
}
QProcess::ProcessError QProcess::error() const { return QProcess::UnknownError; }
bool QProcess::open(OpenMode m) { start(m); return true; }
void QProcess::close() { QIODevice::close(); }
bool QProcess::isSequential() const { return true; }
qint64 QProcess::bytesToWrite() const { return QIODevice::bytesToWrite(); }
bool QProcess::waitForReadyRead(int) { vq_ensure(false, "no-blocking-wait"); return false; }
bool QProcess::waitForBytesWritten(int) { vq_ensure(false, "no-blocking-wait"); return false; }
bool QProcess::waitForStarted(int) { vq_ensure(false, "no-blocking-wait"); return false; }
bool QProcess::waitForFinished(int) { vq_ensure(false, "no-blocking-wait"); return false; }
qint64 QProcess::readData(char *, qint64) { return 0; }
qint64 QProcess::writeData(const char *, qint64) { return 0; }
void QProcess::started(QPrivateSignal p) { fire(this, &QProcess::started, p); }
void QProcess::finished(int c, ExitStatus s) { fire(this, qOverload<int, ExitStatus>(&QProcess::finished), c, s); }
void QProcess::errorOccurred(ProcessError e) { fire(this, &QProcess::errorOccurred, e); }
void QProcess::stateChanged(ProcessState s, QPrivateSignal p) { fire(this, &QProcess::stateChanged, s, p); }
