// Environment contracts for QIODevice and QByteArray (see qtdevice.h)
#include "qtdevice.h"
using namespace vqt;
namespace vqt {
long maxPolls = 24;
DevM &dev(const QIODevice *d) { return *static_cast<DevM *>(of(d)->ext); }
struct Block { QArrayData head; long id; };
QByteArray bytes(Bytes b) {
    vq_silent_alloc(1); auto *k = static_cast<Block *>(::operator new(sizeof(Block))); vq_silent_alloc(-1); vq_mark_model(k);
    k->head.ref_.storeRelaxed(1); k->head.flags = {}; k->head.alloc = 1024; k->id = b.id;
    return QByteArray(QByteArray::DataPointer(static_cast<QTypedArrayData<char> *>(&k->head), reinterpret_cast<char *>(&k->id), b.size));
}
Bytes bytesAt(const char *p, long n) { return Bytes{n == 0 || !p ? 0 : *reinterpret_cast<const long *>(p), n}; }
Bytes bytesOf(const QByteArray &a) { return bytesAt(a.d.ptr, a.d.size); }
void happens(DevM &m) { m.polls = 0; }
static DevM &query(const QIODevice *d) { DevM &m = dev(d); vq_ensure(++m.polls <= maxPolls, "no-busy-loop"); return m; }
void arrives(QIODevice *d, long n) { DevM &m = dev(d); ::vqt::happens(m); m.avail = n; fire(d, &QIODevice::readyRead); }
void written(QIODevice *d, long n) { DevM &m = dev(d); ::vqt::happens(m); m.unsent -= n; fire(d, &QIODevice::bytesWritten, (qint64)n); }
void closes(QIODevice *d) { d->close(); }
}

// ---- QIODevice
VQ_META(QIODevice, QObject)
QIODevice::QIODevice() : QObject(nullptr) { of(this)->ext = noted(new DevM); }
QIODevice::QIODevice(QObject *p) : QObject(p) { of(this)->ext = noted(new DevM); }
QIODevice::~QIODevice() { delete &dev(this); of(this)->ext = nullptr; }
QIODeviceBase::OpenMode QIODevice::openMode() const { return OpenMode(query(this).mode); }
bool QIODevice::isOpen() const { return query(this).mode != NotOpen; }
bool QIODevice::isReadable() const { return query(this).mode & ReadOnly; }
bool QIODevice::isWritable() const { return query(this).mode & WriteOnly; }
bool QIODevice::isSequential() const { return true; }
bool QIODevice::open(OpenMode m) { dev(this).mode = m.toInt(); return true; }
void QIODevice::close() {
    DevM &m = dev(this); if (m.mode == NotOpen) return;
    ::vqt::happens(m); fire(this, &QIODevice::aboutToClose);
    m.mode = NotOpen; m.avail = 0; m.unsent = 0; ::vqt::happens(m);
}
qint64 QIODevice::pos() const { return 0; }
qint64 QIODevice::size() const { return dev(this).avail; }
bool QIODevice::seek(qint64) { return false; }
bool QIODevice::atEnd() const { return query(this).avail == 0; }
bool QIODevice::reset() { return false; }
qint64 QIODevice::bytesAvailable() const { return query(this).avail; }
qint64 QIODevice::bytesToWrite() const { return query(this).unsent; }
bool QIODevice::canReadLine() const { return false; }
bool QIODevice::waitForReadyRead(int) { vq_ensure(false, "no-blocking-wait"); return false; }
bool QIODevice::waitForBytesWritten(int) { vq_ensure(false, "no-blocking-wait"); return false; }
qint64 QIODevice::readLineData(char *, qint64) { return 0; }
qint64 QIODevice::skipData(qint64) { return 0; }
static QByteArray reading(const QIODevice *d, int kind, long max) {
    DevM &m = dev(d); Bytes b;
    ++m.reads; m.readKind = kind; m.readMax = max;
    if (m.mode & QIODevice::ReadOnly) {
        b.size = m.avail;
        if (kind != ReadAll) { b.size = vq_i64("read"); vq_assume(b.size >= 0 && b.size <= m.avail && (kind == ReadALine && max == 0 || b.size <= max || max < 0 && b.size == 0)); }
        m.avail -= b.size;
    }
    if (b.size == 0) { m.got = Bytes(); return QByteArray(); }
    b.id = vq_i64("bytes"); m.got = b;
    return bytes(b);
}
QByteArray QIODevice::readAll() { return reading(this, ReadAll, 0); }
QByteArray QIODevice::read(qint64 max) { return reading(this, ReadSome, max); }
QByteArray QIODevice::readLine(qint64 max) { return reading(this, ReadALine, max); }
qint64 QIODevice::write(const char *p, qint64 n) {
    DevM &m = dev(this); ++m.writes; m.given = bytesAt(p, n);
    if (!(m.mode & WriteOnly)) return m.accepted = -1;
    const long a = vq_i64("accepted"); vq_assume(a >= -1 && a <= n);
    if (m.buffered && a > 0) m.unsent += a;
    return m.accepted = a;
}
qint64 QIODevice::write(const QByteArray &a) { return write(a.constData(), a.size()); }
void QIODevice::readyRead() { fire(this, &QIODevice::readyRead); }
void QIODevice::bytesWritten(qint64 n) { fire(this, &QIODevice::bytesWritten, n); }
void QIODevice::aboutToClose() { fire(this, &QIODevice::aboutToClose); }
void QIODevice::readChannelFinished() { fire(this, &QIODevice::readChannelFinished); }
