// Environment contracts for QtNetwork (see qtnetwork.h)
#include "qtnetwork.h"
using namespace vqt;
class QHostAddressPrivate : public QSharedData { public: long id = 0; };
namespace vqt {
SockM &sock(const QAbstractSocket *s) { return *static_cast<SockM *>(of(s)->ext2); }
SockM &sock(const QLocalSocket *s) { return *static_cast<SockM *>(of(s)->ext2); }
ReplyM &reply(const QNetworkReply *r) { return *static_cast<ReplyM *>(of(r)->ext2); }
ServerM &server(const QTcpServer *s) { return *static_cast<ServerM *>(of(s)->ext2); }
QHostAddress address(long id) { return QHostAddress(quint32(id)); }
static void change(QAbstractSocket *s, int st) { sock(s).state = st; fire(s, &QAbstractSocket::stateChanged, QAbstractSocket::SocketState(st)); }
static void change(QLocalSocket *s, int st) { sock(s).state = st; fire(s, &QLocalSocket::stateChanged, QLocalSocket::LocalSocketState(st)); }
static void error(QAbstractSocket *s) { fire(s, &QAbstractSocket::errorOccurred, QAbstractSocket::ConnectionRefusedError); }
static void error(QLocalSocket *s) { fire(s, &QLocalSocket::errorOccurred, QLocalSocket::ConnectionRefusedError); }
template<class S> void becomes(S *s, int st) { change(s, st); if (st == S::ConnectedState) fire(s, &S::connected); }
template<class S> void fails(S *s) { const bool first = vq_choose(2, "error first"); if (first) error(s); change(s, S::UnconnectedState); if (!first) error(s); }
template<class S> void loses(S *s) { if (vq_choose(2, "error")) error(s); change(s, S::UnconnectedState); fire(s, &QIODevice::readChannelFinished); fire(s, &S::disconnected); }
template void becomes(QAbstractSocket *, int); template void becomes(QLocalSocket *, int);
template void fails(QAbstractSocket *); template void fails(QLocalSocket *);
template void loses(QAbstractSocket *); template void loses(QLocalSocket *);
void errs(QNetworkReply *r) { reply(r).error = true; fire(r, &QNetworkReply::errorOccurred, QNetworkReply::ConnectionRefusedError); }
void finishes(QNetworkReply *r) { reply(r).finished = true; fire(r, &QNetworkReply::finished); }
void incoming(QTcpServer *s) { ServerM &m = server(s); if (m.waiting < 2) ++m.waiting; fire(s, &QTcpServer::newConnection); }
}
// the address is only stored and compared
QHostAddress::QHostAddress(quint32 a) { vq_silent_alloc(1); d = noted(new QHostAddressPrivate); vq_silent_alloc(-1); d->ref.storeRelaxed(1000); d->id = a; }
QHostAddress::QHostAddress(const QHostAddress &o) : d(o.d) {}
QHostAddress::~QHostAddress() {}
// ---- sockets
template<class S> static void connecting(S *s, int first) {
    SockM &m = sock(s);
    if (m.state != S::UnconnectedState && m.state != QAbstractSocket::BoundState) { error(s); return; } // Qt: warns, the state is kept
    s->QIODevice::open(QIODevice::OpenMode(m.mode));
    const unsigned how = vq_choose(4, "connect"); // as far as it gets at once
    change(s, first);
    if (how >= 1 && first != S::ConnectingState) change(s, S::ConnectingState);
    if (how == 2) becomes(s, S::ConnectedState); else if (how == 3) fails(s);
}
template<class S> static void closing(S *s) {
    s->QIODevice::close(); const int st = sock(s).state;
    if (st == S::UnconnectedState) return;
    if (st != S::ConnectedState && st != S::ClosingState) { change(s, S::UnconnectedState); return; }
    if (st != S::ClosingState) change(s, S::ClosingState);
    if (!vq_choose(2, "linger")) loses(s);
}
VQ_META(QAbstractSocket, QIODevice)
QAbstractSocket::QAbstractSocket(SocketType, QObject *p) : QIODevice(p) { of(this)->ext2 = noted(new SockM); }
QAbstractSocket::~QAbstractSocket() { delete &sock(this); of(this)->ext2 = nullptr; }
void QAbstractSocket::connectToHost(const QString &host, quint16 port, OpenMode mode, NetworkLayerProtocol protocol) {
    SockM &m = sock(this); ++m.connects; m.byAddress = false; m.host = textOf(host); m.port = port; m.mode = mode.toInt(); m.protocol = protocol; connecting(this, HostLookupState);
}
void QAbstractSocket::connectToHost(const QHostAddress &a, quint16 port, OpenMode mode) {
    SockM &m = sock(this); ++m.connects; m.byAddress = true; m.host = a.d->id; m.port = port; m.mode = mode.toInt(); m.protocol = AnyIPProtocol; connecting(this, HostLookupState);
}
QAbstractSocket::SocketState QAbstractSocket::state() const { return SocketState(sock(this).state); }
bool QAbstractSocket::isValid() const { return sock(this).state == ConnectedState; }
void QAbstractSocket::disconnectFromHost() { closing(this); }
void QAbstractSocket::close() { closing(this); }
bool QAbstractSocket::isSequential() const { return true; }
qint64 QAbstractSocket::bytesAvailable() const { return QIODevice::bytesAvailable(); }
qint64 QAbstractSocket::bytesToWrite() const { return QIODevice::bytesToWrite(); }
bool QAbstractSocket::waitForConnected(int) { vq_ensure(false, "no-blocking-wait"); return false; }
bool QAbstractSocket::waitForDisconnected(int) { vq_ensure(false, "no-blocking-wait"); return false; }
bool QAbstractSocket::waitForReadyRead(int) { vq_ensure(false, "no-blocking-wait"); return false; }
bool QAbstractSocket::waitForBytesWritten(int) { vq_ensure(false, "no-blocking-wait"); return false; }
void QAbstractSocket::connected() { fire(this, &QAbstractSocket::connected); }
void QAbstractSocket::disconnected() { fire(this, &QAbstractSocket::disconnected); }
void QAbstractSocket::stateChanged(SocketState s) { fire(this, &QAbstractSocket::stateChanged, s); }
void QAbstractSocket::errorOccurred(SocketError e) { fire(this, &QAbstractSocket::errorOccurred, e); }
void QAbstractSocket::resume() {}
bool QAbstractSocket::bind(const QHostAddress &, quint16, BindMode) { return false; }
void QAbstractSocket::setReadBufferSize(qint64) {}
qintptr QAbstractSocket::socketDescriptor() const { return -1; }
bool QAbstractSocket::setSocketDescriptor(qintptr, SocketState, OpenMode) { return false; }
void QAbstractSocket::setSocketOption(SocketOption, const QVariant &) {}
qint64 QAbstractSocket::readData(char *, qint64) { return 0; }
qint64 QAbstractSocket::readLineData(char *, qint64) { return 0; }
qint64 QAbstractSocket::skipData(qint64) { return 0; }
qint64 QAbstractSocket::writeData(const char *, qint64) { return 0; }
VQ_META(QLocalSocket, QIODevice)
QLocalSocket::QLocalSocket(QObject *p) : QIODevice(p) { of(this)->ext2 = noted(new SockM); }
QLocalSocket::~QLocalSocket() { delete &sock(this); of(this)->ext2 = nullptr; }
void QLocalSocket::connectToServer(OpenMode mode) { SockM &m = sock(this); ++m.connects; m.mode = mode.toInt(); connecting(this, ConnectingState); }
void QLocalSocket::setServerName(const QString &name) { SockM &m = sock(this); if (m.state != UnconnectedState) return; m.named = true; m.host = textOf(name); }
void QLocalSocket::connectToServer(const QString &name, OpenMode mode) { SockM &m = sock(this); ++m.connects; m.named = true; m.host = textOf(name); m.mode = mode.toInt(); connecting(this, ConnectingState); }
QLocalSocket::LocalSocketState QLocalSocket::state() const { return LocalSocketState(sock(this).state); }
bool QLocalSocket::isValid() const { return sock(this).state == ConnectedState; }
void QLocalSocket::disconnectFromServer() { closing(this); }
bool QLocalSocket::open(OpenMode m) { connectToServer(m); return true; }
void QLocalSocket::close() { closing(this); }
bool QLocalSocket::isSequential() const { return true; }
bool QLocalSocket::canReadLine() const { return false; }
qint64 QLocalSocket::bytesAvailable() const { return QIODevice::bytesAvailable(); }
qint64 QLocalSocket::bytesToWrite() const { return QIODevice::bytesToWrite(); }
bool QLocalSocket::waitForConnected(int) { vq_ensure(false, "no-blocking-wait"); return false; }
bool QLocalSocket::waitForDisconnected(int) { vq_ensure(false, "no-blocking-wait"); return false; }
bool QLocalSocket::waitForReadyRead(int) { vq_ensure(false, "no-blocking-wait"); return false; }
bool QLocalSocket::waitForBytesWritten(int) { vq_ensure(false, "no-blocking-wait"); return false; }
void QLocalSocket::connected() { fire(this, &QLocalSocket::connected); }
void QLocalSocket::disconnected() { fire(this, &QLocalSocket::disconnected); }
void QLocalSocket::stateChanged(LocalSocketState s) { fire(this, &QLocalSocket::stateChanged, s); }
void QLocalSocket::errorOccurred(LocalSocketError e) { fire(this, &QLocalSocket::errorOccurred, e); }
qint64 QLocalSocket::readData(char *, qint64) { return 0; }
qint64 QLocalSocket::readLineData(char *, qint64) { return 0; }
qint64 QLocalSocket::skipData(qint64) { return 0; }
qint64 QLocalSocket::writeData(const char *, qint64) { return 0; }
// ---- replies
VQ_META(QNetworkReply, QIODevice)
QNetworkReply::QNetworkReply(QObject *p) : QIODevice(p) { of(this)->ext2 = noted(new ReplyM); }
QNetworkReply::~QNetworkReply() { delete &reply(this); of(this)->ext2 = nullptr; }
bool QNetworkReply::isFinished() const { return reply(this).finished; }
bool QNetworkReply::isRunning() const { return !reply(this).finished; }
QNetworkReply::NetworkError QNetworkReply::error() const { return reply(this).error ? ConnectionRefusedError : NoError; }
void QNetworkReply::finished() { fire(this, &QNetworkReply::finished); }
void QNetworkReply::errorOccurred(NetworkError e) { fire(this, &QNetworkReply::errorOccurred, e); }
void QNetworkReply::close() { QIODevice::close(); }
bool QNetworkReply::isSequential() const { return true; }
void QNetworkReply::setReadBufferSize(qint64) {}
void QNetworkReply::ignoreSslErrors() {}
qint64 QNetworkReply::writeData(const char *, qint64) { return -1; }
#if QT_CONFIG(ssl)
void QNetworkReply::sslConfigurationImplementation(QSslConfiguration &) const {}
void QNetworkReply::setSslConfigurationImplementation(const QSslConfiguration &) {}
void QNetworkReply::ignoreSslErrorsImplementation(const QList<QSslError> &) {}
#endif
// ---- servers
VQ_META(QTcpServer, QObject)
QTcpServer::QTcpServer(QObject *p) : QObject(p) { of(this)->ext2 = noted(new ServerM); }
QTcpServer::~QTcpServer() { delete &server(this); of(this)->ext2 = nullptr; }
bool QTcpServer::isListening() const { return server(this).listening; }
void QTcpServer::close() { ServerM &m = server(this); m.listening = false; m.waiting = 0; }
bool QTcpServer::hasPendingConnections() const { return server(this).waiting > 0; }
QTcpSocket *QTcpServer::nextPendingConnection() {
    static long tokens[2]; ServerM &m = server(this);
    if (!m.waiting) return nullptr;
    ++m.taken; if (m.waiting == 1 || vq_choose(2, "one left")) --m.waiting;
    return m.last = reinterpret_cast<QTcpSocket *>(&tokens[vq_choose(2, "connection")]);
}
bool QTcpServer::waitForNewConnection(int, bool *) { vq_ensure(false, "no-blocking-wait"); return false; }
void QTcpServer::newConnection() { fire(this, &QTcpServer::newConnection); }
void QTcpServer::incomingConnection(qintptr) {}
