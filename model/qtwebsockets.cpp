// Environment contracts for QtWebSockets (see qtwebsockets.h)
#include "qtwebsockets.h"
#include <QDebug>
using namespace vqt;
class QNetworkRequestPrivate : public QSharedData { public: long id = 0; };
namespace vqt {
WebM &web(const QWebSocket *s) { return *static_cast<WebM *>(of(s)->ext2); }
WebServerM &server(const QWebSocketServer *s) { return *static_cast<WebServerM *>(of(s)->ext2); }
struct Block { QArrayData head; long id; };
QString message(long id, long size) {
    vq_silent_alloc(1); auto *k = static_cast<Block *>(::operator new(sizeof(Block))); vq_silent_alloc(-1); vq_mark_model(k);
    k->head.ref_.storeRelaxed(1); k->head.flags = {}; k->head.alloc = 1024; k->id = id;
    return QString(QString::DataPointer(static_cast<QTypedArrayData<char16_t> *>(&k->head), reinterpret_cast<char16_t *>(&k->id), size));
}
Bytes dataOf(const QString &s) { return Bytes{s.d.d ? *reinterpret_cast<const long *>(s.d.ptr) : 0, s.d.size}; }
Bytes dataOf(const QByteArray &a) { return Bytes{a.d.d ? *reinterpret_cast<const long *>(a.d.ptr) : 0, a.d.size}; }
QUrl url(long id) { QUrl u; *reinterpret_cast<long *>(&u) = id; return u; }
QNetworkRequest request(long id) { return QNetworkRequest(url(id)); }
static long idOf(const QUrl &u) { return *reinterpret_cast<const long *>(&u); }
static void change(QWebSocket *s, int st) { if (web(s).state == st) return; web(s).state = st; fire(s, &QWebSocket::stateChanged, QAbstractSocket::SocketState(st)); }
static void error(QWebSocket *s) { fire(s, qOverload<QAbstractSocket::SocketError>(&QWebSocket::error), QAbstractSocket::ConnectionRefusedError); }
void becomes(QWebSocket *s, int st) { change(s, st); if (st == QAbstractSocket::ConnectedState) fire(s, &QWebSocket::connected); }
void drops(QWebSocket *s) { if (web(s).state == QAbstractSocket::UnconnectedState) return; change(s, QAbstractSocket::UnconnectedState); fire(s, &QWebSocket::disconnected); }
void fails(QWebSocket *s) { const bool first = vq_choose(2, "error first"); if (first) error(s); drops(s); if (!first) error(s); }
void pongs(QWebSocket *s, quint64 ms, Bytes payload) { fire(s, &QWebSocket::pong, ms, bytes(payload)); }
void incoming(QWebSocketServer *s) { WebServerM &m = server(s); if (m.waiting < 2) ++m.waiting; fire(s, &QWebSocketServer::newConnection); }
}
// URLs and requests are only passed on
QUrl::QUrl() { d = nullptr; }
QUrl::QUrl(const QUrl &o) { d = o.d; }
QUrl::~QUrl() {}
QUrl &QUrl::operator=(const QUrl &o) { d = o.d; return *this; }
QNetworkRequest::QNetworkRequest(const QUrl &u) { vq_silent_alloc(1); d = noted(new QNetworkRequestPrivate); vq_silent_alloc(-1); d->ref.storeRelaxed(1000); d->id = idOf(u); }
QNetworkRequest::QNetworkRequest(const QNetworkRequest &o) : d(o.d) {}
QNetworkRequest::~QNetworkRequest() {}
QUrl QNetworkRequest::url() const { return vqt::url(d->id); }
// ---- sockets
VQ_META(QWebSocket, QObject)
QWebSocket::QWebSocket(const QString &, QWebSocketProtocol::Version, QObject *p) : QObject(p) { of(this)->ext2 = noted(new WebM); }
QWebSocket::~QWebSocket() { delete &web(this); of(this)->ext2 = nullptr; }
static void opening(QWebSocket *s) {
    const unsigned how = vq_choose(3, "open"); // as far as it gets at once
    web(s).failed = how != 1;
    if (how == 0) { error(s); return; }        // not a URL to open: nothing else changes
    change(s, QAbstractSocket::ConnectingState);
    if (how == 2) fails(s);
}
void QWebSocket::open(const QUrl &u) { WebM &m = web(this); ++m.opens; m.byRequest = false; m.url = idOf(u); opening(this); }
void QWebSocket::open(const QNetworkRequest &r) { WebM &m = web(this); ++m.opens; m.byRequest = true; m.url = idOf(r.url()); opening(this); }
void QWebSocket::ping(const QByteArray &a) { WebM &m = web(this); ++m.pings; m.payload = bytesOf(a); }
QAbstractSocket::SocketState QWebSocket::state() const { return QAbstractSocket::SocketState(web(this).state); }
bool QWebSocket::isValid() const { return web(this).state == QAbstractSocket::ConnectedState; }
void QWebSocket::abort() { drops(this); }
void QWebSocket::connected() { fire(this, &QWebSocket::connected); }
void QWebSocket::disconnected() { fire(this, &QWebSocket::disconnected); }
void QWebSocket::stateChanged(QAbstractSocket::SocketState s) { fire(this, &QWebSocket::stateChanged, s); }
void QWebSocket::error(QAbstractSocket::SocketError e) { fire(this, qOverload<QAbstractSocket::SocketError>(&QWebSocket::error), e); }
void QWebSocket::pong(quint64 t, const QByteArray &a) { fire(this, &QWebSocket::pong, t, a); }
void QWebSocket::textFrameReceived(const QString &a, bool b) { fire(this, &QWebSocket::textFrameReceived, a, b); }
void QWebSocket::binaryFrameReceived(const QByteArray &a, bool b) { fire(this, &QWebSocket::binaryFrameReceived, a, b); }
void QWebSocket::textMessageReceived(const QString &a) { fire(this, &QWebSocket::textMessageReceived, a); }
void QWebSocket::binaryMessageReceived(const QByteArray &a) { fire(this, &QWebSocket::binaryMessageReceived, a); }
QDebug operator<<(QDebug d, QAbstractSocket::SocketError) { return d; }
// ---- servers
VQ_META(QWebSocketServer, QObject)
QWebSocketServer::QWebSocketServer(const QString &, SslMode, QObject *p) : QObject(p) { of(this)->ext2 = noted(new WebServerM); }
QWebSocketServer::~QWebSocketServer() { if (vq_choose(2, "says closed")) close(); delete &server(this); of(this)->ext2 = nullptr; }
bool QWebSocketServer::isListening() const { return server(this).listening; }
void QWebSocketServer::close() { WebServerM &m = server(this); m.listening = false; m.waiting = 0; fire(this, &QWebSocketServer::closed); }
bool QWebSocketServer::hasPendingConnections() const { return server(this).waiting > 0; }
QWebSocket *QWebSocketServer::nextPendingConnection() {
    static long tokens[2]; WebServerM &m = server(this);
    if (!m.waiting) return nullptr;
    ++m.taken; if (m.waiting == 1 || vq_choose(2, "one left")) --m.waiting;
    return m.last = reinterpret_cast<QWebSocket *>(&tokens[vq_choose(2, "connection")]);
}
void QWebSocketServer::newConnection() { fire(this, &QWebSocketServer::newConnection); }
void QWebSocketServer::closed() { fire(this, &QWebSocketServer::closed); }
