// Environment contracts of WebSockets and WebSocket servers: their ghost state.
#pragma once
#include "qtprocess.h"
#include <QNetworkRequest>
#include <QUrl>
#include <QWebSocket>
#include <QWebSocketServer>
namespace vqt {
struct WebM {
    int state = 0;                                            // QAbstractSocket::SocketState
    int opens = 0; long url = 0; bool byRequest = false, failed = false; // the last call of open(); it failed at once
    int pings = 0; Bytes payload;                             // the last call of ping()
};
WebM &web(const QWebSocket *s);
QUrl url(long id);
QString message(long id, long size = 4);                     // some text
Bytes dataOf(const QString &s);                              // which text, how long (0: none, for an empty one)
Bytes dataOf(const QByteArray &a);
QNetworkRequest request(long id);
// --- what a socket does on its own
void becomes(QWebSocket *s, int state);                       // Connected, Closing
void fails(QWebSocket *s);                                    // an error and the end of the connection, in any order
void drops(QWebSocket *s);                                    // -> Unconnected, without an error
void pongs(QWebSocket *s, quint64 ms, Bytes payload);
struct WebServerM { bool listening = false; int waiting = 0, taken = 0; QWebSocket *last = nullptr; }; // waiting: 0, 1, 2 = several connections
WebServerM &server(const QWebSocketServer *s);
void incoming(QWebSocketServer *s);
}
