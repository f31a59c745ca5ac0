// Environment contracts of sockets, network replies and TCP servers: their ghost state.
#pragma once
#include "qtprocess.h"
#include <QAbstractSocket>
#include <QHostAddress>
#include <QLocalSocket>
#include <QNetworkReply>
#include <QTcpServer>
namespace vqt {
struct SockM { int state = 0, connects = 0; long host = 0; bool byAddress = false, named = false; int port = 0, mode = 0, protocol = 0; }; // the last call of connectTo...
SockM &sock(const QAbstractSocket *s);
SockM &sock(const QLocalSocket *s);
QHostAddress address(long id);
// --- what sockets do on their own
template<class S> void becomes(S *s, int state);     // Connecting, Connected, Closing
template<class S> void fails(S *s);                  // -> Unconnected without having been connected
template<class S> void loses(S *s);                  // Connected or Closing -> Unconnected
struct ReplyM { bool finished = false, error = false; };
ReplyM &reply(const QNetworkReply *r);
void errs(QNetworkReply *r);
void finishes(QNetworkReply *r);
struct ServerM { bool listening = false; int waiting = 0, taken = 0; QTcpSocket *last = nullptr; }; // waiting: 0, 1, 2 = several connections
ServerM &server(const QTcpServer *s);
void incoming(QTcpServer *s);
}
