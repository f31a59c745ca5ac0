// Environment contract of asynchronous D-Bus calls: the ghost state of one call.
#pragma once
#include "qtmodel.h"
#include <QDBusMessage>
#include <QDBusPendingCall>
#include <QDBusPendingCallWatcher>
#include <QDBusPendingReply>
class QDBusPendingCallPrivate : public QSharedData {
public:
    bool finished = false; long message = 0;              // which message it was answered with
    int types = -1; QMetaType first, second;              // the types of a typed reply
    QTimer *helper = nullptr;                            // exists once somebody watches the call
    ~QDBusPendingCallPrivate() { delete helper; }
};
namespace vqt {
QDBusPendingCall call(bool finished, long message);
QDBusPendingCallPrivate *callOf(const QDBusPendingCall &c);
QDBusMessage message(long id);
long messageOf(const QDBusMessage &m);
void answer(const QDBusPendingCall &c, long message);      // the answer (or error) arrives
extern bool (*arrivesMeanwhile)(QDBusPendingCallPrivate *); // may the answer arrive between two accesses to the call?
}
