// Environment contract of QProcess: ghost state of one process.
#pragma once
#include "qtdevice.h"
#include <QProcess>
#include <QStringList>
namespace vqt {
struct ProcM {
    int state = 0;                                  // QProcess::ProcessState
    int starts = 0; long program = 0, arguments = 0; int mode = 0; bool given = false; // the last call of start()
};
ProcM &proc(const QProcess *p);
QString text(long id);                              // some string
long textOf(const QString &s);
QStringList list(long id);                          // some list of strings
long listOf(const QStringList &l);
// --- what a process does on its own
void starts(QProcess *p);                           // Starting -> Running
void failsToStart(QProcess *p);                     // Starting -> NotRunning
void finishes(QProcess *p, int code, bool crash);   // Running -> NotRunning
void otherError(QProcess *p);
}
