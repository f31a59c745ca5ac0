// Environment contract of QIODevice: ghost state of one device.
#pragma once
#include "qtmodel.h"
#include <QIODevice>
#include <QByteArray>
namespace vqt {
struct Bytes { long id = 0; long size = 0; bool operator==(const Bytes &o) const { return id == o.id && size == o.size; } }; // which bytes
enum ReadKind { NoRead = 0, ReadAll = 1, ReadSome = 2, ReadALine = 3 };
struct DevM {
    int mode = 0;                                  // QIODevice::OpenMode
    long avail = 0, unsent = 0;                    // bytes available for reading; accepted but not written
    bool buffered = true;                          // accepted bytes are written later
    int reads = 0; int readKind = NoRead; long readMax = 0; Bytes got;       // the last read
    int writes = 0; Bytes given; long accepted = 0; int polls = 0;           // the last write; queries since the last event
};
DevM &dev(const QIODevice *d);
QByteArray bytes(Bytes b);                         // an array holding these bytes
Bytes bytesOf(const QByteArray &a);                // which bytes an array holds
Bytes bytesAt(const char *p, long n);
extern long maxPolls;
// --- what a device does on its own
void arrives(QIODevice *d, long n);                // n bytes arrive
void written(QIODevice *d, long n);                // n bytes of the buffer are written
void closes(QIODevice *d);
}
