// Environment contracts for QtTest (see qttest.h)
#include "qttest.h"
#include <QString>
#include <QByteArray>
using namespace vqt;
namespace vqt { TestM tst; void (*during)(int ms) = nullptr;
static bool report(int kind, int line) { ++tst.reports; tst.kind = kind; tst.line = line; return tst.answer; }
static void note(const char *m) { unsigned i = 0; while (m[i] && i + 1 < sizeof tst.message) { tst.message[i] = m[i]; ++i; } tst.message[i] = 0; } }
namespace QTest {
bool qVerify(bool v, const char *s, const char *d, const char *, int line) { tst.value = v; tst.a = s; tst.b = d; return report(Verify, line); }
void qFail(const char *m, const char *, int line) { note(m); report(Fail, line); }
void qSkip(const char *m, const char *, int line) { note(m); report(Skip, line); }
bool qExpectFail(const char *i, const char *c, TestFailMode mode, const char *, int line) { tst.a = i; tst.b = c; tst.mode = mode; return report(ExpectFail, line); }
bool qCompare(int x, int y, const char *a, const char *b, const char *, int line) { tst.actual = x; tst.expected = y; tst.a = a; tst.b = b; return report(Compare, line); }
void *qElementData(const char *name, int) { tst.named = name; return &tst.element; }
const char *currentTestFunction() { return "test"; }
bool runningTest() { return true; }
bool currentTestFailed() { return tst.failed; }
void qWait(int ms) { ++tst.waits; during(ms); }
}
// the message that suggests a longer timeout
QString QString::arg(const QString &, int, QChar) const { return QString(); }
QString QString::arg(qlonglong, int, int, QChar) const { return QString(); }
QByteArray QString::toLocal8Bit_helper(const QChar *, qsizetype) { return QByteArray(); }
const char QByteArray::_empty = '\0';
