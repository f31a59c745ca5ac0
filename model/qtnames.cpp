// Environment contract of small byte arrays with known contents: the names of metatypes
#include "qtmodel.h"
#include <QByteArray>
#include <QNetworkReply>
int QtPrivate::compareMemory(QByteArrayView a, QByteArrayView b) {
    for (qsizetype i = 0; i < a.size() && i < b.size(); ++i) if (a.data()[i] != b.data()[i]) return a.data()[i] < b.data()[i] ? -1 : 1;
    return a.size() == b.size() ? 0 : a.size() < b.size() ? -1 : 1;
}
void QByteArray::reallocData(qsizetype n, QArrayData::AllocationOption) {
    auto *k = static_cast<QArrayData *>(::operator new(sizeof(QArrayData) + n + 1));
    k->ref_.storeRelaxed(1); k->flags = {}; k->alloc = n;
    char *p = reinterpret_cast<char *>(k + 1); const qsizetype size = d.size < n ? d.size : n;
    for (qsizetype i = 0; i < size; ++i) p[i] = d.ptr[i];
    p[size] = 0;
    d = DataPointer(static_cast<QTypedArrayData<char> *>(k), p, size);
}
QByteArray &QByteArray::insert(qsizetype i, QByteArrayView v) {
    const qsizetype n = v.size(), old = d.size; reallocData(old + n, QArrayData::KeepSize);
    for (qsizetype k = old; k-- > i;) d.ptr[k + n] = d.ptr[k];
    for (qsizetype k = 0; k < n; ++k) d.ptr[i + k] = v.data()[k];
    d.size = old + n; d.ptr[d.size] = 0; return *this;
}
QByteArray &QByteArray::append(char c) { return insert(d.size, QByteArrayView(&c, 1)); }
QByteArray::QByteArray(const char *p, qsizetype n) { if (p) insert(0, QByteArrayView(p, n < 0 ? qsizetype(__builtin_strlen(p)) : n)); }
const char *QMetaObject::className() const { return "QObject"; }
QByteArray QMetaObject::normalizedType(const char *n) { return QByteArray(n); }
void QMetaType::registerNormalizedTypedef(const class QByteArray &, QMetaType) {}
int qRegisterNormalizedMetaType_QNetworkReply__NetworkError(const QByteArray &) { return 70001; }
