// Environment contracts for QtQml (see qtqml.h)
#include "qtqml.h"
#include <QLoggingCategory>
#include <private/qjsvalue_p.h>
using namespace vqt;
namespace vqt {
ScriptM script;
static QV4::Value functions[2];
alignas(16) static unsigned char engineBytes[sizeof(QV4::ExecutionEngine)];
alignas(16) static unsigned char publicEngine[64];
QJSEngine *scriptEngine() { return reinterpret_cast<QJSEngine *>(publicEngine); }
static quint64 raw(int i) { return QV4::Value::fromHeapObject(reinterpret_cast<QV4::Heap::Base *>(&functions[i])).asReturnedValue(); }
QJSValue function(int i) { QJSValue v; QJSValuePrivate::setRawValue(&v, &functions[i]); return v; }
static int which(const QJSValue *v) { for (int i = 0; i < 2; ++i) if (v->d == raw(i)) return i; return -1; }
QVariant variant(long id) { QVariant v; if (id) { *reinterpret_cast<long *>(v.d.data.data) = id; v.d.is_null = false; v.d.packedType = 1; } return v; }
long variantOf(const QVariant &v) { return v.d.packedType ? *reinterpret_cast<const long *>(v.d.data.data) : 0; }
}
// ---- variants
QVariant::QVariant(QMetaType t, const void *p) : d() {
    d.is_null = false; d.packedType = 1;
    *reinterpret_cast<long *>(d.data.data) = t.sizeOf() == sizeof(int) ? long(*static_cast<const int *>(p)) : *static_cast<const long *>(p);
}
QVariant::QVariant(const QVariant &o) : d(o.d) {}
QVariant::~QVariant() {}
QVariant &QVariant::operator=(const QVariant &o) { d = o.d; return *this; }
bool QVariant::isNull() const { return d.is_null; }
// ---- JavaScript values
QJSValue::QJSValue(SpecialValue) : d(0) {}
QJSValue::QJSValue(const QJSValue &o) : d(o.d) {}
QJSValue::~QJSValue() {}
QJSValue &QJSValue::operator=(const QJSValue &o) { d = o.d; return *this; }
bool QJSValue::isCallable() const { return which(this) >= 0 && script.callable; }
QJSValue QJSValue::call(const QJSValueList &args) const {
    const int i = which(this);
    if (i >= 0 && !script.dead) { FunctionM &f = script.f[i]; ++f.calls; f.args = int(args.size()); f.arg = f.args ? long(args[0].d) : 0; }
    return QJSValue();
}
QJSValue QJSEngine::create(QMetaType t, const void *p) {
    vq_ensure(this == scriptEngine() && !script.dead, "C29.engine");
    QJSValue v; v.d = t == QMetaType::fromType<QVariant>() ? quint64(variantOf(*static_cast<const QVariant *>(p))) : quint64(t.sizeOf() == sizeof(int) ? long(*static_cast<const int *>(p)) : *static_cast<const long *>(p));
    return v;
}
QV4::ExecutionEngine *QV4::PersistentValueStorage::getEngine(const Value *v) {
    if (script.dead || (v != &functions[0] && v != &functions[1])) return nullptr;
    auto *e = reinterpret_cast<QV4::ExecutionEngine *>(engineBytes); e->publicEngine = scriptEngine(); return e;
}
// ---- lists
void *QArrayData::allocate(QArrayData **d, qsizetype size, qsizetype align, qsizetype capacity, AllocationOption) noexcept {
    const qsizetype head = (qsizetype(sizeof(QArrayData)) + align - 1) / align * align;
    auto *a = static_cast<QArrayData *>(::operator new(std::size_t(head + size * capacity)));
    a->ref_.storeRelaxed(1); a->flags = {}; a->alloc = capacity; *d = a; return reinterpret_cast<char *>(a) + head;
}
// ---- warnings have no effect on the properties
QLoggingCategory::QLoggingCategory(const char *c, QtMsgType) : d(nullptr), name(c) {}
QLoggingCategory::~QLoggingCategory() {}
void QMessageLogger::warning(const char *, ...) const {}
