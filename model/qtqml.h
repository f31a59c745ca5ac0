// Environment contracts for QtQml: JavaScript values are opaque; variants carry an identity.
#pragma once
#include "qtmodel.h"
#include <QVariant>
#include <QJSValue>
#include <QJSEngine>
namespace vqt {
QVariant variant(long id); long variantOf(const QVariant &v);   // 0: invalid
struct FunctionM { int calls = 0; long arg = 0; int args = 0; };
struct ScriptM { bool callable = true, dead = false; int values = 0; FunctionM f[2]; };   // one engine, two functions
extern ScriptM script;
QJSValue function(int i);
QJSEngine *scriptEngine();
}
