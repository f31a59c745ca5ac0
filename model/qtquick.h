// Environment contracts for QtQuick's image providers; images are opaque values.
#pragma once
#include "qtmodel.h"
#include <QImage>
#include <QQuickAsyncImageProvider>
namespace vqt {
QImage image(long id); long imageOf(const QImage &i);   // 0: a null image
struct TextureM { long image = 0; };                    // what a texture factory was made from
extern TextureM texture;
QString name(const char *text);
}
