// Environment contracts for QtQuick (see qtquick.h)
#include "qtquick.h"
using namespace vqt;
namespace vqt {
TextureM texture;
QImage image(long id) { QImage i; i.d = reinterpret_cast<QImageData *>(id); return i; }
long imageOf(const QImage &i) { return reinterpret_cast<long>(i.d); }
QString name(const char *text) { return QString(QString::DataPointer(nullptr, reinterpret_cast<char16_t *>(const_cast<char *>(text)), 1)); }
}
QPaintDevice::QPaintDevice() noexcept {}
QPaintDevice::~QPaintDevice() {}

int QPaintDevice::metric(PaintDeviceMetric) const { return 0; }
void QPaintDevice::initPainter(QPainter *) const {}
QPaintDevice *QPaintDevice::redirected(QPoint *) const { return nullptr; }
QPainter *QPaintDevice::sharedPainter() const { return nullptr; }
QImage::QImage() noexcept { d = nullptr; }
QImage::QImage(const QImage &o) { d = o.d; }
QImage::~QImage() {}
QImage &QImage::operator=(const QImage &o) { d = o.d; return *this; }
bool QImage::isNull() const { return !d; }
int QImage::devType() const { return 0; }
int QImage::metric(PaintDeviceMetric) const { return 0; }
QPaintEngine *QImage::paintEngine() const { return nullptr; }
VQ_META(QQmlImageProviderBase, QObject)
QQmlImageProviderBase::QQmlImageProviderBase() {}
QQmlImageProviderBase::~QQmlImageProviderBase() {}
VQ_META(QQuickImageProvider, QQmlImageProviderBase)
QQuickImageProvider::QQuickImageProvider(ImageType, Flags) : d(nullptr) {}
QQuickImageProvider::~QQuickImageProvider() {}
QQmlImageProviderBase::ImageType QQuickImageProvider::imageType() const { return ImageResponse; }
QQmlImageProviderBase::Flags QQuickImageProvider::flags() const { return {}; }
QImage QQuickImageProvider::requestImage(const QString &, QSize *, const QSize &) { return QImage(); }
QPixmap QQuickImageProvider::requestPixmap(const QString &, QSize *, const QSize &) { __builtin_unreachable(); }
QQuickTextureFactory *QQuickImageProvider::requestTexture(const QString &, QSize *, const QSize &) { return nullptr; }
QQuickAsyncImageProvider::QQuickAsyncImageProvider() : QQuickImageProvider(ImageResponse), d(nullptr) {}
QQuickAsyncImageProvider::~QQuickAsyncImageProvider() {}
VQ_META(QQuickImageResponse, QObject)
QQuickImageResponse::QQuickImageResponse() {}
QQuickImageResponse::~QQuickImageResponse() {}
QString QQuickImageResponse::errorString() const { return QString(); }
void QQuickImageResponse::cancel() {}
void QQuickImageResponse::finished() { fire(this, &QQuickImageResponse::finished); }
QQuickTextureFactory *QQuickTextureFactory::textureFactoryForImage(const QImage &i) { texture.image = imageOf(i); if (i.isNull()) return nullptr; return reinterpret_cast<QQuickTextureFactory *>(&texture); }
QString &QString::operator=(const QString &o) noexcept { d = o.d; return *this; }
