// Contracts of the image provider (C30)
#include "common.h"
#include "qtquick.h"
#include "qcoroimageprovider.h"
using namespace vq;
using QCoro::Task;

namespace {
struct Load { int outcome = None; long image = 0; bool later = false; Gate gate; int running = 0; };
Load *next; int loads; QSize size; const char *id;
struct Provider : QCoro::ImageProvider {
    Task<QImage> asyncRequestImage(const QString &n, const QSize &s) override {
        ++loads; id = reinterpret_cast<const char *>(n.constData()); size = s; Load *l = next; Probe running(&l->running);
        if (l->later) co_await l->gate;
        if (l->outcome != Value) raise(l->outcome, 1);
        co_return vqt::image(l->image);
    }
};
struct Request { std::optional<Load> load; QQuickImageResponse *r = nullptr; bool gone = false; int finished = 0; QMetaObject::Connection c; };
const char names[2] = {};
void answered(Request *q, bool counted) {
    if (counted) VQ_ENSURE(q->finished == 1, "C30.finished-once");
    vqt::texture.image = -1;
    auto *t = q->r->textureFactory(); const QString e = q->r->errorString();
    if (q->load->outcome == Value) {
        VQ_ENSURE(t == (q->load->image ? reinterpret_cast<QQuickTextureFactory *>(&vqt::texture) : nullptr) && vqt::texture.image == q->load->image, "C30.exact-image");
        VQ_ENSURE(e.isNull(), "C30.no-error"); VQ_COVER("C30.image");
    } else { VQ_ENSURE(!e.isNull(), "C30.error"); VQ_COVER("C30.error"); }
    vqt::texture.image = 0;
}
// requires: any images, sizes and ids; loads that are done at once or later, in any order; responses destroyed at any time
// ensures:  one load per request, with its id and size; the response is finished exactly once, when its load has ended, with its image
void ask(Provider *p, Request *q) {
    q->load.emplace(); Load &l = *q->load; l.outcome = vq_choose(2, "outcome") ? Value : ESub;
    l.image = vq_i64("image"); l.later = vq_choose(2, "later");
    const int w = vq_i32("width"), h = vq_i32("height"); const char *n = &names[vq_bool("id")];
    next = &l; loads = 0; q->finished = 0; q->gone = false;
    QQuickAsyncImageProvider *base = p;
    { const QString s = vqt::name(n); q->r = base->requestImageResponse(s, QSize(w, h)); }
    VQ_ENSURE(loads == 1 && id == n && size.width() == w && size.height() == h, "C30.one-load");
    VQ_ENSURE(q->r != nullptr, "C30.response"); next = nullptr;
    if (l.later) q->c = QObject::connect(q->r, &QQuickImageResponse::finished, [q] { ++q->finished; answered(q, true); });
    size = QSize(0, 0); id = nullptr; loads = 0;
}
}
VQ_CONTRACT(C30, requests) {
    {
        Provider p; Request q[2];
        for (;;) {
            vq_cut("C30.history");
            Request &a = q[vq_choose(2, "which")];
            if (!a.load) {
                if (vq_choose(2, "over")) break;
                ask(&p, &a);
                if (!a.load->later) { VQ_ENSURE(a.load->running == 0, "C30.load-released"); answered(&a, false); delete a.r; a.r = nullptr; a.load.reset(); VQ_COVER("C30.at-once"); }
            } else if (a.load->later && vq_choose(2, "load ends")) {
                VQ_ENSURE(a.finished == 0, "C30.not-before-loaded"); VQ_ENSURE(a.load->gate.waiting(), "C30.load-runs");
                a.load->gate.open(); VQ_ENSURE(a.load->running == 0, "C30.load-released"); a.load->later = false;
                if (a.gone) { VQ_ENSURE(a.finished == 0, "C30.gone-untouched"); a.load.reset(); VQ_COVER("C30.gone"); }
                else answered(&a, true);
            } else if (!a.gone) { // the response is destroyed
                delete a.r; a.r = nullptr; a.c = {}; a.finished = 0; a.gone = true;
                if (!a.load->later) { a.load.reset(); a.gone = false; } // it had been answered
            } else continue;
            if (!a.load) { a.gone = false; a.finished = 0; scrub(a.load); }
        }
        for (Request &a : q) { if (a.load && a.load->later) { const bool gone = a.gone; a.load->gate.open(); if (!gone) answered(&a, true); } if (a.load && !a.gone) delete a.r; }
    }
    VQ_ENSURE(alive == 0 && vq_live_heap() == 0, "C30.no-leak"); VQ_ENSURE(vqt::connections() == 0 && vqt::objects() == 0, "C30.disconnected"); VQ_COVER("C30.done");
}
