#include "common.h"
#include "modules/videoMixer/VideoMixer.hh"
#include "modules/videoSplitter/VideoSplitter.hh"
#include "VideoFrame.hh"
#include <cmath>
typedef std::map<int, Frame*> Frames;
struct Chan { float w = 1, h = 1, x = 0, y = 0, o = 1; int layer = 0; bool on = false; };
static float fraction()
{
    static const float c[] = {0, 1, 0.5f, 0.25f, -0.0f, -1e-9f, 1.0000001f, 0.9999999f, 1e-9f, NAN, INFINITY, -INFINITY, -1, 2, 0.001f, 0.333f};
    return vp::chance(25) ? c[vp::upto(sizeof c / sizeof *c)] : vp::range(0, 1000) / 1000.f;
}
static InterleavedVideoFrame* picture(int w, int h)
{
    InterleavedVideoFrame* f = InterleavedVideoFrame::createNew(RAW, 1920, 1080, RGB24);
    f->setSize(w, h); return f;
}
static int size(int max) { return vp::chance(15) ? vp::range(0, 2) : vp::chance(10) ? max : vp::range(1, vp::chance(50) ? std::min(max, 64) : max); }
static void mix()
{
    int n = vp::range(0, 5), ow = size(400), oh = size(300);
    VideoMixer* m = VideoMixer::createNew(n, ow, oh);
    CHECK(!m == (ow <= 0 || oh <= 0), "a mixer of %dx%d is %smade", ow, oh, m ? "" : "not ");
    if (!m) return;
    vp::log("mixer of %dx%d for %d channels", ow, oh, n);
    std::map<int, Chan> ch;
    Frames org;
    std::map<int, int> shade;
    int ids = vp::range(0, 5);
    for (int i = 0; i < ids; i++) { int id = vp::range(0, 6); bool r = m->specificReaderConfig(id, NULL); CHECK(r == !ch.count(id), "channel %d", id); ch[id]; }
    InterleavedVideoFrame* dst = picture(0, 0);
    for (int rounds = vp::range(1, 3); rounds--;) {
        for (int i = vp::range(0, 8); i--;) {
            Chan c; int id = vp::range(0, 6);
            c.w = fraction(); c.h = fraction(); c.x = fraction(); c.y = fraction(); c.o = vp::chance(60) ? 1 : fraction(); c.layer = vp::range(vp::chance(10) ? -1 : 0, n + vp::chance(20)); c.on = vp::chance(80);
            bool ok = ch.count(id) && c.x >= 0 && c.x <= 1 && c.y >= 0 && c.y <= 1 && c.w > 0 && c.w <= 1 && c.h > 0 && c.h <= 1 && c.o >= 0 && c.o <= 1 && c.layer >= 0 && c.layer <= n;
            vp::log("channel %d: size %g x %g at %g, %g layer %d opacity %g %s", id, c.w, c.h, c.x, c.y, c.layer, c.o, c.on ? "on" : "off");
            CHECK(m->configChannel0(id, c.w, c.h, c.x, c.y, c.layer, c.on, c.o) == ok, "the configuration should be %s", ok ? "accepted" : "rejected");
            if (ok) ch[id] = c;
            for (auto& k : ch) {
                ChannelConfig* g = m->channelsConfig[k.first];
                CHECK(g && g->getWidth() == k.second.w && g->getHeight() == k.second.h && g->getX() == k.second.x && g->getY() == k.second.y && g->getLayer() == k.second.layer && g->isEnabled() == k.second.on && g->getOpacity() == k.second.o, "channel %d is not stored as accepted", k.first);
            }
        }
        if (vp::chance(20)) {
            int w = size(400) - 1, h = size(300) - 1; if (vp::chance(10)) w = 1920 + vp::range(0, 1);
            bool ok = w > 0 && w <= 1920 && h > 0 && h <= 1080;
            vp::log("layout %dx%d", w, h);
            CHECK(m->configure0(w, h, 0) == ok, "the layout should be %s", ok ? "accepted" : "rejected");
            if (ok) { ow = w; oh = h; }
        }
        for (auto& f : org) delete f.second;
        org.clear();
        for (auto& k : ch) {
            if (vp::chance(15)) { if (vp::chance(50)) org[k.first] = NULL; continue; }
            InterleavedVideoFrame* f = picture(size(400), size(300));
            shade[k.first] = vp::range(1, 255);
            memset(f->getDataBuf(), shade[k.first], (size_t)f->getWidth() * f->getHeight() * 3);
            vp::log("frame of channel %d: %dx%d shade %d", k.first, f->getWidth(), f->getHeight(), shade[k.first]);
            org[k.first] = f;
        }
        CHECK(m->doProcessFrame(org, dst, {}), "no output");
        CHECK(dst->getWidth() == ow && dst->getHeight() == oh, "the output is announced as %dx%d", dst->getWidth(), dst->getHeight());
        std::vector<double> want((size_t)ow * oh, 0);
        for (int l = 0; l <= n; l++) for (auto& f : org) {
            Chan& c = ch[f.first];
            if (!f.second || !c.on || c.layer != l) continue;
            InterleavedVideoFrame* v = (InterleavedVideoFrame*)f.second;
            int w = c.w * ow, h = c.h * oh, x = c.x * ow, y = c.y * oh;
            if (!v->getWidth() || !v->getHeight()) continue;
            for (int j = y; j < std::min(oh, y + h); j++) for (int i = x; i < std::min(ow, x + w); i++) {
                double& p = want[(size_t)j * ow + i]; p = p * (1 - c.o) + shade[f.first] * c.o;
            }
        }
        unsigned char* b = dst->getDataBuf();
        for (size_t i = 0; i < want.size() * 3; i++) CHECK(std::fabs(b[i] - want[i / 3]) <= 4, "pixel %zu, %zu is %d instead of %g", i / 3 % ow, i / 3 / ow, b[i], want[i / 3]);
    }
    for (auto& f : org) delete f.second;
    delete dst;
    for (auto& k : ch) CHECK(m->specificReaderDelete(k.first), "channel %d", k.first);
    delete m;
}
struct Crop { int w = 0, h = 0, x = -1, y = -1, d = 0; };
static void split()
{
    VideoSplitter* s = VideoSplitter::createNew();
    std::map<int, Crop> cr;
    std::map<int, std::vector<unsigned char>> kept;
    Frames dst;
    for (int i = vp::range(1, 5); i--;) { int id = vp::range(0, 6); bool r = s->specificWriterConfig(id); CHECK(r == !cr.count(id), "output %d", id); cr[id]; }
    InterleavedVideoFrame* org = picture(size(300), size(200));
    Frames old;
    for (int rounds = vp::range(1, 4); rounds--;) {
        int fw = org->getWidth(), fh = org->getHeight();
        for (int i = vp::range(0, 6); i--;) {
            int id = vp::range(0, 6); Crop c;
            c.x = vp::range(-1, vp::chance(80) ? fw : 2 * fw); c.y = vp::range(-1, vp::chance(80) ? fh : 2 * fh);
            c.w = vp::chance(60) ? fw - c.x : vp::range(vp::chance(80) ? 1 : -1, fw + 1); c.h = vp::chance(60) ? fh - c.y : vp::range(vp::chance(80) ? 1 : -1, fh + 1); c.d = vp::chance(80) ? 0 : vp::range(-362, 362);
            if (vp::chance(15)) { (vp::chance(50) ? c.x : c.y) = 0x7fffffff - vp::range(0, 64); }
            bool ok = cr.count(id) && c.x >= 0 && c.y >= 0 && c.w > 0 && c.h > 0 && c.d <= 360 && c.d >= -360;
            vp::log("output %d: %dx%d at %d, %d turned %d", id, c.w, c.h, c.x, c.y, c.d);
            CHECK(s->configCrop0(id, c.w, c.h, c.x, c.y, c.d) == ok, "the crop should be %s", ok ? "accepted" : "rejected");
            if (ok) cr[id] = c;
            for (auto& k : cr) {
                CropConfig* g = s->cropsConfig[k.first];
                CHECK(g && g->getWidth() == k.second.w && g->getHeight() == k.second.h && g->getX() == k.second.x && g->getY() == k.second.y && g->getDegree() == k.second.d, "crop %d is not stored as accepted", k.first);
            }
            // what was delivered stays as it is
            for (auto& f : old) CHECK(!memcmp(((VideoFrame*)f.second)->getDataBuf(), kept[f.first].data(), kept[f.first].size()), "the frame delivered to output %d has changed", f.first);
        }
        for (auto& f : old) delete f.second;
        old.clear(); dst.clear(); kept.clear();
        unsigned char* b = org->getDataBuf();
        for (size_t i = 0; i < (size_t)fw * fh * 3; i++) b[i] = vp::rnd();
        org->setSequenceNumber(vp::rnd() % 1000); org->setPresentationTime(std::chrono::microseconds(vp::rnd() % 100000)); org->setOriginTime(std::chrono::system_clock::time_point(std::chrono::microseconds(vp::rnd() % 100000)));
        for (auto& k : cr) if (vp::chance(85)) dst[k.first] = picture(0, 0);
        vp::log("picture of %dx%d for %zu outputs", fw, fh, dst.size());
        bool any = false, r = s->doProcessFrame(org, dst);
        for (auto& f : dst) {
            Crop& c = cr[f.first];
            bool fits = c.x >= 0 && c.y >= 0 && c.w > 0 && c.h > 0 && (long)c.x + c.w <= fw && (long)c.y + c.h <= fh;
            VideoFrame* v = (VideoFrame*)f.second;
            any |= fits;
            CHECK(v->getConsumed() == fits, "output %d is %sdelivered", f.first, fits ? "not " : "");
            if (!fits) continue;
            CHECK(v->getWidth() == c.w && v->getHeight() == c.h, "output %d is announced as %dx%d", f.first, v->getWidth(), v->getHeight());
            CHECK(v->getPresentationTime() == org->getPresentationTime() && v->getSequenceNumber() == org->getSequenceNumber() && v->getOriginTime() == org->getOriginTime(), "output %d has other times or another number", f.first);
            for (int j = 0; j < c.h; j++) CHECK(!memcmp(v->getDataBuf() + (size_t)j * c.w * 3, b + ((size_t)(c.y + j) * fw + c.x) * 3, c.w * 3), "row %d of output %d is not the region's", j, f.first);
            kept[f.first].assign(v->getDataBuf(), v->getDataBuf() + c.w * c.h * 3);
        }
        CHECK(r == any, "an output is announced: %d", r);
        for (auto& f : dst) if (kept.count(f.first)) old[f.first] = f.second; else delete f.second;
    }
    for (auto& f : old) delete f.second;
    delete org; delete s;
}
int main(int argc, char** argv)
{
    vp::init(argc, argv);
    while (vp::more()) {
        vp::begin();
        try { if (vp::chance(50)) mix(); else split(); }
        catch (std::exception& e) { CHECK(false, "an exception leaves the filter: %s", e.what()); }
    }
    return vp::done();
}
