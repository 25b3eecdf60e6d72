#include "common.h"
#include "modules/videoEncoder/VideoEncoderX264or5.hh"
#include "modules/videoEncoder/VideoEncoderX264.hh"
#include "modules/videoEncoder/VideoEncoderX265.hh"
#include "SlicedVideoFrameQueue.hh"
// stand-ins for the codec libraries
static struct { int ret; unsigned n; int64_t pts, dts, given; int type; bool called; } lib;
static unsigned char bits[64];
static x264_nal_t n4[64]; static x265_nal n5[64];
extern "C" {
void x264_picture_init(x264_picture_t* p) { memset(p, 0, sizeof *p); }
void x264_encoder_close(x264_t*) {}
int x264_encoder_encode(x264_t*, x264_nal_t** nals, int* n, x264_picture_t* in, x264_picture_t* out) {
    lib.called = true; lib.given = in->i_pts; lib.type = in->i_type == X264_TYPE_IDR;
    for (int i = 0; i < 64; i++) { n4[i].p_payload = bits + i; n4[i].i_payload = 100 + i; }
    *nals = n4; *n = lib.n; out->i_pts = lib.pts; out->i_dts = lib.dts; return lib.ret; }
x265_param* x265_param_alloc() { return (x265_param*)calloc(1, sizeof(x265_param)); }
x265_picture* x265_picture_alloc() { return (x265_picture*)calloc(1, sizeof(x265_picture)); }
void x265_encoder_close(x265_encoder*) {}
int x265_encoder_encode(x265_encoder*, x265_nal** nals, uint32_t* n, x265_picture* in, x265_picture* out) {
    lib.called = true; lib.given = in->pts; lib.type = in->sliceType == X265_TYPE_IDR;
    for (int i = 0; i < 64; i++) { n5[i].payload = bits + i; n5[i].sizeBytes = 100 + i; }
    *nals = n5; *n = lib.n; out->pts = lib.pts; out->dts = lib.dts; return lib.ret; }
}
template <class T> static void real(T& e, const char* name)
{
    std::unique_ptr<SlicedVideoFrame> out(SlicedVideoFrame::createNew(H264));
    int64_t next = 0;
    for (int k = vp::range(1, 30); k--;) {
        bool intra = vp::chance(30), none = vp::chance(5);
        e.encoder = none ? 0 : (decltype(e.encoder))bits; e.forceIntra = intra;
        lib.ret = vp::chance(60) ? (int)vp::range(1, 5000) : (int)vp::range(-1, 0); lib.n = vp::chance(80) ? vp::upto(5) : vp::range(10, 20);
        lib.pts = vp::interesting(); lib.dts = vp::interesting(); lib.called = false;
        unsigned before = out->getSliceNum();
        vp::log("%s: picture %lld (status %d, %u units, %u before, intra %d, open %d)", name, (long long)next, lib.ret, lib.n, before, intra, !none);
        bool r = e.encodeFrame(out.get());
        CHECK(lib.called == !none, "the encoder is used without being open");
        CHECK(r == (!none && lib.ret > 0 && before + lib.n <= 16), "encoding gives %d", r);
        if (none) continue;
        CHECK(lib.given == next && lib.type == intra, "the picture enters with time stamp %lld, intra %d", (long long)lib.given, lib.type);
        if (lib.ret >= 0) next++;
        CHECK(e.inPts == next && !e.forceIntra, "the next time stamp is %lld", (long long)e.inPts);
        unsigned m = lib.ret > 0 ? std::min(16 - before, lib.n) : 0;
        CHECK(!r || (e.outPts == lib.pts && e.dts == lib.dts), "the times are %lld and %lld", (long long)e.outPts, (long long)e.dts);
        CHECK(out->getSliceNum() == before + m, "%d units are stored", out->getSliceNum() - before);
        for (unsigned i = 0; i < m; i++) CHECK(out->getSlices()[before + i].getData() == bits + i && out->getSlices()[before + i].getDataSize() == 100 + i, "unit %u is not the encoder's", i);
        if (vp::chance(60)) out->clear();
    }
    e.encoder = 0;
}
// an encoder that returns its pictures in another order, as b frames make it
struct Enc : VideoEncoderX264or5 {
    std::deque<int64_t> pend; int64_t lastDts = -1; int fail = 0; size_t hold = 0;
    bool fillPicturePlanes(unsigned char**, int*) { return fail != 1; }
    bool reconfigure(VideoFrame*, VideoFrame*) { libavInPixFmt = AV_PIX_FMT_YUV420P; return fail != 2; }
    bool encodeFrame(VideoFrame*) {
        if (fail == 3) return false;
        pend.push_back(inPts); inPts++;
        if (pend.size() <= hold) return false;
        // pictures leave in any order that keeps decode times increasing and not after presentation
        size_t k = vp::upto(pend.size()), m = std::min_element(pend.begin(), pend.end()) - pend.begin();
        dts = ++lastDts - (int64_t)hold;
        if (pend[m] <= dts) k = m;
        outPts = pend[k]; pend.erase(pend.begin() + k);
        return true;
    }
    FrameQueue* allocQueue(ConnectionData) { return NULL; }
};
using namespace std::chrono;
int main(int argc, char** argv)
{
    vp::init(argc, argv);
    while (vp::more()) {
        vp::begin();
        if (vp::chance(20)) { if (vp::chance(50)) { VideoEncoderX264 e; real(e, "x264"); } else { VideoEncoderX265 e; real(e, "x265"); } continue; }
        Enc e;
        for (int n = vp::range(1, 6); n > 0; n--) {
            unsigned v[6]; for (auto& x : v) x = vp::chance(15) ? 0 : (unsigned)vp::interesting();
            unsigned gt = vp::chance(30) ? 0 : vp::chance(30) ? 1000000 + vp::range(-1, 1) : (unsigned)vp::interesting();
            bool ab = vp::chance(50); std::string pr = vp::chance(15) ? "" : std::string("preset") + char('a' + vp::upto(20));
            unsigned o[] = {e.bitrate, e.fps, e.gop, e.lookahead, (unsigned)e.bFrames, e.threads, e.gopTime, e.outputStreamInfo->video.h264or5.annexb, e.needsConfig = false};
            auto ft = e.frameTime; std::string op = e.preset;
            vp::log("configure0 %u %u %u %u %u %u %d '%s' %u", v[0], v[1], v[2], v[3], v[4], v[5], ab, pr.c_str(), gt);
            bool r = e.configure0(v[0], v[1], v[2], v[3], (int)v[4], v[5], ab, pr, gt);
            bool bad = !v[0] || !v[2] || !v[5] || pr.empty();
            CHECK(r == !bad, "configuration %s", r ? "accepted" : "rejected");
            unsigned g[] = {e.bitrate, e.fps, e.gop, e.lookahead, (unsigned)e.bFrames, e.threads, e.gopTime, e.outputStreamInfo->video.h264or5.annexb, e.needsConfig};
            if (bad) { for (int i = 0; i < 9; i++) CHECK(g[i] == o[i], "a rejected configuration changes setting %d from %u to %u", i, o[i], g[i]);
                CHECK(op == e.preset && ft == e.frameTime, "a rejected configuration changes the preset or the frame time"); }
            else { unsigned w[] = {v[0], v[1] ? v[1] : 25, v[2], v[3], v[4], v[5], gt == 0 ? 0 : std::max(gt, 1000000u), ab, 1};
                for (int i = 0; i < 9; i++) CHECK(g[i] == w[i], "setting %d is %u, asked for %u", i, g[i], w[i]);
                CHECK(pr == e.preset, "preset %s", e.preset.c_str());
                CHECK(e.frameTime.count() == (v[1] ? 1000000 / v[1] : 0), "frame time %lld", (long long)e.frameTime.count()); }
        }
        std::unique_ptr<InterleavedVideoFrame> in(InterleavedVideoFrame::createNew(RAW, 64, 48, YUV420P));
        std::unique_ptr<SlicedVideoFrame> out(SlicedVideoFrame::createNew(H264));
        e.hold = vp::upto(4); e.gopTime = vp::chance(50) ? 0 : 1000000;
        std::map<int64_t, std::pair<int64_t, size_t>> given; std::map<int64_t, int64_t> ot;
        for (int n = vp::range(1, 40); n > 0; n--) {
            int64_t p = 1000000 + vp::interesting() % 100000000; int64_t o = vp::rnd() >> 4; size_t s = vp::rnd();
            e.fail = vp::chance(10) ? vp::range(1, 3) : 0;
            int w = 16 * vp::range(1, 4), h = 16 * vp::range(1, 3);
            in->setSize(w, h); in->setPresentationTime(microseconds(p)); in->setOriginTime(system_clock::time_point(nanoseconds(o))); in->setSequenceNumber(s);
            vp::log("picture %lld: time %lld seq %zu (fail %d, hold %zu)", (long long)e.inPts, (long long)p, s, e.fail, e.hold);
            int64_t k = e.inPts;
            out->setConsumed(false);
            Frame* base = out.get();
            bool r = e.doProcessFrame(in.get(), base);
            if (e.inPts > k) { given[k] = {p, s}; ot[k] = o; }
            if (r) {
                CHECK(given.count(e.outPts), "unknown picture");
                CHECK(out->getPresentationTime().count() == given[e.outPts].first, "coded picture %lld has time %lld, its raw picture had %lld", (long long)e.outPts, (long long)out->getPresentationTime().count(), (long long)given[e.outPts].first);
                CHECK(out->getSequenceNumber() == given[e.outPts].second, "sequence number %zu, its raw picture had %zu", out->getSequenceNumber(), given[e.outPts].second);
                CHECK(out->getOriginTime().time_since_epoch().count() == ot[e.outPts], "origin time");
                CHECK(out->getWidth() == w && out->getHeight() == h && out->getConsumed(), "size or consumed flag");
            } else CHECK(!out->getConsumed(), "a picture that was not coded is marked consumed");
        }
    }
    return vp::done();
}
