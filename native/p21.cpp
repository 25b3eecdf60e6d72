#include "common.h"
#include "VideoFrame.hh"
#include "AudioFrame.hh"
#include "AVFramedQueue.hh"
#include "AudioCircularBuffer.hh"
#include "StreamInfo.hh"
#include "Utils.hh"
static void touch(unsigned char* b, size_t n, const char* w) { vp::log("%s: %zu bytes", w, n); for (size_t i = 0; i < n; i += n > 4096 && i + 4096 < n ? 1021 : 1) ((volatile unsigned char*)b)[i] = (unsigned char)i; }
static int bytes(int f) { return f == U8 || f == U8P ? 1 : f == S16 || f == S16P ? 2 : 4; }
static void video(Frame* f, size_t need, const char* w)
{
    CHECK(f, "%s: no frame", w);
    CHECK(f->getMaxLength() >= need, "%s: room for %u bytes, %zu needed", w, f->getMaxLength(), need);
    CHECK(f->getLength() == 0, "%s: new frame holds %u bytes", w, f->getLength());
    touch(f->getDataBuf(), f->getMaxLength(), w);
}
static void planar(PlanarAudioFrame* f, unsigned ch, size_t need)
{
    CHECK(f, "no planar frame");
    CHECK(f->getMaxLength() >= need, "room for %u bytes per channel, %zu needed", f->getMaxLength(), need);
    for (unsigned c = 0; c < ch; c++) { CHECK(!c || f->getPlanarDataBuf()[c] != f->getPlanarDataBuf()[0], "channels share their memory"); touch(f->getPlanarDataBuf()[c], f->getMaxLength(), "planar"); }
}
int main(int argc, char** argv)
{
    vp::init(argc, argv);
    while (vp::more()) {
        vp::begin();
        switch (vp::upto(6)) {
        case 0: {
            int w = vp::range(0, vp::chance(80) ? 300 : 4000), h = vp::range(0, vp::chance(80) ? 300 : 3000); PixType p = (PixType)vp::range(-1, YUVJ420P);
            vp::log("raw video %dx%d format %d", w, h, p);
            InterleavedVideoFrame* f = InterleavedVideoFrame::createNew(RAW, w, h, p);
            video(f, (size_t)w * h * (p == RGB24 ? 3 : p == RGB32 ? 4 : p == YUYV422 ? 2 : 3), "raw video");
            CHECK(f->getWidth() == w && f->getHeight() == h && f->getPixelFormat() == p, "other size or format");
            delete f; break; }
        case 1: {
            unsigned n = vp::range(0, 70000); VCodecType c = (VCodecType)vp::range(0, 3);
            vp::log("coded video of %u bytes", n);
            InterleavedVideoFrame* f = InterleavedVideoFrame::createNew(c, n); video(f, n, "coded video"); CHECK(f->getCodec() == c, "other codec"); delete f; break; }
        case 2: case 3: {
            int ch = vp::range(0, 8), rate = vp::range(0, 200000), n = vp::range(0, 5000), fmt = vp::range(-1, 5); ACodecType c = (ACodecType)vp::range(0, 5);
            bool pl = vp::chance(50);
            vp::log("%s audio: %d channels, %d Hz, %d samples, format %d", pl ? "planar" : "interleaved", ch, rate, n, fmt);
            if (!pl) {
                InterleavedAudioFrame* f = InterleavedAudioFrame::createNew(ch, rate, n, c, (SampleFmt)fmt);
                bool ok = fmt == U8 || fmt == S16 || fmt == FLT;
                CHECK(!f == !ok, "frame %s", f ? "made" : "refused");
                if (!f) break;
                video(f, (size_t)bytes(fmt) * n * ch, "interleaved audio"); int v = vp::rnd(); f->fillWithValue(v);
                for (unsigned i = 0; i < f->getMaxLength(); i++) CHECK(f->getDataBuf()[i] == (unsigned char)v, "byte %u not filled", i);
                CHECK((int)f->getChannels() == ch && (int)f->getSampleRate() == rate && f->getSampleFmt() == fmt && f->getCodec() == c && (int)f->getMaxSamples() == n, "other parameters"); delete f;
            } else {
                PlanarAudioFrame* f = PlanarAudioFrame::createNew(ch, rate, n, c, (SampleFmt)fmt);
                bool ok = (fmt == U8P || fmt == S16P || fmt == FLTP) && ch <= 2;
                CHECK(!f == !ok, "frame %s", f ? "made" : "refused");
                if (!f) break;
                planar(f, ch, (size_t)bytes(fmt) * n); CHECK(f->getLength() == 0, "new frame holds %u bytes", f->getLength());
                int v = vp::rnd(); f->fillWithValue(v);
                for (int k = 0; k < ch; k++) for (unsigned i = 0; i < f->getMaxLength(); i++) CHECK(f->getPlanarDataBuf()[k][i] == (unsigned char)v, "byte %u not filled", i);
                CHECK((int)f->getChannels() == ch && (int)f->getSampleRate() == rate && f->getSampleFmt() == fmt && f->getCodec() == c && (int)f->getMaxSamples() == n, "other parameters"); delete f;
            }
            break; }
        case 4: {
            ConnectionData cd; unsigned n = vp::range(2, vp::chance(5) ? 260 : 5);
            if (vp::chance(50)) {
                StreamInfo si(VIDEO); static const VCodecType C[] = {H264, H265, VP8, RAW, MJPEG}; si.video.codec = C[vp::upto(5)]; if (si.video.codec != VP8 && n > 5) n = 5; si.video.pixelFormat = (PixType)vp::range(-1, YUVJ420P);
                vp::log("video queue: codec %d, format %d, %u slots", si.video.codec, si.video.pixelFormat, n);
                VideoFrameQueue* q = VideoFrameQueue::createNew(cd, &si, n);
                bool ok = si.video.codec != MJPEG && (si.video.codec != RAW || si.video.pixelFormat != P_NONE);
                CHECK(!q == !ok, "queue %s", q ? "made" : "refused");
                if (!q) break;
                CHECK(q->max == std::min(n, 250u), "%u slots", q->max);
                PixType p = si.video.pixelFormat;
                for (unsigned i = 0; i < q->max; i++) { video(q->frames[i], si.video.codec == RAW ? 1920 * 1080 * (p == RGB32 ? 4 : p == YUYV422 ? 2 : 3) : si.video.codec == VP8 ? 512 * 1024 : 2 * 1024 * 1024, "video queue"); for (unsigned j = 0; j < i; j++) CHECK(q->frames[i] != q->frames[j], "slots share a frame"); }
                delete q;
            } else {
                StreamInfo si(AUDIO); si.audio.codec = (ACodecType)vp::range(-1, 5); si.audio.channels = vp::range(1, vp::chance(20) ? 4 : 2); si.audio.sampleRate = vp::range(0, 100000); bool coded = si.audio.codec == G711 || si.audio.codec == OPUS || si.audio.codec == AAC || si.audio.codec == MP3;
                si.audio.sampleFormat = (SampleFmt)(coded ? vp::range(0, 2) : vp::range(-1, 5));
                vp::log("audio queue: codec %d, format %d, %u Hz, %u slots", si.audio.codec, si.audio.sampleFormat, si.audio.sampleRate, n);
                AudioFrameQueue* q = AudioFrameQueue::createNew(cd, &si, n);
                bool ok = si.audio.codec != AC_NONE && (coded || (si.audio.sampleFormat != S_NONE && (si.audio.sampleFormat < U8P || si.audio.channels <= 2)));
                CHECK(!q == !ok, "queue %s", q ? "made" : "refused");
                if (!q) break;
                CHECK(q->max == std::min(n, 250u), "%u slots", q->max);
                for (unsigned i = 0; i < q->max; i++) {
                    size_t one = (size_t)bytes(si.audio.sampleFormat) * (si.audio.sampleRate * 100 / 1000);
                    if (si.audio.sampleFormat >= U8P) planar(dynamic_cast<PlanarAudioFrame*>(q->frames[i]), si.audio.channels, one); else video(q->frames[i], one * si.audio.channels, "audio queue");
                    for (unsigned j = 0; j < i; j++) CHECK(q->frames[i] != q->frames[j], "slots share a frame");
                }
                delete q;
            }
            break; }
        default: {
            unsigned ch = vp::range(0, 4), rate = vp::range(0, 200000), mx = vp::range(0, 3000); int fmt = vp::range(-1, 5);
            vp::log("ring: %u channels, %u Hz, %u samples, format %d", ch, rate, mx, fmt);
            ConnectionData cd; AudioCircularBuffer* b = AudioCircularBuffer::createNew(cd, ch, rate, mx, (SampleFmt)fmt);
            bool ok = ch >= 1 && ch <= 2 && rate && mx && fmt >= U8P;
            CHECK(!b == !ok, "buffer %s", b ? "made" : "refused");
            if (!b) break;
            planar(b->inputFrame, ch, (size_t)bytes(fmt) * (rate * 100ull / 1000)); planar(b->outputFrame, ch, (size_t)bytes(fmt) * (rate * 100ull / 1000));
            CHECK(b->outputFrame->getSamples() == rate * 20ull / 1000, "%u samples per frame at %u Hz", b->outputFrame->getSamples(), rate);
            CHECK(b->channelMaxLength == (uint64_t)mx * (rate / 1000) * bytes(fmt), "capacity %u", b->channelMaxLength);
            CHECK(b->dummyFrame->getMaxLength() >= (size_t)mx * bytes(fmt), "silence of %u bytes", b->dummyFrame->getMaxLength());
            for (unsigned c = 0; c < ch; c++) { for (size_t i = 0; i < (size_t)mx * bytes(fmt); i++) CHECK(b->dummyFrame->getPlanarDataBuf()[c][i] == 0, "silence is not silent"); touch(b->data[c], b->channelMaxLength, "ring"); }
            delete b->dummyFrame; delete b; }
        }
    }
    return vp::done();
}
