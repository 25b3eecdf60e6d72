#include "common.h"
#include "modules/dasher/DashAudioSegmenter.hh"
using std::chrono::microseconds;
int main(int argc, char** argv)
{
    vp::init(argc, argv);
    while (vp::more()) {
        vp::begin();
        int64_t off = vp::chance(50) ? 0 : vp::range(0, 10000000);
        DashAudioSegmenter g(std::chrono::seconds(3600), microseconds(off));
        unsigned rate = vp::chance(50) ? 48000 : vp::range(8000, 96000), samples = vp::chance(50) ? 1024 : vp::range(1, 8192);
        Frame* f = InterleavedAudioFrame::createNew(vp::range(1, 2), rate, 8192, AAC, S16);
        unsigned n = 0; uint64_t bytes = 0;
        for (int k = vp::range(1, 60); k > 0; k--) {
            if (vp::chance(3)) { CHECK(!g.manageFrame(NULL), "no frame"); CHECK(!g.appendFrameToDashSegment(NULL), "no frame"); }
            ((AudioFrame*)f)->setSamples(samples);
            unsigned char* d = f->getDataBuf();
            unsigned len = vp::chance(40) ? vp::range(0, 12) : vp::range(7, 700);
            for (unsigned i = 0; i < 720; i++) d[i] = vp::rnd();
            bool sync = !vp::chance(20);
            if (sync) { d[0] = 0xff; d[1] = 0xf1; } else if (vp::chance(50)) (vp::chance(50) ? d[0] = 0xff : d[1] = 0xf1);
            sync = d[0] == 0xff && d[1] == 0xf1;
            int64_t t = off + (vp::chance(70) ? vp::range(0, 1000000000) : vp::range(0, 90000000000000ll));
            f->setLength(len); f->setPresentationTime(microseconds(t));
            std::vector<unsigned char> old = g.extradata;
            vp::log("frame of %u bytes: %02x %02x %02x %02x at %lld rate %u, %u samples", len, d[0], d[1], d[2], d[3], (long long)t, rate, samples);
            Frame* r = g.manageFrame(f);
            CHECK(r == (sync && len >= 7 ? f : NULL), "frame %s", r ? "accepted" : "refused");
            if (r) {
                unsigned p = d[2] >> 6, fi = d[2] >> 2 & 15, ch = (d[2] & 1) << 2 | d[3] >> 6, w = (p + 1) << 11 | fi << 7 | ch << 3;
                CHECK(g.extradata.size() == 2 && g.extradata[0] == w >> 8 && g.extradata[1] == (w & 255), "configuration %02x %02x, expected %04x", g.extradata.size() ? g.extradata[0] : 0, g.extradata.size() > 1 ? g.extradata[1] : 0, w);
                CHECK(g.profile == p && g.audioObjectType == p + 1 && g.samplingFrequencyIndex == fi && g.channelConfiguration == ch, "header fields");
            } else CHECK(g.extradata == old, "a refused frame changes the configuration");
            if (!g.dashContext) continue;
            bool ok = g.appendFrameToDashSegment(f);
            CHECK(ok == (len > 7), "a frame of %u bytes %s", len, ok ? "added" : "not added");
            i2ctx_audio* a = g.dashContext->ctxaudio; i2ctx_sample* s = a->ctxsample;
            if (ok) {
                uint64_t pts = (uint64_t)((t - off) * (int64_t)rate / 1000000);
                mdat_sample& m = s->mdat[n];
                CHECK(s->mdat_sample_length == n + 1, "%u samples, expected %u", s->mdat_sample_length, n + 1);
                CHECK(m.size == len - 7 && m.presentation_timestamp == pts && m.duration == samples, "sample size %u duration %u time %llu, expected %u %u %llu", m.size, m.duration, (unsigned long long)m.presentation_timestamp, len - 7, samples, (unsigned long long)pts);
                CHECK(a->segment_data_size == bytes + len - 7 && !memcmp(a->segment_data + bytes, d + 7, len - 7), "sample data");
                bytes += len - 7; n++;
            } else CHECK(s->mdat_sample_length == n, "samples");
            if (vp::chance(5)) { rate = vp::range(8000, 96000); samples = vp::range(1, 8192); ((AudioFrame*)f)->sampleRate = rate; vp::log("rate %u", rate); }
            if (vp::chance(3)) { g.extradata.clear(); vp::log("configuration taken"); }
        }
        delete f;
        if (g.dashContext) { free(g.dashContext->ctxaudio->ctxsample); free(g.dashContext->ctxaudio); }
    }
    return vp::done();
}
