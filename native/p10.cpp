#include "common.h"
#include "modules/dasher/DashVideoSegmenterAVC.hh"
#include "modules/dasher/DashVideoSegmenterHEVC.hh"
#include "modules/dasher/DashAudioSegmenter.hh"
using std::chrono::microseconds;
int main(int argc, char** argv)
{
    vp::init(argc, argv);
    std::unique_ptr<DashSegment> seg(new DashSegment());
    while (vp::more()) {
        vp::begin();
        int kind = vp::upto(3); int64_t off = vp::chance(50) ? 0 : vp::range(0, 10000000); unsigned dur = vp::range(1, 6);
        DashSegmenter* g; DashVideoSegmenter* v = NULL;
        if (kind == 0) g = v = new DashVideoSegmenterAVC(std::chrono::seconds(dur), microseconds(off));
        else if (kind == 1) g = v = new DashVideoSegmenterHEVC(std::chrono::seconds(dur), microseconds(off));
        else g = new DashAudioSegmenter(std::chrono::seconds(dur), microseconds(off));
        unsigned rate = vp::chance(50) ? 48000 : 44100, samples = vp::chance(50) ? 1024 : vp::range(100, 20000);
        Frame* f;
        if (v) f = InterleavedVideoFrame::createNew(kind ? H265 : H264, 4096); else f = InterleavedAudioFrame::createNew(2, rate, 20000, AAC, S16);
        f->setPresentationTime(microseconds(off));
        if (vp::chance(10)) { CHECK(!g->generateSegment(seg.get(), f), "a segment without a context"); CHECK(!g->flushDashContext(), "flush without a context"); }
        CHECK(v ? v->setup(64, 48) : ((DashAudioSegmenter*)g)->setup(2, rate, samples, 16), "setup");
        uint64_t tb = v ? g->getTimeBase() : rate; uint64_t target = dur * tb;
        CHECK(g->dashContext->duration == target, "target %u, expected %llu", g->dashContext->duration, (unsigned long long)target);
        vp::log("kind %d, %u s, offset %lld, rate %u, %u samples", kind, dur, (long long)off, rate, samples);
        bool has = false; uint64_t first = 0, lastp = 0, lastd = 0; int64_t cur = 0; unsigned sn = 0;
        int64_t t = off + vp::range(0, 2000000); int spacing = vp::chance(20) ? vp::range(1000000, 7000000) : vp::range(10000, 300000);
        for (int n = vp::range(1, 200); n > 0; n--) {
            bool key = vp::chance(30); if (v) v->currentIntra = vp::chance(50); bool force = !v && vp::chance(3), null = vp::chance(3);
            if (v) v->previousIntra = key;
            f->setPresentationTime(microseconds(t)); f->setDecodeTime(microseconds(t)); f->setLength(vp::range(9, 64));
            uint64_t p = (uint64_t)((t - off) * (int64_t)tb / 1000000);
            seg->setTimestamp(111); seg->setDuration(222); seg->setDataLength(333); seg->setComplete(false); seg->setSeqNumber(444); seg->setLastFrameTimestamp(555);
            uint8_t b0 = seg->getDataBuffer()[0];
            bool r = g->generateSegment(seg.get(), null ? NULL : f, force);
            bool cut = false; int64_t total = cur;
            if (null && !force) cut = false;
            else if (v) { int64_t last = (int64_t)p - (int64_t)lastp; cut = has && key && (int64_t)target <= cur + 2 * last; total = cur + last; }
            else cut = has && (force || (int64_t)target <= cur);
            vp::log("frame at %lld key %d force %d null %d: %s", (long long)t, key, force, null, r ? "segment" : "none");
            CHECK(r == cut, "%s at a duration of %lld of %llu", r ? "segment" : "no segment", (long long)total, (unsigned long long)target);
            if (cut) {
                CHECK(seg->getTimestamp() == first, "segment time %llu, first sample %llu", (unsigned long long)seg->getTimestamp(), (unsigned long long)first);
                CHECK(seg->getDuration() == (unsigned)total, "segment duration %u, samples %lld", seg->getDuration(), (long long)total);
                CHECK(seg->isComplete() && seg->getSeqNumber() == ++sn && seg->getDataLength() > 333 - 300, "segment not complete or out of sequence");
                has = false; cur = 0;
            } else CHECK(seg->getTimestamp() == 111 && seg->getDuration() == 222 && seg->getDataLength() == 333 && !seg->isComplete() && seg->getSeqNumber() == 444 && seg->getDataBuffer()[0] == b0, "a refusal changes the segment");
            if (null) continue;
            if (vp::chance(3)) {    // the stream's parameters change
                if (!v) { rate = vp::chance(50) ? 48000 : 8000; samples = vp::range(100, 4000); tb = rate; target = dur * tb; p = (uint64_t)((t - off) * (int64_t)tb / 1000000); }
                vp::log("setup again: rate %u samples %u", rate, samples);
                CHECK(v ? v->setup(32, 16) : ((DashAudioSegmenter*)g)->setup(2, rate, samples, 16), "setup");
                CHECK(g->dashContext->duration == target, "target %u after a change, expected %llu", g->dashContext->duration, (unsigned long long)target);
            }
            if (vp::chance(3)) { vp::log("flush"); CHECK(g->flushDashContext(), "flush"); has = false; cur = 0; }
            bool ok = g->appendFrameToDashSegment(f);
            CHECK(ok == (!v || has || key), "append");
            if (ok) {
                if (!has) { first = p; if (v) cur = 0; } else if (v) cur += (int64_t)(uint32_t)(p - lastd);
                if (!v) cur += samples;
                has = true; lastp = lastd = p;
            }
            t += spacing + vp::range(-5, 5);
        }
        delete f;
        if (v) { delete (kind ? ((DashVideoSegmenterHEVC*)v)->vFrame : ((DashVideoSegmenterAVC*)v)->vFrame); delete (kind ? ((DashVideoSegmenterHEVC*)v)->tmpFrame : ((DashVideoSegmenterAVC*)v)->tmpFrame); free(g->dashContext->ctxvideo->ctxsample); free(g->dashContext->ctxvideo); }
        else { free(g->dashContext->ctxaudio->ctxsample); free(g->dashContext->ctxaudio); }
        delete g;
    }
    return vp::done();
}
