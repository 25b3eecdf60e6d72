#include "common.h"
#include "SlicedVideoFrameQueue.hh"
#include "StreamInfo.hh"
#include "Utils.hh"
struct E { std::vector<unsigned char> b; size_t seq; int64_t pts, dts, org; int w, h; };
using us = std::chrono::microseconds;
int main(int argc, char** argv)
{
    vp::init(argc, argv);
    while (vp::more()) {
        vp::begin();
        unsigned cap = vp::range(2, 9), slice = vp::range(1, 40);
        ConnectionData cd; unsigned nr = vp::upto(4);
        for (unsigned i = 0; i < nr; i++) { ReaderData r; r.rFilterId = vp::range(-5, 90); r.readerId = i; cd.readers.push_back(r); }
        StreamInfo si(VIDEO); si.video.codec = vp::chance(50) ? H264 : H265;
        vp::log("queue of %u, slices up to %u bytes, %u readers", cap, slice, nr);
        SlicedVideoFrameQueue* q = SlicedVideoFrameQueue::createNew(cd, &si, cap, slice);
        CHECK(q, "no queue");
        CHECK(q->max == cap, "%u slots", q->max);
        for (unsigned i = 0; i < cap; i++) CHECK(q->frames[i] && q->frames[i]->getMaxLength() >= slice, "slot %u has no room for a slice", i);
        std::deque<E> model; size_t lost = 0;
        std::vector<std::vector<unsigned char>> mem;
        for (int n = vp::range(1, 30); n--;) {
            if (vp::chance(55)) {
                bool force = vp::chance(50);
                Frame* r = force ? q->forceGetRear() : q->getRear();
                vp::log("%s with %zu queued", force ? "forceGetRear" : "getRear", model.size());
                CHECK((r == NULL) == (!force && model.size() == cap - 1), "rear %s", r ? "offered" : "refused");
                if (!r) continue;
                SlicedVideoFrame* f = dynamic_cast<SlicedVideoFrame*>(r);
                CHECK(f && f->getSliceNum() == 0, "%d slices left in the frame", f ? f->getSliceNum() : -1);
                mem.clear(); std::vector<E> add; E m;
                m.seq = vp::rnd(); m.pts = vp::range(-1, 1 << 30); m.dts = vp::range(-1, 1 << 30); m.org = vp::range(0, 1 << 30); m.w = vp::range(0, 4000); m.h = vp::range(0, 4000);
                f->setSequenceNumber(m.seq); f->setPresentationTime(us(m.pts)); f->setDecodeTime(us(m.dts)); f->setOriginTime(std::chrono::system_clock::time_point(us(m.org))); f->setSize(m.w, m.h);
                int s = vp::chance(10) ? vp::range(15, 18) : vp::upto(6);
                for (int i = 0; i < s; i++) {
                    unsigned len = vp::chance(10) ? slice + vp::range(0, 3) : vp::chance(10) ? 0 : vp::range(0, slice);
                    m.b.resize(len); for (auto& c : m.b) c = vp::rnd();
                    mem.push_back(m.b); mem.back().push_back(0);
                    bool ok = f->setSlice(mem.back().data(), len);
                    vp::log("  slice of %u bytes", len);
                    CHECK(ok == (i < 16), "slice %d %s", i, ok ? "taken" : "refused");
                    if (ok) add.push_back(m);
                }
                CHECK(f->getSliceNum() == std::min(s, 16), "%d slices", f->getSliceNum());
                std::vector<int> ids = q->addFrame();
                CHECK(ids.size() == nr, "%zu consumers reported", ids.size());
                unsigned k = 0; for (auto& x : q->connectionData.readers) CHECK(ids[k++] == x.rFilterId, "other consumer reported");
                CHECK(f->getSliceNum() == 0, "the sliced frame is not emptied");
                for (auto& e : add) {
                    if (e.b.size() > slice) continue;
                    if (model.size() == cap - 1) { model.pop_back(); lost++; }
                    model.push_back(e);
                }
            } else {
                vp::log("getFront with %zu queued", model.size());
                Frame* fr = q->getFront();
                CHECK((fr == NULL) == model.empty(), "front %s", fr ? "offered" : "missing");
                if (fr) {
                    E e = model.front(); model.pop_front();
                    VideoFrame* v = dynamic_cast<VideoFrame*>(fr);
                    CHECK(v, "not a video frame");
                    CHECK(v->getLength() == e.b.size(), "%u bytes, %zu expected", v->getLength(), e.b.size());
                    CHECK(std::equal(e.b.begin(), e.b.end(), v->getDataBuf()), "other bytes");
                    CHECK(v->getSequenceNumber() == e.seq && v->getPresentationTime() == us(e.pts) && v->getDecodeTime() == us(e.dts) && v->getOriginTime() == std::chrono::system_clock::time_point(us(e.org)), "other timing");
                    CHECK(v->getWidth() == e.w && v->getHeight() == e.h, "other size");
                    q->removeFrame();
                }
            }
            CHECK(q->getElements() == model.size(), "%u queued, %zu expected", q->getElements(), model.size());
            CHECK(q->getLostBlocs() == lost, "%zu lost, %zu expected", q->getLostBlocs(), lost);
        }
        delete q;
    }
    return vp::done();
}
