#include "common.h"
#include "modules/sharedMemory/SharedMemory.hh"
#include "VideoFrame.hh"
static unsigned get(const uint8_t* p, int n) { unsigned r = 0; for (int i = 0; i < n; i++) r |= (unsigned)p[i] << 8 * i; return r; }
int main(int argc, char** argv)
{
    vp::init(argc, argv);
    const int codes[] = {1, 0, 2, 3, 4};
    uint8_t* seg = (uint8_t*)malloc(SHMSIZE);
    std::vector<uint8_t> before(SHMSIZE);
    InterleavedVideoFrame* big = InterleavedVideoFrame::createNew(H264, 7000000u);
    InterleavedVideoFrame* bigd = InterleavedVideoFrame::createNew(H264, 7000000u);
    while (vp::more()) {
        vp::begin();
        SharedMemory* s = (SharedMemory*)calloc(1, sizeof(SharedMemory));
        s->SharedMemoryOrigin = s->access = seg; s->buffer = seg + 24; s->seqNum = vp::chance(50) ? 1 : vp::rnd();
        memset(seg, 0, 24); *seg = '0';
        VCodecType codec = vp::chance(50) ? H264 : vp::chance(80) ? RAW : (VCodecType)vp::range(0, 4);
        std::vector<uint8_t> pic; bool fresh = false; uint16_t cur = s->seqNum;
        size_t seq = vp::chance(50) ? 1 : vp::interesting();
        bool opened = false;
        for (int n = vp::range(1, 25); n--;) {
            bool large = vp::chance(1);
            unsigned cap = large ? 7000000 : 64 + vp::upto(2000);
            InterleavedVideoFrame *f = large ? big : InterleavedVideoFrame::createNew(codec, cap), *d = large ? bigd : InterleavedVideoFrame::createNew(codec, cap);
            VCodecType c = large ? H264 : codec;
            unsigned len = large ? (vp::chance(50) ? SHMSIZE - 24 + vp::range(-1, 12) : vp::range(6000000, 7000000)) : vp::range(0, vp::chance(30) ? 8 : cap);
            uint8_t* b = f->getDataBuf();
            if (large) memset(b, vp::rnd(), len); else for (unsigned i = 0; i < len; i++) b[i] = vp::rnd();
            const uint8_t types[] = {9, 7, 8, 6, 5, 1, 1, 1, 12, 0};
            int type = vp::chance(25) ? 9 : types[vp::upto(10)];
            if (c == H264 && vp::chance(95)) {
                bool three = vp::chance(40); uint8_t h[5] = {0, 0, 0, 1, (uint8_t)(type | (vp::rnd() & 0xe0))};
                memcpy(b, h + three, std::min<unsigned>(len, 5 - three));
                if (len > 10 && vp::chance(30)) memcpy(b + vp::range(5, len - 5), "\0\0\0\1\x9", 5);
            }
            if (vp::chance(40)) seq += vp::range(0, 2);
            f->setLength(len); f->setSize(vp::range(0, 4000), vp::range(0, 3000)); f->setPixelFormat((PixType)vp::range(-1, 7)); f->setSequenceNumber(seq);
            f->setPresentationTime(std::chrono::microseconds(vp::interesting() >> 1)); f->setDecodeTime(std::chrono::microseconds(vp::rnd() >> 20)); f->setOriginTime(std::chrono::system_clock::time_point(std::chrono::microseconds(vp::rnd() >> 20)));
            bool mine = *seg == '0';
            memcpy(before.data(), seg, SHMSIZE);
            vp::log("unit of %u bytes, codec %d, type %d, sequence %zu, time %lld, the segment is the %s", len, c, type, seq, (long long)f->getPresentationTime().count(), mine ? "writer's" : "reader's");
            CHECK(s->SharedMemory::doProcessFrame(f, d), "the frame is not passed on");
            CHECK(d->getLength() == len && d->getWidth() == f->getWidth() && d->getHeight() == f->getHeight() && d->getPixelFormat() == f->getPixelFormat() && d->getPresentationTime() == f->getPresentationTime() && d->getDecodeTime() == f->getDecodeTime() && d->getOriginTime() == f->getOriginTime() && d->getSequenceNumber() == seq && d->getConsumed() && !memcmp(d->getDataBuf(), b, len), "the frame passed on differs");
            std::vector<uint8_t> want; bool pub = false;
            if (c == RAW) { want.assign(b, b + len); pub = true; }
            else if (c == H264) {
                if (fresh && seq != cur) { want = pic; pub = !want.empty(); pic.clear(); cur = seq; }
                int k = len < 4 ? 0 : !b[0] && !b[1] && b[2] == 1 ? 3 : !b[0] && !b[1] && !b[2] && b[3] == 1 ? 4 : 0;
                if (k && k < (int)len) {
                    int t = b[k] & 31;
                    if (t == 9) fresh = true;
                    else if (t == 1 || (t >= 5 && t <= 8)) { fresh = false; pic.insert(pic.end(), {0, 0, 0, 1}); pic.insert(pic.end(), b + k, b + len); }
                }
            }
            if (want.size() > SHMSIZE - 24) pub = false;
            if (!mine) CHECK(!memcmp(before.data(), seg, SHMSIZE), "the segment is written while the reader has it");
            else {
                CHECK((*seg == '1') == pub, "the segment is %shanded over", pub ? "not " : "");
                if (pub) {
                    CHECK(get(seg + 20, 4) == want.size(), "the header states %u bytes instead of %zu", get(seg + 20, 4), want.size());
                    CHECK(want.empty() || !memcmp(seg + 24, want.data(), want.size()), "the payload differs");
                    uint64_t us = f->getPresentationTime().count();
                    CHECK(get(seg + 2, 2) == (seq & 0xffff) && get(seg + 8, 2) == (unsigned)f->getHeight() && get(seg + 10, 2) == (unsigned)f->getWidth() && get(seg + 6, 2) == (unsigned)codes[c] && get(seg + 4, 2) == (unsigned)(f->getPixelFormat() < 0 || f->getPixelFormat() > 6 ? 0 : f->getPixelFormat() + 1) && get(seg + 12, 4) == (uint32_t)(us / 1000000) && get(seg + 16, 4) == us % 1000000, "the header is not that of the frame");
                }
            }
            if (*seg == '1' && vp::chance(70)) { vp::log("the reader hands the segment back"); *seg = '0'; }
            if (!large) { delete f; delete d; }
        }
        s->frameData.~vector(); free(s);
    }
    return vp::done();
}
