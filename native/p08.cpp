#include "boxes.h"
#include "modules/dasher/DashVideoSegmenterAVC.hh"
#include "modules/dasher/DashVideoSegmenterHEVC.hh"
#include "modules/dasher/DashAudioSegmenter.hh"
int main(int argc, char** argv)
{
    vp::init(argc, argv);
    std::unique_ptr<DashSegment> seg(new DashSegment());
    while (vp::more()) {
        vp::begin();
        int kind = vp::upto(3); bool video = kind < 2;
        unsigned w = vp::chance(5) ? 0 : vp::range(1, 32767), h = vp::chance(5) ? 0 : vp::range(1, 32767), ch = vp::range(1, 8), rate = vp::range(8000, 65535), bits = vp::chance(50) ? 16 : 32, samples = vp::range(100, 4096);
        std::vector<uint8_t> conf(vp::chance(5) ? 0 : !video ? 2 : vp::chance(2) ? MAX_DAT + vp::range(-1, 1) : vp::range(1, vp::chance(10) ? 70000 : 300));
        for (auto& x : conf) x = vp::rnd();
        vp::log("kind %d, %ux%u, %u channels, %u Hz, %u bits, configuration of %zu bytes", kind, w, h, ch, rate, bits, conf.size());
        std::string first;
        for (int round = 0; round < 2; round++) {
            DashSegmenter* g; DashVideoSegmenter* v = NULL;
            if (kind == 0) g = v = new DashVideoSegmenterAVC(std::chrono::seconds(2), std::chrono::microseconds(0));
            else if (kind == 1) g = v = new DashVideoSegmenterHEVC(std::chrono::seconds(2), std::chrono::microseconds(0));
            else g = new DashAudioSegmenter(std::chrono::seconds(2), std::chrono::microseconds(0));
            // memory that held something else before
            std::vector<void*> dirt; for (size_t z : {sizeof(i2ctx_video), sizeof(i2ctx_audio), sizeof(i2ctx_sample), sizeof(i2ctx)}) { void* p = malloc(z); memset(p, round ? 0xa5 : 0x3c, z); dirt.push_back(p); }
            for (void* p : dirt) free(p);
            CHECK(!g->generateInitSegment(seg.get()), "a segment without a context");
            CHECK(v ? v->setup(w, h) : ((DashAudioSegmenter*)g)->setup(ch, rate, samples, bits), "setup");
            g->extradata = conf;
            seg->setDataLength(777);
            CHECK(!g->generateInitSegment(NULL), "no segment given");
            bool ok = g->generateInitSegment(seg.get());
            bool want = !conf.empty() && (!video || (w && h && conf.size() <= MAX_DAT));
            CHECK(ok == want, "segment %s", ok ? "made" : "refused");
            if (!ok) { CHECK(seg->getDataLength() == 777 && g->extradata == conf, "changed though refused"); }
            else {
                CHECK(g->extradata.empty() && !g->generateInitSegment(seg.get()), "the segment is made again");
                const uint8_t* d = seg->getDataBuffer(); size_t n = seg->getDataLength();
                auto bs = boxes(d, 0, n, "the segment");
                std::string e = video ? (kind ? "hev1(hvcC)" : "avc1(avcC)") : "mp4a(esds)", want = std::string("ftyp moov(mvhd mvex(trex) trak(tkhd mdia(mdhd hdlr minf(") + (video ? "vmhd" : "smhd") + " dinf(dref(url )) stbl(stsd(" + e + ") stts stsc stsz stco)))))";
                CHECK(shape(bs) == want, "boxes %s, expected %s", shape(bs).c_str(), want.c_str());
                const Box &mdhd = *find(bs, "mdhd"), &tkhd = *find(bs, "tkhd"), &trex = *find(bs, "trex"), &hdlr = *find(bs, "hdlr"), &en = *find(bs, video ? (kind ? "hev1" : "avc1") : "mp4a");
                unsigned tb = video ? g->getTimeBase() : rate;
                CHECK(beN(d + mdhd.at + 12, 4) == tb, "time base %llu, expected %u", (unsigned long long)beN(d + mdhd.at + 12, 4), tb);
                CHECK(!memcmp(d + hdlr.at + 8, video ? "vide" : "soun", 4), "handler");
                CHECK(beN(d + trex.at + 4, 4) == 1 && beN(d + trex.at + 12, 4) == (video ? 0 : samples), "default sample duration %llu", (unsigned long long)beN(d + trex.at + 12, 4));
                if (video) {
                    CHECK(beN(d + tkhd.at + 76, 4) == (uint32_t)w << 16 && beN(d + tkhd.at + 80, 4) == (uint32_t)h << 16, "picture size in the track header");
                    CHECK(beN(d + en.at + 24, 2) == w && beN(d + en.at + 26, 2) == h, "picture size in the sample entry");
                    const Box& cf = en.sub[0];
                    CHECK(cf.len == conf.size() && !memcmp(d + cf.at, conf.data(), cf.len), "codec configuration");
                } else {
                    CHECK(beN(d + en.at + 16, 2) == ch && beN(d + en.at + 18, 2) == bits && beN(d + en.at + 24, 2) == (rate & 0xffff), "channels, sample size or rate");
                    const Box& es = en.sub[0]; const uint8_t* p = d + es.at + 4; size_t l = es.len - 4;
                    CHECK(p[0] == 3 && p[1] == l - 2 && p[5] == 4 && p[7] == 0x40, "stream descriptor");
                    CHECK(p[6] == 15 + conf.size() && p[20] == 5 && p[21] == conf.size() && !memcmp(p + 22, conf.data(), conf.size()), "decoder configuration");
                    CHECK(p[22 + conf.size()] == 6 && p[23 + conf.size()] == 1 && p[24 + conf.size()] == 2 && l == 25 + conf.size(), "stream descriptor end");
                }
                std::string all((const char*)d, n);
                if (round) CHECK(all == first, "two segments of the same parameters differ"); else first = all;
            }
            delete g;
        }
    }
    return vp::done();
}
