#include "common.h"
#include "modules/dasher/DashVideoSegmenterAVC.hh"
#include "modules/dasher/DashVideoSegmenterHEVC.hh"
using std::chrono::microseconds;
typedef std::vector<unsigned char> Bytes;
struct Pic { Bytes b; int w, h; int64_t pts, dts; bool timed; };
static int64_t frameTime(int64_t pts, int64_t dts) { return dts != -1 && dts <= pts ? dts : pts; }
int main(int argc, char** argv)
{
    vp::init(argc, argv);
    DashVideoSegmenter* gs[2] = {NULL, NULL};
    while (vp::more()) {
        vp::begin();
        bool hevc = vp::chance(50);
        DashVideoSegmenter*& g = gs[hevc];
        if (!g) g = hevc ? (DashVideoSegmenter*)new DashVideoSegmenterHEVC(std::chrono::seconds(3600), microseconds(0)) : new DashVideoSegmenterAVC(std::chrono::seconds(3600), microseconds(0));
        DashVideoSegmenterHEVC* H = (DashVideoSegmenterHEVC*)g; DashVideoSegmenterAVC* A = (DashVideoSegmenterAVC*)g;
        (hevc ? H->tmpFrame : A->tmpFrame)->setLength(0); g->currentIntra = g->previousIntra = false; g->extradata.clear();
        if (hevc) { H->vps.clear(); H->sps.clear(); H->pps.clear(); } else { A->sps.clear(); A->pps.clear(); }
        unsigned max = vp::chance(50) ? vp::range(1, 400) : LENGTH_H264_FRAME;
        (hevc ? H->vFrame : A->vFrame)->bufferMaxLen = max; (hevc ? H->tmpFrame : A->tmpFrame)->bufferMaxLen = max;
        InterleavedVideoFrame* f = InterleavedVideoFrame::createNew(hevc ? H265 : H264, 4096);
        Pic cur; cur.timed = false; bool key = false; std::map<int, Bytes> sets; Bytes conf;
        int64_t t = vp::range(0, 1000000);
        std::vector<int> types; if (hevc) types = {32, 33, 34, 39, 40, 35, 19, 20, 21, 0, 1, 2, 63}; else types = {7, 8, 6, 9, 5, 1, 1, 5, 2, 12, 31};
        vp::log("%s, room for %u bytes", hevc ? "HEVC" : "AVC", max);
        for (int n = vp::range(1, 80); n > 0; n--) {
            if (vp::chance(60)) t += vp::range(-5, 40000);
            int64_t pts = t, dts = vp::chance(30) ? -1 : t + (vp::chance(50) ? 0 : vp::range(-100, 100)); if (dts < -1) dts = -1;
            int w = vp::range(1, 64), h = vp::range(1, 64), type = types[vp::upto(types.size())], off = vp::chance(45) ? 4 : vp::chance(80) ? 3 : 0;
            unsigned len = vp::chance(20) ? vp::range(0, 3) : vp::range(1, 60);
            unsigned char* d = f->getDataBuf();
            for (int i = 0; i < 80; i++) d[i] = vp::chance(30) ? vp::range(0, 1) : vp::rnd();
            if (off) { memset(d, 0, off - 1); d[off - 1] = 1; }
            d[off] = hevc ? type << 1 | (vp::chance(50) ? 0x80 : 0) | (vp::rnd() & 1) : type | (vp::rnd() & 0xe0);
            if (!off) { off = !d[0] && !d[1] && d[2] == 1 ? 3 : !d[0] && !d[1] && !d[2] && d[3] == 1 ? 4 : 0; type = hevc ? (d[off] & 0x7e) >> 1 : d[off] & 31; }
            unsigned total = len + off; if (vp::chance(5)) total = vp::range(0, off);
            len = total > (unsigned)off ? total - off : 0;
            f->setLength(total); f->setSize(w, h); f->setPresentationTime(microseconds(pts)); f->setDecodeTime(microseconds(dts));
            vp::log("unit: type %d, start code %d, %u bytes, %02x %02x %02x %02x, %dx%d, times %lld %lld", type, off, len, d[0], d[1], d[2], d[3], w, h, (long long)pts, (long long)dts);
            Frame* r = g->manageFrame(f);
            bool slice, intra, delim, keep, known; int set = -1;
            if (hevc) { intra = type >= 19 && type <= 21; slice = intra || type <= 1; delim = type == 35; keep = delim || type == 40; if (type >= 32 && type <= 34) set = type; known = slice || keep || set >= 0 || type == 39; }
            else { intra = type == 5; slice = intra || type == 1; delim = type == 9; keep = delim; if (type == 7 || type == 8) set = type; known = slice || keep || set >= 0 || type == 6; }
            Pic out; bool expect = false; bool wasKey = key;
            if (len && known) {
                if (set >= 0) sets[set] = Bytes(d + off, d + total);
                bool full = cur.b.size() > 0 && (delim || frameTime(pts, dts) > frameTime(cur.pts, cur.dts));
                if (full) { out = cur; expect = true; cur.b.clear(); }
                if (!keep) key = intra;
                if (slice && cur.b.size() + len + 4 <= max) {
                    for (int i = 3; i >= 0; i--) cur.b.push_back(len >> 8 * i);
                    cur.b.insert(cur.b.end(), d + off, d + total);
                    cur.w = w; cur.h = h; cur.pts = pts; cur.dts = dts;
                }
            }
            CHECK((r != NULL) == expect, "%s", r ? "a frame that is not complete is handed out" : "a complete frame is not handed out");
            if (r) {
                VideoFrame* v = (VideoFrame*)r;
                CHECK(v->getLength() == out.b.size() && !memcmp(v->getDataBuf(), out.b.data(), out.b.size()), "frame of %u bytes, expected %zu, or other contents", v->getLength(), out.b.size());
                CHECK(v->getWidth() == out.w && v->getHeight() == out.h, "size %dx%d, expected %dx%d", v->getWidth(), v->getHeight(), out.w, out.h);
                CHECK(v->getPresentationTime().count() == out.pts && v->getDecodeTime().count() == out.dts, "times");
                CHECK(g->previousIntra == wasKey, "key mark %d, expected %d", g->previousIntra, wasKey);
            }
            InterleavedVideoFrame* tmp = hevc ? H->tmpFrame : A->tmpFrame;
            CHECK(tmp->getLength() == cur.b.size() && std::equal(cur.b.begin(), cur.b.end(), tmp->getDataBuf()), "the frame being assembled");
            size_t need = hevc ? 3 : 2; bool all = sets.size() == need && (hevc || sets[7].size() >= 3);
            if (all) {
                conf.clear();
                static const unsigned char h0[] = {1, 1, 0x60, 0, 0, 0, 0x90, 0, 0, 0, 0, 0, 93, 0xf0, 0, 0xfc, 0xf9, 0xf8, 0xf8, 0, 0, 0x0f, 3};
                if (hevc) conf.assign(h0, h0 + sizeof h0); else conf = {1, sets[7][0], sets[7][1], sets[7][2], 0xff, 0xe1};
                for (auto& s : sets) {
                    if (hevc) { conf.push_back(s.first); conf.push_back(0); conf.push_back(1); } else if (s.first == 8) conf.push_back(1);
                    conf.push_back(s.second.size() >> 8); conf.push_back(s.second.size()); conf.insert(conf.end(), s.second.begin(), s.second.end());
                }
                sets.clear();
            }
            CHECK(g->extradata == conf, "codec configuration of %zu bytes, expected %zu, or other contents", g->extradata.size(), conf.size());
        }
        delete f;
    }
    return vp::done();
}
