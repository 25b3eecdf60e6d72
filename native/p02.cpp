#include "common.h"
#include "AudioCircularBuffer.hh"
typedef std::chrono::microseconds us;
static void threads()
{
    unsigned ch = vp::range(1, 2), bps = 2;
    ConnectionData cd; cd.wFilterId = 1; cd.readers.push_back(ReaderData());
    AudioCircularBuffer* b = AudioCircularBuffer::createNew(cd, ch, 48000, 1000, S16P);
    CHECK(b, "no buffer");
    unsigned n = vp::range(1, 64), ops = 30000;
    b->setOutputFrameSamples(n);
    std::atomic<bool> stop(false);
    uint64_t in = 0, out = 0; bool bad = false;
    vp::log("a writer and a reader thread, blocks of %u samples", n);
    std::thread w([&] {
        for (unsigned i = 0; i < ops; i++) {
            auto f = (PlanarAudioFrame*)b->getRear();
            f->setSamples(n);
            for (unsigned c = 0; c < ch; c++) for (unsigned k = 0; k < n; k++) ((uint16_t*)f->frameBuff[c])[k] = (uint16_t)((in + k) * 7 + c);
            f->setPresentationTime(us(in * 1000000 / 48000));
            if (!b->addFrame().empty()) in += n; else std::this_thread::yield();
        }
        stop = true;
    });
    std::thread r([&] {
        while (!bad) {
            bool last = stop;
            auto f = (PlanarAudioFrame*)b->getFront();
            if (!f) { if (last) break; std::this_thread::yield(); continue; }
            for (unsigned c = 0; c < ch; c++) for (unsigned k = 0; k < n; k++) if (((uint16_t*)f->frameBuff[c])[k] != (uint16_t)((out + k) * 7 + c)) bad = true;
            out += n;
            b->removeFrame();
        }
    });
    w.join(); r.join();
    CHECK(!bad, "a reader thread got other samples than the writer thread stored");
    CHECK(b->elements == (in - out) * bps, "after a writer and a reader thread: %u bytes stored, expected %llu", b->elements, (unsigned long long)((in - out) * bps));
    CHECK(in - out < n, "samples stay in the buffer");
    delete b;
}
int main(int argc, char** argv)
{
    vp::init(argc, argv);
    while (vp::more()) {
        vp::begin();
        if (vp::chance(2)) { threads(); continue; }
        unsigned ch = vp::chance(10) ? vp::range(0, 5) : vp::range(1, 2);
        static const unsigned R[] = {8000, 16000, 22050, 32000, 44100, 48000, 96000, 0};
        unsigned rate = R[vp::range(0, vp::chance(5) ? 7 : 6)], mx = vp::chance(70) ? vp::range(1, 400) : vp::chance(50) ? 32768 : vp::range(1, 9000);
        static const SampleFmt F[] = {U8P, S16P, FLTP, S16};
        int fi = vp::range(0, vp::chance(5) ? 3 : 2);
        ConnectionData cd; cd.wFilterId = vp::range(1, 1000);
        int nr = vp::range(0, 3);
        for (int i = 0; i < nr; i++) { ReaderData r; r.rFilterId = vp::range(1, 1000); r.readerId = i; cd.readers.push_back(r); }
        vp::log("buffer: %u channels, %u Hz, %u ms, format %d", ch, rate, mx, fi);
        AudioCircularBuffer* b = AudioCircularBuffer::createNew(cd, ch, rate, mx, F[fi]);
        bool ok = ch >= 1 && ch <= 2 && rate && fi < 3;
        CHECK(!b == !ok, "buffer %s", b ? "created" : "refused");
        if (!b) continue;
        unsigned bps = fi == 0 ? 1 : fi == 1 ? 2 : 4;
        uint64_t L = (uint64_t)mx * (rate / 1000) * bps, base = 0;
        int64_t thr = 64000000ll / rate, sync = 0; bool synced = false;
        CHECK(b->channelMaxLength == L, "capacity %u, expected %llu", b->channelMaxLength, (unsigned long long)L);
        if (vp::chance(40)) {    // a buffer that has been running for long
            base = (vp::chance(50) ? vp::interesting() % (1ull << 40) : (uint64_t)vp::range(0, 3) * (1ull << 32) + vp::range(-200, 200) * 1ull) & ((1ull << 40) - 1);
            b->front = b->rear = base * bps; sync = vp::range(0, 1000000000); b->syncTimestamp = us(sync); b->synchronized = synced = true;
            vp::log("%llu samples before", (unsigned long long)base);
        }
        std::deque<uint8_t> q[2]; uint64_t rear = base, front = base; size_t lost = 0; bool have = false; int64_t outts = 0; std::vector<uint8_t> shown[2];
        unsigned outn = b->outputFrame->getSamples();
        CHECK(outn == rate / 50, "default output of %u samples", outn);
        auto T = [&](uint64_t s) { return (int64_t)((__int128)s * 1000000 / rate) + sync; };
        unsigned fmax = b->inputFrame->getMaxLength() / bps;
        CHECK(fmax >= rate / 10, "frames hold %u samples", fmax);
        uint8_t v = vp::rnd();
        for (int n = vp::range(1, 120); n > 0; n--) {
            unsigned k = vp::range(0, 99);
            if (k < 55) {
                auto f = (PlanarAudioFrame*)b->getRear();
                CHECK(f == b->inputFrame, "other frame to write");
                unsigned s = vp::chance(70) ? std::min<uint64_t>(fmax, vp::range(0, 2 * mx)) : vp::chance(50) ? fmax : vp::range(0, fmax);
                if (vp::chance(20)) s = std::min<uint64_t>(fmax, (L - q[0].size()) / bps + vp::range(-1, 1));
                int64_t d = vp::chance(60) ? 0 : vp::chance(40) ? vp::range(-2, 2) * thr + vp::range(-2, 2) : vp::chance(50) ? vp::range(0, 2 * (int64_t)mx + 2) * 1000000 / rate + vp::range(-3, 3) : vp::chance(70) ? (int64_t)(vp::interesting() & 0xffffffffffull) : -(int64_t)(vp::interesting() & 0xffffff);
                if (vp::chance(2)) d = (int64_t)((((__int128)1 << 32) * vp::range(1, 3) + vp::range(0, mx)) * 1000000 / rate);
                if (!synced) d = 0;
                int64_t ts = synced ? T(rear) + d : vp::range(0, 1ll << 40);
                f->setSamples(s); f->setPresentationTime(us(ts)); f->setOriginTime(std::chrono::system_clock::time_point(us(ts)));
                for (unsigned c = 0; c < ch; c++) for (unsigned i = 0; i < s * bps; i++) f->frameBuff[c][i] = v += 37;
                vp::log("add %u samples at %lld (%+lld)", s, (long long)ts, (long long)d);
                std::vector<int> r = b->addFrame();
                if (!synced) { sync = ts; synced = true; }
                bool in = false;
                int64_t dev = ts - T(rear);
                if (dev < -thr) ;
                else {
                    int64_t pad = dev > thr ? (int64_t)((__int128)dev * rate / 1000000) : 0;
                    if (dev > thr && pad >= (int64_t)mx) { rear = front = 0; for (auto& x : q) x.clear(); synced = false; lost++; }
                    else if (pad * bps + q[0].size() <= L) {
                        for (unsigned c = 0; c < ch; c++) for (int64_t i = 0; i < pad * bps; i++) q[c].push_back(0);
                        rear += pad;
                        if (q[0].size() + s * bps <= L) {
                            for (unsigned c = 0; c < ch; c++) q[c].insert(q[c].end(), f->frameBuff[c], f->frameBuff[c] + s * bps);
                            rear += s; in = true;
                        }
                    }
                }
                CHECK(r.size() == (in ? (size_t)nr : 0), "%zu consumers notified of a frame that was %s", r.size(), in ? "stored" : "not stored");
                size_t i = 0;
                if (in) for (auto& x : cd.readers) CHECK(r[i++] == x.rFilterId, "other consumer notified");
            } else if (k < 80) {
                if (!have && vp::chance(40)) { outn = vp::chance(50) ? std::min<uint64_t>(fmax, q[0].size() / bps + vp::range(0, 1)) : vp::range(1, fmax); if (!outn) outn = 1; b->setOutputFrameSamples(outn); }
                vp::log("read %u samples", outn);
                Frame* f = b->getFront();
                if (have) CHECK(f, "frame taken back before it was released");
                else {
                    bool there = q[0].size() >= outn * bps;
                    CHECK(!f == !there, "%s with %zu bytes stored", f ? "frame" : "no frame", q[0].size());
                    if (f) {
                        have = true; outts = T(front); front += outn;
                        for (unsigned c = 0; c < ch; c++) { shown[c].assign(q[c].begin(), q[c].begin() + outn * bps); q[c].erase(q[c].begin(), q[c].begin() + outn * bps); }
                    }
                }
                if (f) {
                    CHECK(f == b->outputFrame, "other frame");
                    CHECK(f->getPresentationTime().count() == outts, "frame has time %lld, expected %lld", (long long)f->getPresentationTime().count(), (long long)outts);
                    for (unsigned c = 0; c < ch; c++) CHECK(!memcmp(f->getPlanarDataBuf()[c], shown[c].data(), shown[c].size()), "channel %u: other samples than were stored", c);
                }
            } else if (k < 95) { vp::log("release"); CHECK(b->removeFrame() == cd.wFilterId, "other producer"); have = false; }
            else if (k < 97) { vp::log("flush"); b->doFlush(); rear = front = 0; synced = false; for (auto& x : q) x.clear(); }
            CHECK(b->elements == q[0].size(), "%u bytes stored, expected %zu", b->elements, q[0].size());
            CHECK(b->getFreeSamples() == (int)((L - q[0].size()) / bps), "%d free samples, expected %llu", b->getFreeSamples(), (unsigned long long)((L - q[0].size()) / bps));
            CHECK(b->getElements() == q[0].size() / (outn * bps), "%u frames, expected %zu", b->getElements(), q[0].size() / (outn * bps));
            CHECK(b->getLostBlocs() == lost, "%zu flushes counted, expected %zu", b->getLostBlocs(), lost);
        }
        delete b;
    }
    return vp::done();
}
