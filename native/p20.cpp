#include "common.h"
#include <cmath>
#include "modules/audioMixer/AudioMixer.hh"
#include "AudioCircularBuffer.hh"
#include "AudioFrame.hh"
#include "Jzon.h"
static float any(int wild)
{
    const float c[] = {0, 1, -1, 0.6f, -0.6f, 0.5f, 1.0001f, -1.5f, 1e30f, NAN, INFINITY, -INFINITY, -0.0f, 1e-40f, 2};
    if (vp::chance(wild)) return c[vp::upto(15)];
    return vp::range(-32768, 32768) / 32768.0f;
}
static float nearest(float v) { return v > 1 ? 1 : v >= 0 ? v : 0; }
static float full(float v) { return std::isnan(v) ? 0 : v > 1 ? 1 : v < -1 ? -1 : v; }
struct M : AudioMixer { using AudioMixer::doProcessFrame; };
static void request(AudioMixer* m, const char* action, int id, float gain, int have)
{
    Jzon::Object root, params;
    root.Add("action", action);
    if (have & 1) params.Add("id", id);
    if (have & 2) params.Add("gain", gain);
    root.Add("params", params);
    if (m->eventMap.count(action)) m->eventMap[action](&params);
}
int main(int argc, char** argv)
{
    vp::init(argc, argv);
    for (int v = -32768; v < 32768; v++) {
        unsigned char b[2] = {(unsigned char)v, (unsigned char)(v >> 8)}, c[2]; float f;
        CHECK(AudioMixer::bytesToFloat(b, f, S16P) && f >= -1 && f <= 1 && AudioMixer::floatToBytes(c, f, S16P) && !memcmp(b, c, 2), "the sample %d does not survive", v);
    }
    for (int i = -70000; i <= 70000; i++) {
        float f = i / 65536.0f; unsigned char c[2]; AudioMixer::floatToBytes(c, f, S16P); short r = c[0] | c[1] << 8;
        double w = f >= 1 ? 32767 : f <= -1 ? -32768 : f * 32768.0; CHECK(std::fabs(w - r) <= 1 && (w < 0 ? r <= 0 : r >= 0), "%g becomes %d", f, r);
    }
    float far = 0;
    while (vp::more()) {
        vp::begin();
        AudioMixer* m = new AudioMixer(4);
        CHECK(m->masterGain >= 0 && m->masterGain <= 1 && m->mixBufferMaxSamples == 4800 && m->outputSamples == 960, "a new mixer");
        std::map<int, float> want; std::map<int, AudioCircularBuffer*> bufs;
        int n = vp::range(0, 4);
        for (int i = 0; i < n; i++) {
            int id = vp::range(0, 6);
            if (want.count(id)) continue;
            ConnectionData cd; bufs[id] = AudioCircularBuffer::createNew(cd, 2, 48000, 1000, FLTP);
            CHECK(m->specificReaderConfig(id, bufs[id]), "a reader is rejected"); want[id] = 1;
        }
        float master = m->masterGain;
        long long now = vp::chance(50) ? vp::range(0, 1000000) : (long long)(vp::interesting() >> 20);
        if (vp::chance(20)) { m->syncTs = std::chrono::microseconds(now); m->front = m->rear = (vp::chance(50) ? (uint64_t)1 << 32 : vp::upto(1ull << 40)) - vp::range(0, 6000); now += (long long)((__int128)m->front * 1000000 / 48000) + 1; }
        PlanarAudioFrame* out = PlanarAudioFrame::createNew(2, 48000, 4800, PCM, FLTP);
        int wild = vp::chance(50) ? 10 : 0;
        for (int steps = vp::range(1, 14); steps--;) {
            if (vp::chance(30)) {
                int id = vp::range(-1, 7), have = vp::chance(80) ? 3 : vp::range(0, 3); float g = vp::chance(50) ? any(100) : vp::range(-100, 1100) / 1000.0f;
                bool has = want.count(id) && (have & 1); int k = vp::upto(6);
                vp::log("request %d, id %d, gain %g, given %d", k, id, g, have);
                float back = g; { std::stringstream s; s << g; s >> back; if (s.fail()) back = NAN; }
                if (k == 5 || std::isnan(g) || std::isinf(g)) { CHECK(m->setChannelGain(id, g) == (want.count(id) > 0), "the answer is wrong"); if (want.count(id)) want[id] = nearest(g); }
                else if (k == 0) { request(m, "changeChannelGain", id, g, have); if (has && (have & 2)) want[id] = nearest(back); }
                else if (k == 1) { request(m, "muteChannel", id, g, have); if (has) want[id] = 0; }
                else if (k == 2) { request(m, "soloChannel", id, g, have); if (has) for (auto& x : want) x.second = x.first == id; }
                else if (k == 3) { request(m, "changeMasterGain", id, g, have); if (have & 2) master = nearest(back); }
                else { request(m, "muteMaster", id, g, have); master = 0; }
                CHECK(m->gains.size() == want.size(), "the number of channels changed");
                for (auto& x : want) CHECK(std::fabs(m->gains[x.first] - x.second) < 1e-5 && m->gains[x.first] >= 0 && m->gains[x.first] <= 1, "the gain of channel %d is %g, not %g", x.first, m->gains[x.first], x.second);
                CHECK(std::fabs(m->masterGain - master) < 1e-5 && m->masterGain >= 0 && m->masterGain <= 1, "the master gain is %g, not %g", m->masterGain, master);
            }
            if (want.empty()) continue;
            auto it = want.begin(); std::advance(it, vp::upto(want.size())); int id = it->first;
            SampleFmt fmt = vp::chance(80) ? FLTP : vp::chance(90) ? S16P : U8P; int ch = vp::chance(95) ? 2 : 1;
            unsigned ns = vp::chance(70) ? 960 : vp::range(0, 4800);
            PlanarAudioFrame* f = PlanarAudioFrame::createNew(ch, 48000, ns ? ns : 1, PCM, fmt); f->setSamples(ns);
            for (int c = 0; c < ch; c++) for (unsigned j = 0; j < ns; j++) { float v = any(wild); short s = vp::rnd(); if (fmt == FLTP) memcpy(f->getPlanarDataBuf()[c] + 4 * j, &v, 4); else if (fmt == S16P) memcpy(f->getPlanarDataBuf()[c] + 2 * j, &s, 2); }
            if (vp::chance(60)) now += 20000; else if (vp::chance(30)) now += vp::range(-30000, 200000);
            f->setPresentationTime(std::chrono::microseconds(now));
            std::vector<float> old[2]; for (int c = 0; c < 2; c++) old[c].assign(m->mixBuffers[c], m->mixBuffers[c] + 4800);
            uint64_t fr = m->front, re = m->rear; long long sync = m->syncTs.count();
            bool acc = ch == 2 && 4800 - (re - fr) >= ns; uint64_t at = 0; bool re0 = false, ok = acc;
            if (acc) {
                if (sync < 0) sync = now;
                at = (now - sync) * 48000 / 1000000;
                if (at < fr) ok = false;
                else { if (at > fr + 4800 - ns) { re0 = true; at = fr = re = 0; sync = now; for (auto& o : old) o.assign(4800, 0); }
                    if (fmt == U8P && ns) ok = false; }
            }
            vp::log("%u samples of channel %d at %lld, format %d, %d planes, mixer holds %llu from %llu", ns, id, now, fmt, ch, (unsigned long long)(m->rear - m->front), (unsigned long long)m->front);
            bool r = m->pushToBuffer(id, f);
            CHECK(r == ok, "the frame is %s", r ? "mixed" : "rejected");
            if (ok) re = std::max<uint64_t>(re, at + ns);
            CHECK(m->front == fr && m->rear == re && m->syncTs.count() == sync, "the mixer holds samples %llu to %llu, not %llu to %llu", (unsigned long long)m->front, (unsigned long long)m->rear, (unsigned long long)fr, (unsigned long long)re);
            for (int c = 0; c < 2; c++) for (unsigned k = 0; k < 4800; k++) {
                float v = m->mixBuffers[c][k], o = old[c][k]; unsigned d = (k + 4800 - at % 4800) % 4800;
                CHECK(v >= -1 && v <= 1, "a mixed sample is %g", v);
                if (!ok || d >= ns) { CHECK(v == o, "a sample outside of the frame changed"); continue; }
                float s; if (fmt == FLTP) memcpy(&s, f->getPlanarDataBuf()[c] + 4 * d, 4); else { short x; memcpy(&x, f->getPlanarDataBuf()[c] + 2 * d, 2); s = x / 32768.0f; }
                float sum = o + full(s) * m->gains[id] * m->masterGain, t = 0.6f;
                CHECK(std::fabs(sum) <= t ? std::fabs(v - sum) < 1e-6 : sum > 0 ? v >= t - 1e-6 : v <= -t + 1e-6, "sample %u: %g and %g become %g", d, o, s, v);
                CHECK(((k + 4800 - m->front % 4800) % 4800) < m->rear - m->front || v == 0, "a cell outside of the waiting samples is not silent");
            }
            delete f;
            if (vp::chance(60)) {
                for (int c = 0; c < 2; c++) old[c].assign(m->mixBuffers[c], m->mixBuffers[c] + 4800);
                fr = m->front; out->setConsumed(false); std::map<int, Frame*> none;
                bool got = m->doProcessFrame(none, out, std::vector<int>());
                CHECK(got == (m->rear - fr >= 2880) && out->getConsumed() == got, "a frame is %sdelivered", got ? "" : "not ");
                if (got) {
                    CHECK(m->front == fr + 960 && out->getSamples() == 960 && out->getLength() == 3840 && out->getChannels() == 2 && out->getSampleRate() == 48000, "the delivered frame has the wrong size");
                    CHECK(out->getPresentationTime().count() == (long long)((__int128)fr * 1000000 / 48000) + m->syncTs.count(), "the delivered frame has the wrong time");
                }
                for (int c = 0; c < 2; c++) for (unsigned k = 0; k < 4800; k++) {
                    unsigned d = (k + 4800 - fr % 4800) % 4800; float v;
                    if (!got || d >= 960) { CHECK(m->mixBuffers[c][k] == old[c][k], "a waiting sample changed"); continue; }
                    memcpy(&v, out->getPlanarDataBuf()[c] + 4 * d, 4);
                    CHECK(v == old[c][k] && m->mixBuffers[c][k] == 0, "sample %u is delivered as %g, not %g", d, v, old[c][k]);
                    far = std::max(far, v);
                }
            }
        }
        for (auto& x : bufs) { CHECK(m->specificReaderDelete(x.first) && !m->specificReaderDelete(x.first), "a reader is not forgotten"); delete x.second; }
        delete out; delete m;
    }
    return vp::done();
}
