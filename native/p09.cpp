#include "common.h"
extern "C" {
#include "modules/dasher/i2libdash.h"
}
struct S { uint32_t size, dur; uint64_t pts, dts; unsigned key; };
static std::vector<uint8_t> out(MAX_DAT + 16 * MAX_MDAT_SAMPLE + 4096), data(MAX_DAT + 4096);
static uint32_t be(const uint8_t* p) { return p[0] << 24 | p[1] << 16 | p[2] << 8 | p[3]; }
int main(int argc, char** argv)
{
    vp::init(argc, argv);
    for (size_t i = 0; i < data.size(); i++) data[i] = (uint8_t)(i * 2654435761u >> 13);
    while (vp::more()) {
        vp::begin();
        bool video = vp::chance(50), big = vp::chance(15);
        i2ctx* c = NULL;
        uint32_t type = video ? (vp::chance(50) ? VIDEO_TYPE_AVC : VIDEO_TYPE_HEVC) : AUDIO_TYPE;
        CHECK(generate_context(&c, type) == I2OK && c, "no context");
        CHECK(video ? c->ctxvideo && !c->ctxaudio : c->ctxaudio && !c->ctxvideo, "wrong media context");
        uint32_t target = vp::range(1, 2000); set_segment_duration(target, &c);
        std::vector<S> m; std::string pay; uint64_t t = vp::chance(50) ? vp::interesting() : vp::range(0, 100000); uint32_t seq0 = 0; uint64_t ept = 0; uint32_t cur = 0;
        i2ctx_sample* s = video ? c->ctxvideo->ctxsample : c->ctxaudio->ctxsample;
        vp::log("%s context, target %u", video ? "video" : "audio", target);
        auto check = [&](const char* w) {
            CHECK(s->mdat_sample_length == m.size(), "%s: %u samples, expected %zu", w, s->mdat_sample_length, m.size());
            CHECK((video ? c->ctxvideo->segment_data_size : c->ctxaudio->segment_data_size) == pay.size(), "%s: payload of %u bytes, expected %zu", w, video ? c->ctxvideo->segment_data_size : c->ctxaudio->segment_data_size, pay.size());
            CHECK((video ? c->ctxvideo->current_video_duration : c->ctxaudio->current_audio_duration) == cur, "%s: duration %u, expected %u", w, video ? c->ctxvideo->current_video_duration : c->ctxaudio->current_audio_duration, cur);
            if (!m.empty()) {
                CHECK((video ? c->ctxvideo->earliest_presentation_time : c->ctxaudio->earliest_presentation_time) == ept, "%s: time of the first sample", w);
                CHECK((video ? c->ctxvideo->sequence_number : c->ctxaudio->sequence_number) == seq0, "%s: sequence number", w);
            }
            CHECK(!memcmp(video ? c->ctxvideo->segment_data : c->ctxaudio->segment_data, pay.data(), pay.size()), "%s: payload changed", w);
            size_t from = m.size() > 300 ? m.size() - 300 : 0;
            for (size_t i = from; i < m.size(); i++) {
                auto& e = s->mdat[i];
                CHECK(e.size == m[i].size && e.presentation_timestamp == m[i].pts && e.decode_timestamp == m[i].dts && e.key == m[i].key, "%s: sample %zu changed", w, i);
                if (!video || i + 1 < m.size()) CHECK(e.duration == m[i].dur, "%s: sample %zu has duration %u, expected %u", w, i, e.duration, m[i].dur);
            }
        };
        int many = vp::chance(3) ? 70000 : vp::range(1, 60);
        for (int n = many; n > 0; n--) {
            if (many < 100 && vp::chance(25)) {     // generate
                uint64_t ts = 77; uint32_t d = 88;
                uint32_t r; bool cut; std::string w;
                if (video) {
                    uint8_t intra = vp::chance(5) ? 2 : vp::chance(60);
                    uint32_t nxt = (uint32_t)t + vp::range(0, 3) * (target / 4);
                    vp::log("generate video: next intra %u at %u", intra, nxt);
                    r = generate_video_segment(intra, nxt, out.data(), &c, &ts, &d);
                    if (intra > 1) { CHECK(r && r <= I2ERROR_MAX, "flag %u accepted", intra); check("generate"); continue; }
                    cut = false;
                    if (!m.empty() && intra) {
                        int64_t last = (int32_t)(nxt - (uint32_t)m.back().pts);
                        cut = (int64_t)target <= (int64_t)cur + 2 * last;
                        if (cut) { m.back().dur = (uint32_t)last; cur += (uint32_t)last; }
                    }
                } else if (vp::chance(15)) { vp::log("force audio"); r = force_generate_audio_segment(out.data(), &c, &ts, &d); cut = !m.empty(); if (!cut) { CHECK(r <= I2ERROR_MAX, "empty segment of %u bytes", r); check("force"); continue; } }
                else { vp::log("generate audio"); r = generate_audio_segment(out.data(), &c, &ts, &d); cut = target <= cur; }
                if (cut) {
                    CHECK(r > I2ERROR_MAX, "no segment though due");
                    CHECK(r > pay.size() && r < pay.size() + 16 * m.size() + 1024, "segment of %u bytes for a payload of %zu", r, pay.size());
                    CHECK(!memcmp(&out[r - pay.size()], pay.data(), pay.size()), "the segment's payload is not that of its samples");
                    CHECK(be(&out[r - pay.size() - 8]) == pay.size() + 8, "payload size");
                    CHECK(d == cur, "the segment has duration %u, its samples %u", d, cur);
                    CHECK(ts == ept, "the segment starts at %llu, its first sample at %llu", (unsigned long long)ts, (unsigned long long)ept);
                    m.clear(); pay.clear(); cur = 0;
                } else { CHECK(r == 0 && ts == 77 && d == 88, "a segment though not due (result %u)", r); }
                check("generate");
                continue;
            }
            uint32_t len = vp::chance(5) ? 0 : big ? vp::range(1 << 20, 1 << 22) : many > 100 ? 1 : vp::chance(1) ? data.size() : vp::range(1, 3000);
            uint32_t off = vp::upto(data.size() - len + 1);
            uint8_t intra = vp::chance(3) ? 2 : vp::chance(60);
            uint32_t dur = vp::chance(5) ? 0 : vp::range(1, 500), seq = vp::rnd();
            t += dur;
            uint64_t dts = t, pts = video ? t + vp::range(0, 100) : t;
            bool full = m.size() >= MAX_MDAT_SAMPLE || pay.size() + len > MAX_DAT;
            if (many < 100) vp::log("add %u bytes, time %llu, intra %u, duration %u", len, (unsigned long long)pts, intra, dur);
            bool bad = !len || full || (video ? intra > 1 || (m.empty() && !intra) : !dur);
            const bool nul = vp::chance(1);
            uint32_t r = video ? add_video_sample(nul ? NULL : &data[off], len, pts, dts, seq, intra, &c) : add_audio_sample(nul ? NULL : &data[off], len, dur, pts, dts, seq, &c);
            CHECK((r == I2OK) == !(bad || nul), "sample %s (result %u)", r == I2OK ? "accepted" : "rejected", r);
            if (!bad && !nul) {
                if (m.empty()) { ept = pts; seq0 = seq; if (video) cur = 0; }
                else if (video) { m.back().dur = dts - m.back().dts; cur += m.back().dur; }
                if (!video) cur += dur;
                m.push_back({len, dur, pts, dts, video ? intra : 1u});
                pay.append((char*)&data[off], len);
            }
            if (many < 100 || n % 5000 == 0 || m.size() > 65530) check("add");
        }
        if (vp::chance(50)) { context_refresh(&c, type); m.clear(); pay.clear(); cur = 0; check("refresh"); }
        free(s); free(c->ctxvideo); free(c->ctxaudio); free(c);
    }
    return vp::done();
}
