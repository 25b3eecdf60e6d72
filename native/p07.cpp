#include "boxes.h"
extern "C" {
#include "modules/dasher/i2libdash.h"
#include "modules/dasher/i2libisoff.h"
}
static std::vector<uint8_t> out(MAX_DAT + 16 * MAX_MDAT_SAMPLE + 4096), data(MAX_DAT + 16);
int main(int argc, char** argv)
{
    vp::init(argc, argv);
    for (size_t i = 0; i < data.size(); i++) data[i] = (uint8_t)(i * 2654435761u >> 13);
    while (vp::more()) {
        vp::begin();
        bool video = vp::chance(60);
        uint32_t type = video ? (vp::chance(50) ? VIDEO_TYPE_AVC : VIDEO_TYPE_HEVC) : AUDIO_TYPE;
        i2ctx* c = NULL;
        CHECK(generate_context(&c, type) == I2OK, "no context");
        i2ctx_sample* s = video ? c->ctxvideo->ctxsample : c->ctxaudio->ctxsample;
        for (int round = vp::range(1, 3); round > 0; round--) {
        uint32_t k = vp::chance(2) ? MAX_MDAT_SAMPLE : vp::chance(20) ? vp::range(0, 3000) : vp::range(0, 40), n = k ? vp::chance(2) ? MAX_DAT : vp::range(1, 40000) : vp::range(1, 100);
        uint32_t dur = vp::interesting(), seq = vp::interesting(), tb = vp::interesting();
        uint64_t ept = vp::interesting();
        if (video) { c->ctxvideo->current_video_duration = dur; c->ctxvideo->sequence_number = seq; c->ctxvideo->time_base = tb; c->ctxvideo->earliest_presentation_time = ept; }
        else { c->ctxaudio->current_audio_duration = dur; c->ctxaudio->sequence_number = seq; c->ctxaudio->time_base = tb; c->ctxaudio->earliest_presentation_time = ept; }
        s->mdat_sample_length = k;
        for (uint32_t i = 0; i < k; i++) {
            auto& e = s->mdat[i];
            e.size = vp::interesting(); e.duration = vp::interesting(); e.key = vp::chance(20); e.decode_timestamp = vp::interesting(); e.presentation_timestamp = e.decode_timestamp + vp::range(-5000, 5000);
        }
        uint32_t off = vp::upto(data.size() - n + 1);
        vp::log("%s, %u samples, %u bytes, duration %u, sequence number %u, time %llu, time base %u", video ? "video" : "audio", k, n, dur, seq, (unsigned long long)ept, tb);
        uint32_t r = segmentGenerator(&data[off], n, out.data(), type, &c);
        CHECK(r > 10 && r <= out.size(), "length %u", r);
        const uint8_t* d = out.data();
        auto bs = boxes(d, 0, r, "the segment");
        CHECK(shape(bs) == "styp sidx moof(mfhd traf(tfhd tfdt trun)) mdat", "boxes %s", shape(bs).c_str());
        const Box &mfhd = *find(bs, "mfhd"), &tfdt = *find(bs, "tfdt"), &trun = *find(bs, "trun"), &mdat = *find(bs, "mdat"), &sidx = *find(bs, "sidx"), &moof = *find(bs, "moof"), &tfhd = *find(bs, "tfhd");
        CHECK(mfhd.len == 8 && beN(d + mfhd.at, 4) == 0 && beN(d + mfhd.at + 4, 4) == seq, "sequence number");
        CHECK(tfhd.len == 8 && beN(d + tfhd.at, 4) == 0x20000 && beN(d + tfhd.at + 4, 4) == 1, "track header");
        CHECK(tfdt.len == 12 && beN(d + tfdt.at, 4) == 1 << 24 && beN(d + tfdt.at + 4, 8) == ept, "base decode time");
        CHECK(sidx.len == 44 && beN(d + sidx.at, 4) == 1 << 24 && beN(d + sidx.at + 4, 4) == 1 && beN(d + sidx.at + 8, 4) == tb, "index");
        CHECK(beN(d + sidx.at + 12, 8) == ept && beN(d + sidx.at + 20, 8) == 0 && beN(d + sidx.at + 28, 4) == 1, "index: time");
        CHECK(beN(d + sidx.at + 32, 4) == r - (moof.at - 8) && c->reference_size == r - (moof.at - 8), "index: referenced size");
        CHECK(beN(d + sidx.at + 36, 4) == dur && beN(d + sidx.at + 40, 4) == 0x90000000, "index: duration");
        unsigned w = video ? 16 : 8;
        CHECK(trun.len == 12 + (uint64_t)k * w, "fragment run of %zu bytes for %u samples", trun.len, k);
        CHECK(beN(d + trun.at, 4) == (video ? 0xf01 : 0x301) && beN(d + trun.at + 4, 4) == k, "fragment run: flags or sample count");
        CHECK(beN(d + trun.at + 8, 4) == mdat.at - (moof.at - 8), "data offset %llu, the payload is at %zu", (unsigned long long)beN(d + trun.at + 8, 4), mdat.at - (moof.at - 8));
        for (uint32_t i = 0; i < k; i++) {
            auto& e = s->mdat[i]; const uint8_t* p = d + trun.at + 12 + (size_t)i * w;
            CHECK(beN(p, 4) == e.duration && beN(p + 4, 4) == e.size, "sample %u: duration or size", i);
            if (video) CHECK(beN(p + 8, 4) == (e.key ? 0 : 0x10000u) && beN(p + 12, 4) == (uint32_t)(e.presentation_timestamp - e.decode_timestamp), "sample %u: flags or composition offset", i);
        }
        CHECK(mdat.len == n && !memcmp(d + mdat.at, &data[off], n), "payload");
        CHECK(segmentGenerator(NULL, n, out.data(), type, &c) <= 10 && segmentGenerator(&data[off], 0, out.data(), type, &c) <= 10 && segmentGenerator(&data[off], n, NULL, type, &c) <= 10 && segmentGenerator(&data[off], n, out.data(), 77, &c) <= 10, "an error is not reported");
        context_refresh(&c, type);
        }
        free(s); free(c->ctxvideo); free(c->ctxaudio); free(c);
    }
    return vp::done();
}
