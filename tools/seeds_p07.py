from seedlib import *
F = D + 'i2libisoff.c'
SRC = [D + 'i2libdash.c', F]
H = '''
#include <cstring>
#include <cstdio>
#include <vector>
extern "C" {
#include "modules/dasher/i2libdash.h"
}
static byte buf[MAX_DAT + 65536 * 16 + 4096]; static byte d[100000]; static uint64_t ts; static uint32_t du;
static uint64_t be(const byte* p, int n) { uint64_t r = 0; while (n--) r = r << 8 | *p++; return r; }
static byte* box(const char* t, uint32_t n) { for (uint32_t i = 0; i + 8 < n; i++) if (!memcmp(buf + i + 4, t, 4)) return buf + i; return NULL; }
'''
L = '-Wl,--unresolved-symbols=ignore-all'
seed('p07-run-offset-width', 'P07', [(F, 'offset = (trun_pos - moof_pos) + 20 + (sample_num * nitems * 4) + 8;', 'uint16_t run_size = 20 + sample_num * nitems * 4;\n    offset = (trun_pos - moof_pos) + run_size + 8;')], H + '''
int main() { i2ctx* c; generate_context(&c, VIDEO_TYPE_AVC); set_segment_duration(5000 * 10, &c);
    for (int i = 0; i < 5000; i++) if (add_video_sample(d, 7, i * 10, i * 10, 1, i == 0, &c)) return 2;
    uint32_t n = generate_video_segment(1, 50000, buf, &c, &ts, &du);
    if (n <= 10) return 3;
    byte *m = box("moof", n), *t = box("trun", n), *p = box("mdat", n);
    return m && t && p && be(t + 16, 4) == (uint64_t)(p + 8 - m) && n == (uint64_t)(p + 8 - buf) + 5000 * 7 ? 0 : 1; }
''', SRC, 'a video segment of more than 4094 samples', 'the data offset of the fragment run is cut to 16 bits and points into the fragment run', libs=L)
seed('p07-negative-composition', 'P07', [(F, 'composition_offset = samples->mdat[i].presentation_timestamp - samples->mdat[i].decode_timestamp;', '''composition_offset = samples->mdat[i].presentation_timestamp > samples->mdat[i].decode_timestamp ?
                samples->mdat[i].presentation_timestamp - samples->mdat[i].decode_timestamp : 0;''')], H + '''
int main() { i2ctx* c; generate_context(&c, VIDEO_TYPE_HEVC); set_segment_duration(100, &c);
    uint32_t pts[] = {40, 120, 60, 80}, dts[] = {0, 40, 80, 90};
    for (int i = 0; i < 4; i++) if (add_video_sample(d, 7, pts[i], dts[i], 1, i == 0, &c)) return 2;
    uint32_t n = generate_video_segment(1, 160, buf, &c, &ts, &du);
    if (n <= 10) return 3;
    byte *t = box("trun", n);
    for (int i = 0; i < 4; i++) if ((int32_t)be(t + 20 + 16 * i + 12, 4) != (int32_t)(pts[i] - dts[i])) return 1;
    return 0; }
''', SRC, 'a picture presented before its decode time (decode times offset against presentation times)', 'a negative composition offset becomes zero', libs=L)
seed('p07-late-stream', 'P07', [(F, '    hton_earliest_presentation_time = htonl_64(earliest_presentation_time);\n    memcpy(data + count, &hton_earliest_presentation_time, sizeof(earliest_presentation_time));\n    count+= sizeof(earliest_presentation_time);\n\n    return count;',
  '    hton_earliest_presentation_time = htonl_64((int) earliest_presentation_time);\n    memcpy(data + count, &hton_earliest_presentation_time, sizeof(earliest_presentation_time));\n    count+= sizeof(earliest_presentation_time);\n\n    return count;')], H + '''
int main() { uint64_t t[] = {0, 1000000, 0x7fffffffull, 0x80000000ull, 0x123456789aull};
    for (uint64_t t0 : t) {
        i2ctx* c; generate_context(&c, AUDIO_TYPE); set_segment_duration(1024, &c);
        if (add_audio_sample(d, 7, 1024, t0, t0, 1, &c)) return 2;
        uint32_t n = generate_audio_segment(buf, &c, &ts, &du);
        if (n <= 10 || ts != t0) return 3;
        byte *p = box("tfdt", n), *s = box("sidx", n);
        if (be(p + 12, 8) != t0 || be(s + 20, 8) != t0) return 1;
    }
    return 0; }
''', SRC, 'a stream running for more than 2^31 units of its time base (12 hours at 48 kHz)', 'the base decode time of the fragment is cut to 32 bits', libs=L)
