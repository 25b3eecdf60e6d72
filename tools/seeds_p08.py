from seedlib import *
F = D + 'i2libisoff.c'
H = '''
#include <cstring>
#include <cstdio>
#include <string>
#include "modules/dasher/DashVideoSegmenterAVC.hh"
#include "modules/dasher/DashVideoSegmenterHEVC.hh"
#include "modules/dasher/DashAudioSegmenter.hh"
static uint64_t be(const unsigned char* p, int n) { uint64_t r = 0; while (n--) r = r << 8 | *p++; return r; }
static unsigned char* box(DashSegment& s, const char* t) { unsigned char* b = s.getDataBuffer(); for (uint32_t i = 0; i + 8 < s.getDataLength(); i++) if (!memcmp(b + i + 4, t, 4)) return b + i; return NULL; }
'''
seed('p08-large-configuration', 'P08', [(F, '''    uint32_t count, size, hton_size;
    
    count = 0;

    size = ctxVideo->pps_sps_data_length + 8;
    hton_size = htonl(size);

    // box size
    memcpy(data + count, &hton_size, 4);
    count+= 4;

    // box type
    memcpy(data + count, "hvcC", BOX_TYPE_SIZE);''', '''    uint32_t count, hton_size;
    uint8_t size;
    
    count = 0;

    size = ctxVideo->pps_sps_data_length + 8;
    hton_size = htonl(size);

    // box size
    memcpy(data + count, &hton_size, 4);
    count+= 4;

    // box type
    memcpy(data + count, "hvcC", BOX_TYPE_SIZE);''')], H + '''
int main() { for (unsigned n : {50u, 247u, 248u, 1000u}) {
        DashVideoSegmenterHEVC g(std::chrono::seconds(2), std::chrono::microseconds(0)); DashSegment s; g.setup(640, 480);
        g.extradata.assign(n, 7); if (!g.generateInitSegment(&s)) return 2;
        unsigned char* b = box(s, "hvcC"); if (!b || be(b, 4) != n + 8) return 1; }
    return 0; }
''', DASH_SRC, 'HEVC parameter sets of 248 bytes and more', 'the box of the codec configuration states its length modulo 256', libs=DASH_LIBS)
seed('p08-wide-picture', 'P08', [(F, 'flag32 = context->ctxvideo->width << 16;', 'flag32 = (context->ctxvideo->width & 0xFFF) << 16;')], H + '''
int main() { for (unsigned w : {16u, 1920u, 3840u, 4096u, 7680u}) {
        DashVideoSegmenterAVC g(std::chrono::seconds(2), std::chrono::microseconds(0)); DashSegment s; g.setup(w, 480);
        g.extradata.assign(40, 7); if (!g.generateInitSegment(&s)) return 2;
        unsigned char* b = box(s, "tkhd"); if (!b || be(b + 84, 4) != (w << 16) || be(b + 88, 4) != (480u << 16)) return 1; }
    return 0; }
''', DASH_SRC, 'a picture 4096 pixels wide or wider', 'the track header states a wrong width', libs=DASH_LIBS)
seed('p08-sample-duration', 'P08', [(D + 'i2libdash.c', '    (*context)->ctxaudio->sample_duration = sample_duration;', '    if (sample_duration < sample_rate / 40) {\n        (*context)->ctxaudio->sample_duration = sample_duration;\n    }')], H + '''
int main() { for (unsigned rate : {48000u, 44100u, 24000u, 16000u}) {
        DashAudioSegmenter g(std::chrono::seconds(2), std::chrono::microseconds(0)); DashSegment s; g.setup(2, rate, 1024, 16);
        g.extradata.assign(2, 0x12); if (!g.generateInitSegment(&s)) return 2;
        unsigned char *b = box(s, "mdhd"), *x = box(s, "trex"); if (!b || be(b + 20, 4) != rate || !x || be(x + 20, 4) != 1024) return 1; }
    return 0; }
''', DASH_SRC, 'an audio stream of 40960 Hz or less', 'the initialisation segment states an undefined sample duration', libs=DASH_LIBS)
