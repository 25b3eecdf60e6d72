from seedlib import seed
F = 'src/modules/dasher/i2libdash.c'
SRC = [F, 'src/modules/dasher/i2libisoff.c']
D = '''
extern "C" {
#include "modules/dasher/i2libdash.h"
}
static byte buf[MAX_DAT + 65536 * 16 + 4096]; static byte d[1000]; static uint64_t ts; static uint32_t du;
'''
seed('p09-reordered-duration', 'P09', [(F, 'sample_duration = dts - ctxSample->mdat[samp_len-1].decode_timestamp;', 'sample_duration = pts - ctxSample->mdat[samp_len-1].presentation_timestamp;')], D + '''
int main() { i2ctx* c; generate_context(&c, VIDEO_TYPE_AVC); set_segment_duration(100, &c);
    add_video_sample(d, 10, 20, 0, 1, 1, &c); add_video_sample(d, 10, 60, 20, 2, 0, &c); add_video_sample(d, 10, 40, 40, 3, 0, &c);
    return c->ctxvideo->ctxsample->mdat[0].duration == 20 && c->ctxvideo->ctxsample->mdat[1].duration == 20 && c->ctxvideo->current_video_duration == 40 ? 0 : 1; }
''', SRC, 'pictures whose decode order differs from their presentation order', 'the duration of a video sample is taken from presentation times', libs='-Wl,--unresolved-symbols=ignore-all')
seed('p09-force-keeps', 'P09', [(F, '''    segDataLength = segmentGenerator((*context)->ctxaudio->segment_data, (*context)->ctxaudio->segment_data_size, output_data, AUDIO_TYPE, context);

    if (segDataLength <= I2ERROR_MAX) {
        return segDataLength;
    }

    *segmentDuration = (*context)->ctxaudio->current_audio_duration;
    *segmentTimestamp = (*context)->ctxaudio->earliest_presentation_time;
    context_refresh(context, AUDIO_TYPE);

    return segDataLength;
''', '''    segDataLength = segmentGenerator((*context)->ctxaudio->segment_data, (*context)->ctxaudio->segment_data_size, output_data, AUDIO_TYPE, context);

    if (segDataLength <= I2ERROR_MAX) {
        return segDataLength;
    }

    *segmentDuration = (*context)->ctxaudio->current_audio_duration;
    *segmentTimestamp = (*context)->ctxaudio->earliest_presentation_time;
    if ((*context)->duration <= (*context)->ctxaudio->current_audio_duration) {
        context_refresh(context, AUDIO_TYPE);
    }

    return segDataLength;
''')], D + '''
int main() { i2ctx* c; generate_context(&c, AUDIO_TYPE); set_segment_duration(100, &c);
    add_audio_sample(d, 10, 30, 0, 0, 1, &c); add_audio_sample(d, 10, 30, 30, 30, 2, &c);
    if (force_generate_audio_segment(buf, &c, &ts, &du) <= 10 || du != 60) return 1;
    add_audio_sample(d, 10, 30, 60, 60, 3, &c);
    if (force_generate_audio_segment(buf, &c, &ts, &du) <= 10) return 2;
    return du == 30 && ts == 60 ? 0 : 3; }
''', SRC, 'an audio segment forced before its target duration (the last segment of a stream)', 'the samples of a forced segment appear again in the next one', libs='-Wl,--unresolved-symbols=ignore-all')
seed('p09-first-at-zero', 'P09', [(F, '    if(ctxSample->mdat_sample_length == 0) {\n        (*context)->ctxaudio->earliest', '    if((*context)->ctxaudio->earliest_presentation_time == 0) {\n        (*context)->ctxaudio->earliest')], D + '''
int main() { i2ctx* c; generate_context(&c, AUDIO_TYPE); set_segment_duration(50, &c);
    add_audio_sample(d, 10, 30, 0, 0, 1, &c); add_audio_sample(d, 10, 30, 30, 30, 2, &c);
    if (generate_audio_segment(buf, &c, &ts, &du) <= 10) return 1;
    return ts == 0 && du == 60 ? 0 : 2; }
''', SRC, 'a segment whose first sample has presentation time zero', 'the segment is announced with the time of its second sample', libs='-Wl,--unresolved-symbols=ignore-all')
