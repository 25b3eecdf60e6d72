from seedlib import *
A = '''
#include "modules/dasher/DashAudioSegmenter.hh"
using namespace std::chrono;
static Frame* aac(Frame* f, int profile, int freq, int ch, int64_t us, int len) { unsigned char* d = f->getDataBuf(); d[0] = 0xff; d[1] = 0xf1; d[2] = profile << 6 | freq << 2 | ch >> 2; d[3] = ch << 6;
    f->setPresentationTime(microseconds(us)); f->setLength(len); ((AudioFrame*)f)->setSamples(1024); return f; }
'''
seed('p12-only-channels-change', 'P12', [(D + 'DashAudioSegmenter.cpp', '''        channelConfiguration == getChannelConfFromADTSHeader(data) && !extradata.empty())''', '''        !extradata.empty())''')], A + '''
int main() { DashAudioSegmenter g(seconds(1), microseconds(0)); Frame* f = InterleavedAudioFrame::createNew(2, 48000, 8000, AAC, S16);
    g.manageFrame(aac(f, 1, 3, 2, 0, 100)); g.manageFrame(aac(f, 1, 3, 1, 20000, 100));
    return g.channelConfiguration == 1 && g.extradata[1] == (0x80 | 1 << 3) ? 0 : 1; }
''', DASH_SRC, 'a stream whose headers change from stereo to mono only', 'the codec configuration keeps announcing the old channels', libs=DASH_LIBS)
seed('p12-base-precision', 'P12', [(D + 'Dasher.cpp', 'return (microValue-tsOffset).count()*timeBase/std::micro::den;', 'return (microValue-tsOffset).count()/std::milli::den*timeBase/std::milli::den;')], A + '''
int main() { DashAudioSegmenter g(seconds(1), microseconds(0)); Frame* f = InterleavedAudioFrame::createNew(2, 48000, 8000, AAC, S16);
    g.manageFrame(aac(f, 1, 3, 2, 21333, 100)); g.appendFrameToDashSegment(f);
    return g.dashContext->ctxaudio->ctxsample->mdat[0].presentation_timestamp == 21333 * 48 / 1000 ? 0 : 1; }
''', DASH_SRC, 'time stamps that are no multiple of a millisecond', 'the time stamps of samples lose their fraction of a millisecond', libs=DASH_LIBS)
seed('p12-short-frame', 'P12', [(D + 'DashAudioSegmenter.cpp', '''    if (!setup(aFrame''', '''    if (extradata.size() == 2 && aFrame->getLength() <= ADTS_HEADER_LENGTH) {
        return aFrame;
    }

    if (!setup(aFrame''')], A + '''
int main() { DashAudioSegmenter g(seconds(1), microseconds(0)); Frame* f = InterleavedAudioFrame::createNew(2, 48000, 8000, AAC, S16);
    if (!g.manageFrame(aac(f, 1, 3, 2, 0, 100))) return 2;
    return g.manageFrame(aac(f, 1, 3, 2, 20000, 5)) ? 1 : 0; }
''', DASH_SRC, 'a frame shorter than a header after the configuration is known', 'frames without a complete header pass the check', libs=DASH_LIBS)
seed('p12-sticky-duration', 'P12', [(D + 'DashAudioSegmenter.cpp', '    frameDuration = samples;\n', '    frameDuration = frameDuration && samples == 0 ? frameDuration : (samples + 1) / 2 * 2;\n')], A + '''
int main() { DashAudioSegmenter g(seconds(1), microseconds(0)); Frame* f = InterleavedAudioFrame::createNew(2, 48000, 8000, AAC, S16);
    aac(f, 1, 3, 2, 21333, 100); ((AudioFrame*)f)->setSamples(1025); g.manageFrame(f); g.appendFrameToDashSegment(f);
    return g.dashContext->ctxaudio->ctxsample->mdat[0].duration == 1025 ? 0 : 1; }
''', DASH_SRC, 'frames with an odd number of samples', 'the duration of the sample is not that of the audio frame', libs=DASH_LIBS)
