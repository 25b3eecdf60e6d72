from seedlib import seed
D = 'src/modules/dasher/'
L = '-llog4cplus -lavutil -lavcodec -ltinyxml2 -Wl,--unresolved-symbols=ignore-all'
SRC = [D + x for x in ('i2libdash.c', 'i2libisoff.c', 'Dasher.cpp', 'DashVideoSegmenter.cpp', 'DashVideoSegmenterAVC.cpp', 'DashVideoSegmenterHEVC.cpp', 'DashAudioSegmenter.cpp', 'MpdManager.cpp')] + \
      ['src/' + x for x in ('VideoFrame.cpp', 'AudioFrame.cpp', 'Frame.cpp', 'Filter.cpp', 'IOInterface.cpp', 'Event.cpp', 'Jzon.cpp', 'Utils.cpp', 'AVFramedQueue.cpp', 'Runnable.cpp')]
A = '''
#include "modules/dasher/DashVideoSegmenterAVC.hh"
#include "modules/dasher/DashAudioSegmenter.hh"
using namespace std::chrono;
static Frame* at(Frame* f, int64_t us, int len = 50) { f->setPresentationTime(microseconds(us)); f->setDecodeTime(microseconds(us)); f->setLength(len); return f; }
'''
seed('p10-rate-change', 'P10', [(D + 'DashAudioSegmenter.cpp', '''    timeBase = sampleRate;
    frameDuration = samples;
    segDurInTimeBaseUnits = segDur.count()*timeBase;
''', '''    frameDuration = samples;

    if (timeBase == 0) {
        segDurInTimeBaseUnits = segDur.count()*sampleRate;
    }

    timeBase = sampleRate;
''')], A + '''
int main() { DashSegment s; DashAudioSegmenter g(seconds(1), microseconds(0)); Frame* f = InterleavedAudioFrame::createNew(2, 48000, 8000, AAC, S16);
    g.setup(2, 48000, 4800, 16); g.setup(2, 8000, 800, 16); int n = 0; int64_t t = 0;
    while (!g.generateSegment(&s, at(f, t)) && n < 1000) { g.appendFrameToDashSegment(f); n++; t += 100000; }
    return n == 10 ? 0 : 1; }
''', SRC, 'an audio stream whose sample rate changes', 'segments are cut at the target duration of the old sample rate', libs=L)
seed('p10-next-intra', 'P10', [(D + 'DashVideoSegmenter.cpp', '    return generate_video_segment(isPreviousFrameIntra(), timeBasePts', '    return generate_video_segment(isPreviousFrameIntra() || currentIntra, timeBasePts')], A + '''
int main() { DashSegment s; DashVideoSegmenterAVC g(seconds(1), microseconds(0)); Frame* f = InterleavedVideoFrame::createNew(H264, 4096); g.setup(64, 48);
    g.previousIntra = true; g.currentIntra = false; g.appendFrameToDashSegment(at(f, 0));
    g.previousIntra = false; g.appendFrameToDashSegment(at(f, 500000));
    g.previousIntra = false; g.currentIntra = true; if (g.generateSegment(&s, at(f, 1000000))) return 1;
    g.appendFrameToDashSegment(f); g.previousIntra = true; return g.generateSegment(&s, at(f, 1500000)) ? 0 : 2; }
''', SRC, 'a key frame unit already received while the frame being added is not a key frame', 'the segment is cut before a frame that is not a key frame', libs=L)
seed('p10-exact-target', 'P10', [(D + 'i2libdash.c', 'if ((*context)->duration <= (*context)->ctxaudio->current_audio_duration) {', 'if ((*context)->duration < (*context)->ctxaudio->current_audio_duration) {')], A + '''
int main() { DashSegment s; DashAudioSegmenter g(seconds(1), microseconds(0)); Frame* f = InterleavedAudioFrame::createNew(2, 48000, 8000, AAC, S16);
    g.setup(2, 48000, 960, 16); int n = 0; int64_t t = 0;
    while (!g.generateSegment(&s, at(f, t)) && n < 1000) { g.appendFrameToDashSegment(f); n++; t += 20000; }
    return n == 50 ? 0 : 1; }
''', SRC, 'frames whose duration divides the target duration', 'the segment is cut one frame too late', libs=L)
