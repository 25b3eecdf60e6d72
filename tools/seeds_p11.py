from seedlib import *
A = '''
#include "modules/dasher/DashVideoSegmenterAVC.hh"
#include "modules/dasher/DashVideoSegmenterHEVC.hh"
using namespace std::chrono;
static Frame* unit(InterleavedVideoFrame* f, int head, int len, int64_t us, int w = 64) { unsigned char* d = f->getDataBuf(); memset(d, 0, f->getMaxLength()); d[2] = 1; d[3] = head; for (int i = 1; i < len; i++) d[3 + i] = i;
    f->setLength(3 + len); f->setSize(w, 48); f->setPresentationTime(microseconds(us)); f->setDecodeTime(microseconds(us)); return f; }
#define AVCU(t) ((t) | 0x60)
#define HEVCU(t) ((t) << 1)
'''
seed('p11-append-bound', 'P11', [(D + 'DashVideoSegmenter.cpp', 'frame->getLength() + nalDataLength + AVCC_HEADER_BYTES_MINUS_ONE + 1 >', 'frame->getLength() + nalDataLength + AVCC_HEADER_BYTES_MINUS_ONE >')], A + '''
int main() { DashVideoSegmenterAVC g(seconds(1), microseconds(0)); g.tmpFrame->bufferMaxLen = 103; InterleavedVideoFrame* f = InterleavedVideoFrame::createNew(H264, 4096);
    g.manageFrame(unit(f, AVCU(1), 100, 1000)); return g.tmpFrame->getLength() == 0 ? 0 : 1; }
''', DASH_SRC, 'a unit that misses the room left in the frame by exactly one byte', 'one byte is written behind the frame', libs=DASH_LIBS)
seed('p11-cra-key', 'P11', [(D + 'DashVideoSegmenterHEVC.cpp', '''        case IDR2:
        case CRA:
            currentIntra = true;
            break;
''', '''        case IDR2:
            currentIntra = true;
            break;
        case CRA:
''')], A + '''
int main() { DashVideoSegmenterHEVC g(seconds(1), microseconds(0)); InterleavedVideoFrame* f = InterleavedVideoFrame::createNew(H265, 4096);
    g.manageFrame(unit(f, HEVCU(21), 50, 1000)); if (!g.manageFrame(unit(f, HEVCU(1), 50, 2000))) return 2; return g.isPreviousFrameIntra() ? 0 : 1; }
''', DASH_SRC, 'an HEVC stream whose random access pictures are CRA', 'the pictures are not marked as key frames', libs=DASH_LIBS)
seed('p11-decode-order', 'P11', [(D + 'DashVideoSegmenterAVC.cpp', '''nal->getFrameTime() > tmpFrame->getFrameTime())''', '''nal->getPresentationTime() > tmpFrame->getPresentationTime())''')], A + '''
int main() { DashVideoSegmenterAVC g(seconds(1), microseconds(0)); InterleavedVideoFrame* f = InterleavedVideoFrame::createNew(H264, 4096);
    unit(f, AVCU(5), 50, 0); f->setPresentationTime(microseconds(80000)); g.manageFrame(f);
    unit(f, AVCU(1), 50, 40000); f->setPresentationTime(microseconds(40000)); f->setDecodeTime(microseconds(40000)); 
    Frame* r = g.manageFrame(f); return r && r->getLength() == 54 ? 0 : 1; }
''', DASH_SRC, 'pictures whose presentation order differs from their decoding order', 'two pictures are merged into one frame', libs=DASH_LIBS)
seed('p11-size-of-first', 'P11', [(D + 'DashVideoSegmenter.cpp', '''    frame->setSize(nalWidth, nalHeight);
''', '''    if (frame->getWidth() == 0) {
        frame->setSize(nalWidth, nalHeight);
    }

''')], A + '''
int main() { DashVideoSegmenterAVC g(seconds(1), microseconds(0)); InterleavedVideoFrame* f = InterleavedVideoFrame::createNew(H264, 4096); VideoFrame* r = NULL;
    for (int i = 0; i < 4; i++) r = (VideoFrame*)g.manageFrame(unit(f, AVCU(1), 50, 1000 * i, i < 2 ? 64 : 32));
    return r && r->getWidth() == 32 ? 0 : 1; }
''', DASH_SRC, 'the picture size changes after both frame buffers have been used', 'later frames carry the old picture size', libs=DASH_LIBS)
