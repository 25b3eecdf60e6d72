from seedlib import seed
F = 'src/modules/videoEncoder/VideoEncoderX264or5.cpp'
SRC = ['src/Filter.cpp', 'src/IOInterface.cpp', 'src/Event.cpp', 'src/Jzon.cpp', 'src/Utils.cpp', 'src/AVFramedQueue.cpp', 'src/VideoFrame.cpp', 'src/AudioFrame.cpp', 'src/Frame.cpp', 'src/Runnable.cpp', 'src/SlicedVideoFrameQueue.cpp', F]
L = '-llog4cplus -lavutil -lavcodec -Wl,--unresolved-symbols=ignore-all'
D = '''
#include "modules/videoEncoder/VideoEncoderX264or5.hh"
struct Enc : VideoEncoderX264or5 { int64_t o, d; bool ok = true;
    bool fillPicturePlanes(unsigned char**, int*) { return true; }
    bool reconfigure(VideoFrame*, VideoFrame*) { libavInPixFmt = AV_PIX_FMT_YUV420P; return true; }
    bool encodeFrame(VideoFrame*) { inPts++; outPts = o; dts = d; return ok; }
    FrameQueue* allocQueue(ConnectionData) { return NULL; } };
using namespace std::chrono;
static bool run(Enc& e, VideoFrame* in, VideoFrame* out, int64_t t, bool ok, int64_t o, int64_t d) {
    in->setPresentationTime(microseconds(t)); in->setSequenceNumber(t / 10); in->setOriginTime(system_clock::time_point(nanoseconds(t * 7)));
    e.ok = ok; e.o = o; e.d = d; return e.doProcessFrame((Frame*)in, (Frame*)out); }
'''
seed('p18-erase-presented', 'P18', [(F, '    qFTP.erase(dts);', '    qFTP.erase(qFTP.begin(), qFTP.upper_bound(outPts));')], D + '''
int main() { Enc e; VideoFrame *i = InterleavedVideoFrame::createNew(RAW, 64, 48, YUV420P), *o = SlicedVideoFrame::createNew(H264);
    run(e, i, o, 1000, false, 0, 0); run(e, i, o, 2000, false, 0, 0);
    if (!run(e, i, o, 3000, true, 2, 0)) return 1;
    if (!run(e, i, o, 4000, true, 1, 1)) return 2;
    return o->getPresentationTime().count() == 2000 ? 0 : 3; }
''', SRC, 'an encoder that reorders pictures (b frames): a later picture leaves before an earlier one', 'the times of pictures still inside the encoder are forgotten, so a reordered picture leaves with time zero', libs=L)
seed('p18-partial-config', 'P18', [(F, 'lookahead_ < 0 || threads_ <= 0 || preset_.empty()', 'lookahead_ < 0 || preset_.empty()'),
  (F, '    threads = threads_;\n', '    if (threads_ <= 0) {\n        utils::errorMsg("Error configuring VideoEncoderX264or5: invalid number of threads");\n        return false;\n    }\n    threads = threads_;\n')], D + '''
int main() { Enc e; e.configure0(1000, 25, 50, 10, 2, 4, true, "fast", 0); if (e.configure0(3000, 25, 20, 10, 2, 0, true, "slow", 0)) return 1;
    return e.bitrate == 1000 && e.gop == 50 ? 0 : 2; }
''', SRC, 'a request with zero threads and another bit rate', 'a rejected configuration has already replaced the bit rate, the group of pictures and the lookahead', libs=L)
seed('p18-oldest-sequence', 'P18', [(F, '    dst->setSequenceNumber(qFTP[outPts].seqNum);', '    dst->setSequenceNumber(qFTP[dts].seqNum);')], D + '''
int main() { Enc e; VideoFrame *i = InterleavedVideoFrame::createNew(RAW, 64, 48, YUV420P), *o = SlicedVideoFrame::createNew(H264);
    run(e, i, o, 1000, false, 0, 0); run(e, i, o, 2000, false, 0, 0);
    if (!run(e, i, o, 3000, true, 2, 0)) return 1;
    return o->getSequenceNumber() == 300 ? 0 : 3; }
''', SRC, 'a reordered picture (decode order differs from presentation order)', 'the sequence number is that of another picture', libs=L)
X4, X5 = ('src/modules/videoEncoder/VideoEncoderX26%d.cpp' % k for k in (4, 5))
R = '''
#include <cstring>
#include <cstdlib>
#include "modules/videoEncoder/VideoEncoderX264.hh"
#include "modules/videoEncoder/VideoEncoderX265.hh"
#include "SlicedVideoFrameQueue.hh"
static int status; static unsigned units; static int64_t given, pts, dts;
static unsigned char bits[64]; static x264_nal_t n4[64]; static x265_nal n5[64];
extern "C" {
void x264_picture_init(x264_picture_t* p) { memset(p, 0, sizeof *p); }
void x264_encoder_close(x264_t*) {}
int x264_encoder_encode(x264_t*, x264_nal_t** nals, int* n, x264_picture_t* in, x264_picture_t* out) {
    for (int i = 0; i < 64; i++) { n4[i].p_payload = bits + i; n4[i].i_payload = 100 + i; }
    given = in->i_pts; *nals = n4; *n = units; out->i_pts = pts; out->i_dts = dts; return status; }
x265_param* x265_param_alloc() { return (x265_param*)calloc(1, sizeof(x265_param)); }
x265_picture* x265_picture_alloc() { return (x265_picture*)calloc(1, sizeof(x265_picture)); }
void x265_encoder_close(x265_encoder*) {}
int x265_encoder_encode(x265_encoder*, x265_nal** nals, uint32_t* n, x265_picture* in, x265_picture* out) {
    given = in->pts; *nals = n5; *n = units; out->pts = pts; out->dts = dts; return status; }
}
'''
seed('p18-same-stamp', 'P18', [(X4, '''    inPts++;
    
    if (success == 0) {
        return false;
    }
''', '''    if (success == 0) {
        return false;
    }
    
    inPts++;
''')], R + '''
int main() { VideoEncoderX264 e; e.encoder = (x264_t*)bits; SlicedVideoFrame* o = SlicedVideoFrame::createNew(H264);
    status = 0; e.encodeFrame(o); int64_t a = given; e.encodeFrame(o); return given == a + 1 ? 0 : 1; }
''', SRC + [X4, X5], 'an encoder that keeps the first pictures to itself (lookahead, b frames)', 'several pictures get the same time stamp, their times are mixed up', libs=L)
seed('p18-decode-stamp', 'P18', [(X5, '''    outPts = picOut->pts;
    dts = picOut->dts;''', '''    dts = picOut->dts;
    outPts = std::max(picOut->pts, dts + 1);''')], R + '''
int main() { VideoEncoderX265 e; e.encoder = (x265_encoder*)bits; SlicedVideoFrame* o = SlicedVideoFrame::createNew(H265);
    status = 1; pts = 5; dts = 5; e.encodeFrame(o); return e.outPts == 5 ? 0 : 1; }
''', SRC + [X4, X5], 'a picture whose decode time equals its presentation time (b frames)', 'the picture gets the times of the next one', libs=L)
seed('p18-unit-size', 'P18', [(X4, 'for (int i = 0; i < piNal; i++) {', 'for (int i = 0; i < piNal && i < 15; i++) {')], R + '''
int main() { VideoEncoderX264 e; e.encoder = (x264_t*)bits; SlicedVideoFrame* o = SlicedVideoFrame::createNew(H264);
    status = 1; units = 16; return e.encodeFrame(o) && o->getSliceNum() == 16 ? 0 : 1; }
''', SRC + [X4, X5], 'a picture coded in exactly 16 units', 'its last unit is left out', libs=L)
