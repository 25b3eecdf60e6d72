from seedlib import *
A = '''
#include <string>
#include <map>
#include <vector>
#include "modules/videoMixer/VideoMixer.hh"
#include "modules/videoSplitter/VideoSplitter.hh"
#include "VideoFrame.hh"
static InterleavedVideoFrame* picture(int w, int h, int v) { InterleavedVideoFrame* f = InterleavedVideoFrame::createNew(RAW, 640, 480, RGB24); f->setSize(w, h); memset(f->getDataBuf(), v, 640 * 480 * 3); return f; }
'''
MX, SP = 'src/modules/videoMixer/VideoMixer.cpp', 'src/modules/videoSplitter/VideoSplitter.cpp'
SRC = [MX, SP] + ['src/' + x for x in ('VideoFrame.cpp', 'AudioFrame.cpp', 'Frame.cpp', 'Filter.cpp', 'IOInterface.cpp', 'Event.cpp', 'Jzon.cpp', 'Utils.cpp', 'AVFramedQueue.cpp', 'Runnable.cpp')]
LIBS = '-llog4cplus -lavutil -lavcodec -lopencv_core -lopencv_imgproc -Wl,--unresolved-symbols=ignore-all'
MIX = 'int main() { VideoMixer* m = VideoMixer::createNew(4, 40, 20); for (int i = 1; i < 4; i++) m->specificReaderConfig(i, NULL); std::map<int, Frame*> o; InterleavedVideoFrame* d = picture(0, 0, 9); unsigned char* b = d->getDataBuf();\n'
seed('p14-last-frame', 'P14', [(MX, 'if (frameNumber <= 0) {', 'if (frameNumber <= 1) {')], A + MIX + '''
    m->configChannel0(1, 1, 1, 0, 0, 0, true, 1); m->configChannel0(2, .5, .5, 0, 0, 2, true, 1);
    o[1] = picture(40, 20, 50); o[2] = picture(20, 10, 200); m->doProcessFrame(o, d, {});
    return b[0] == 200 && b[39 * 3] == 50 ? 0 : 1; }
''', SRC, 'the last frame left is on a layer above the others', 'the picture of the topmost layer is missing in the output', libs=LIBS)
seed('p14-hidden-counts-twice', 'P14', [(MX, '''            if (channelsConfig.count(it.first) <= 0 || 
                channelsConfig[it.first]->getLayer() != lay) {
                continue;
            }

            if (!it.second || !channelsConfig[it.first]->isEnabled()) {''', '''            if (channelsConfig.count(it.first) <= 0) {
                continue;
            }

            if (channelsConfig[it.first]->isEnabled() && channelsConfig[it.first]->getLayer() != lay) {
                continue;
            }

            if (!it.second || !channelsConfig[it.first]->isEnabled()) {''')], A + MIX + '''
    m->configChannel0(1, 1, 1, 0, 0, 0, false, 1); m->configChannel0(2, .5, .5, 0, 0, 0, true, 1); m->configChannel0(3, .5, .5, .5, .5, 3, true, 1);
    for (int i = 1; i < 4; i++) o[i] = picture(40, 20, 50 * i); m->doProcessFrame(o, d, {});
    return b[0] == 100 && b[(19 * 40 + 39) * 3] == 150 ? 0 : 1; }
''', SRC, 'a disabled channel delivers frames while another channel is on a higher layer', 'the disabled channel is counted on every layer and the higher layer is not painted', libs=LIBS)
seed('p14-rows-kept', 'P14', [(MX, 'if (y + sz.height > outputHeight){\n        sz.height = outputHeight - y;', 'if (y + sz.height > outputHeight){\n        sz.height = outputHeight - y;\n        y = outputHeight - chConfig->getHeight()*outputHeight;')], A + MIX + '''
    m->configChannel0(1, .5, 1, 0, .5, 0, true, 1); o[1] = picture(20, 20, 80); m->doProcessFrame(o, d, {});
    return b[0] == 0 && b[10 * 40 * 3] == 80 && b[19 * 40 * 3] == 80 ? 0 : 1; }
''', SRC, 'a channel reaches beyond the lower edge', 'the channel is moved up instead of cropped', libs=LIBS)
seed('p14-stored-before-check', 'P14', [(MX, '''    if (layer < 0 || layer > maxChannels) {''', '''    channelsConfig[id]->config(width, height, x, y, channelsConfig[id]->getLayer(), enabled, opacity);

    if (layer < 0 || layer > maxChannels) {''')], A + MIX + '''
    m->configChannel0(1, 1, 1, 0, 0, 0, true, 1); bool r = m->configChannel0(1, .5, 1, 0, .5, 9, true, 1);
    return !r && m->channelsConfig[1]->getWidth() == 1 ? 0 : 1; }
''', SRC, 'a request is rejected for its layer', 'the rejected request has changed the size and position of the channel', libs=LIBS)
SPL = 'int main() { VideoSplitter* s = VideoSplitter::createNew(); s->specificWriterConfig(1); s->specificWriterConfig(2); std::map<int, Frame*> o; InterleavedVideoFrame* p = picture(100, 60, 7);\n'
seed('p14-still-consumed', 'P14', [(SP, '			it.second->setConsumed(false);\n', '')], A + SPL + '''
    s->configCrop0(1, 50, 50, 0, 0, 0); s->configCrop0(2, 50, 50, 50, 10, 0); o[1] = picture(0, 0, 1); o[2] = picture(0, 0, 2);
    s->doProcessFrame(p, o); if (!o[2]->getConsumed()) return 9; p->setSize(80, 60); s->doProcessFrame(p, o);
    return o[1]->getConsumed() && !o[2]->getConsumed() ? 0 : 1; }
''', SRC, 'the input picture becomes smaller than a crop while frames are recycled', 'an old picture is delivered again by the output whose crop does not fit any more', libs=LIBS)
seed('p14-rotation', 'P14', [(SP, 'degree > 360 || degree < (-360)', 'degree > 360 && degree < (-360)')], A + SPL + '''
    bool r = s->configCrop0(1, 50, 50, 0, 0, 720); return !r && s->cropsConfig[1]->getWidth() == 0 ? 0 : 1; }
''', SRC, 'a rotation of more than a turn', 'an invalid rotation is accepted', libs=LIBS)
