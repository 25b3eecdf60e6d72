from seedlib import *
SRC = ['src/' + x for x in ('SlicedVideoFrameQueue.cpp', 'AVFramedQueue.cpp', 'VideoFrame.cpp', 'AudioFrame.cpp', 'Frame.cpp', 'Utils.cpp')]
F = 'src/SlicedVideoFrameQueue.cpp'
A = '''
#include "SlicedVideoFrameQueue.hh"
#include "StreamInfo.hh"
#include <cstdio>
#include <cstring>
using namespace std::chrono;
static unsigned char data[64][64];
static SlicedVideoFrameQueue* make(unsigned n, bool reader = true) { static StreamInfo si(VIDEO); si.video.codec = H264; ConnectionData c; if (reader) { c.readers.push_back(ReaderData()); }
    for (int i = 0; i < 64; i++) memset(data[i], i + 1, 64); return SlicedVideoFrameQueue::createNew(c, &si, n, 64); }
static void add(SlicedVideoFrameQueue* q, int first, int n, unsigned len, long t) { SlicedVideoFrame* f = (SlicedVideoFrame*)q->forceGetRear(); f->setPresentationTime(microseconds(t)); f->setOriginTime(system_clock::time_point(microseconds(t)));
    for (int i = 0; i < n; i++) f->setSlice(data[first + i], len); q->addFrame(); }
static int take(SlicedVideoFrameQueue* q, unsigned len, long t = -1) { Frame* f = q->getFront(); if (!f) return 0; int v = f->getDataBuf()[0];
    if (f->getLength() != len || (t >= 0 && f->getOriginTime() != system_clock::time_point(microseconds(t)))) v = -1; q->removeFrame(); return v; }
'''
seed('p04-clear-when-read', 'P04', [(F, '''    inputFrame->clear();
    
    std::vector<int> ret;
''', '''    std::vector<int> ret;
'''), (F, '''        ret.push_back(r.rFilterId);
''', '''        ret.push_back(r.rFilterId);
        inputFrame->clear();
''')], A + '''
int main() { SlicedVideoFrameQueue* q = make(20, false); add(q, 0, 2, 10, 5); add(q, 2, 1, 10, 6);
    return take(q, 10) == 1 && take(q, 10) == 2 && take(q, 10) == 3 && take(q, 10) == 0 ? 0 : 1; }
''', SRC, 'a queue without registered consumers, then a second frame', 'the slices of the first frame are queued again')
seed('p04-empty-slice-length', 'P04', [(F, '''        vFrame->setLength(slices[i].getDataSize());
''', '''        if (slices[i].getDataSize() > 0) {
            vFrame->setLength(slices[i].getDataSize());
        }
''')], A + '''
int main() { SlicedVideoFrameQueue* q = make(3); for (int i = 0; i < 4; i++) { add(q, i, 1, 10, i); take(q, 10); }
    add(q, 5, 1, 0, 7); Frame* f = q->getFront(); return f && f->getLength() == 0 ? 0 : 1; }
''', SRC, 'an empty slice in a slot that was used before', 'the element keeps the length of the slice before it')
seed('p04-one-more-slice', 'P04', [('src/VideoFrame.cpp', 'if (pointedSliceNum >= MAX_SLICES)', 'if (pointedSliceNum > MAX_SLICES)')], A + '''
int main() { SlicedVideoFrameQueue* q = make(40); SlicedVideoFrame* f = (SlicedVideoFrame*)q->forceGetRear(); int n = 0;
    for (int i = 0; i < 17; i++) n += f->setSlice(data[i], 10); return n == 16 && f->getSliceNum() == 16 ? 0 : 1; }
''', SRC, 'a picture of 17 slices', 'the 17th slice is written behind the slice table')
