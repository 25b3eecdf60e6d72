from seedlib import *
SRC = ['src/' + x for x in ('AudioCircularBuffer.cpp', 'AVFramedQueue.cpp', 'VideoFrame.cpp', 'AudioFrame.cpp', 'Frame.cpp', 'Utils.cpp')]
A = '''
#include "VideoFrame.hh"
#include "AudioCircularBuffer.hh"
#include "AVFramedQueue.hh"
#include "StreamInfo.hh"
#include <cstdio>
'''
seed('p21-hevc-room', 'P21', [('src/AVFramedQueue.cpp', '''        case H265:
''', ''), ('src/AVFramedQueue.cpp', '''        case VP8:
''', '''        case H265:
        case VP8:
''')], A + '''
int main() { ConnectionData c; StreamInfo si(VIDEO); si.video.codec = H265; VideoFrameQueue* q = VideoFrameQueue::createNew(c, &si, 4); return q && q->getRear()->getMaxLength() >= 2 * 1024 * 1024 ? 0 : 1; }
''', SRC, 'an H.265 queue that gets a NAL unit above 512 kB', 'the frames of H.265 queues have room for a quarter of the largest NAL unit only')
seed('p21-rgb32-room', 'P21', [('src/VideoFrame.cpp', '''        case RGB32:
            bytesPerPixel = 4;
            break;
''', '')], A + '''
int main() { InterleavedVideoFrame* f = InterleavedVideoFrame::createNew(RAW, 640, 480, RGB32); return f->getMaxLength() >= 640 * 480 * 4 ? 0 : 1; }
''', SRC, 'a raw frame with 32 bits per pixel', 'its buffer has room for three quarters of the picture')
