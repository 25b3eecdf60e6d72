from seedlib import seed
PRE = '''
#include "AVFramedQueue.hh"
#include "Frame.hh"
#include <cstdio>
struct F : Frame { unsigned char* getDataBuf() { return 0; } unsigned char** getPlanarDataBuf() { return 0; } unsigned int getLength() { return 0; }
    unsigned int getMaxLength() { return 0; } void setLength(unsigned) {} bool isPlanar() { return false; } };
struct Q : AVFramedQueue { Q(ConnectionData c, unsigned m) : AVFramedQueue(c, 0, m) { for (unsigned i = 0; i < max; i++) frames[i] = new F; } };
int main() { ConnectionData cd; cd.wFilterId = 7; Q q(cd, 4);
'''
SRC = ['src/AVFramedQueue.cpp', 'src/VideoFrame.cpp', 'src/AudioFrame.cpp', 'src/Frame.cpp', 'src/Utils.cpp']
seed('p01-flush-wrap', 'P01', [('src/AVFramedQueue.cpp', 'rear = (rear + (max - 1)) % max;', 'rear = rear > 0 ? rear - 1 : 0;')],
     PRE + '''
    // rear reaches 0 with the queue full: the discard has to step back over the end of the ring
    for (int i = 0; i < 1; i++) { q.getRear(); q.addFrame(); q.getFront(); q.removeFrame(); }
    for (int i = 0; i < 3; i++) { q.getRear(); q.addFrame(); }
    if (q.getRear() != NULL) return 2;
    alarm(10);
    return q.forceGetRear() == NULL ? 3 : (q.getElements() == 2 ? 0 : 4);
}
'''.replace('alarm(10)', 'extern unsigned alarm(unsigned) __asm__("alarm"); alarm(10)'), SRC,
     'a full queue whose write index is exactly at slot 0 (wrapped), then an overwriting forceGetRear()',
     'the discard of the newest frame does not step back over the wrap-around: the queue stays full and forceGetRear() never returns')
seed('p01-elements-wrapped', 'P01', [('src/AVFramedQueue.cpp', 'return front > rear ? (max - front + rear) : (rear - front);', 'return front > rear ? (MAX_FRAMES - front + rear) : (rear - front);')],
     PRE + '''
    for (int i = 0; i < 3; i++) { q.getRear(); q.addFrame(); q.getFront(); q.removeFrame(); }
    for (int i = 0; i < 2; i++) { q.getRear(); q.addFrame(); }
    return q.getElements() == 2 ? 0 : 1;
}
''', SRC, 'a queue smaller than MAX_FRAMES whose indices have wrapped around', 'getElements() counts unread frames with the maximum instead of the actual capacity')
