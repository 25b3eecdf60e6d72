from seedlib import *
SRC = ['src/' + x for x in ('IOInterface.cpp', 'AVFramedQueue.cpp', 'VideoFrame.cpp', 'AudioFrame.cpp', 'Frame.cpp', 'Utils.cpp')]
F = 'src/IOInterface.cpp'
A = '''
#include <cstdio>
#include <map>
#include <set>
#include <memory>
#include "IOInterface.hh"
#include "AVFramedQueue.hh"
#include "VideoFrame.hh"
static int died;
struct TQ : AVFramedQueue { TQ(ConnectionData c, unsigned m) : AVFramedQueue(c, 0, m) { for (unsigned i = 0; i < max; i++) frames[i] = InterleavedVideoFrame::createNew(RAW, 16, 16, RGB24); } ~TQ() { died++; } };
static TQ* queue(int consumer, int reader) { ConnectionData c; c.wFilterId = 7; ReaderData d; d.rFilterId = consumer; d.readerId = reader; c.readers.push_back(d); return new TQ(c, 5); }
static void add(Writer& w, int t) { Frame* f = w.getFrame(); f->setPresentationTime(std::chrono::microseconds(t)); w.addFrame(); }
static void wdel(Writer* w) { delete w; }
'''
seed('p05-same-reader-id', 'P05', [('src/FrameQueue.hh', '''            if (r.rFilterId == rFilterId){
                return false;''', '''            if (r.readerId == readerId){
                return false;''')], A + '''
int main() { TQ* q = queue(1, 1); Writer w; w.setQueue(q); auto r = std::make_shared<Reader>(); w.connect(r);
    r->addReader(2, 1); add(w, 1); bool n = false; return r->getFrame(2, n) && n ? 0 : 1; }
''', SRC, 'two consumers that use the same reader identifier in their own filters', 'the second consumer is not registered and gets no frame')
seed('p05-either-flag', 'P05', [(F, 'if (it.second.first || it.second.second){', 'if (it.second.first || (filters.size() == 1 && it.second.second)){')], A + '''
int main() { TQ* q = queue(1, 1); Writer w; w.setQueue(q); auto r = std::make_shared<Reader>(); w.connect(r);
    r->addReader(2, 2); add(w, 1); add(w, 2); bool n = false; r->getFrame(1, n); r->getFrame(2, n);
    return r->removeFrame(1) == -1 && q->getElements() == 2 && r->removeFrame(2) == 7 ? 0 : 1; }
''', SRC, 'one consumer releases a frame another has read but still uses', 'the frame leaves the queue while a consumer holds it')
seed('p05-late-joiner', 'P05', [(F, '''        filters[fId].first = false;
        filters[fId].second = false;
    }
}''', '''        filters[fId].first = false;
        filters[fId].second = !ready;
    }
}''')], A + '''
int main() { TQ* q = queue(1, 1); Writer w; w.setQueue(q); auto r = std::make_shared<Reader>(); w.connect(r);
    add(w, 1); bool n = false; r->getFrame(1, n); r->addReader(2, 2);
    return r->removeFrame(1) == 7 && q->getElements() == 0 ? 0 : 1; }
''', SRC, 'a consumer that joins while a frame is handed out', 'a consumer registered after the frame was handed out blocks its release')
seed('p05-empty-new', 'P05', [(F, '''    if (!frame) {
        newFrame = false;
        return queue->forceGetFront();''', '''    if (!frame) {
        newFrame = filters[fId].second;
        return queue->forceGetFront();'''), (F, '''        newFrame = true;
        filters[fId].first = false;''', '''        newFrame = true;
        filters[fId].first = !newFrame;'''), (F, '''    filters[rData.rFilterId].first = false;
    filters[rData.rFilterId].second = false;''', '''    filters[rData.rFilterId].first = false;
    filters[rData.rFilterId].second = true;''')], A + '''
int main() { TQ* q = queue(1, 1); Writer w; w.setQueue(q); auto r = std::make_shared<Reader>(); w.connect(r);
    bool n = false; r->getFrame(1, n); return n ? 1 : 0; }
''', SRC, 'a consumer that asks before the first frame has come (two cooperating places)', 'a frame that was never written is announced as new')
