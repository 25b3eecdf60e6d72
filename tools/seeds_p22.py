from seedlib import *
A = '''
#include <string>
#include <map>
#include <vector>
#include <set>
#include <memory>
#include <functional>
#include "Filter.hh"
#include "IOInterface.hh"
#include "AVFramedQueue.hh"
struct TF : Frame { unsigned char* getDataBuf() { return 0; } unsigned char** getPlanarDataBuf() { return 0; } unsigned int getLength() { return 0; }
    unsigned int getMaxLength() { return 0; } void setLength(unsigned) {} bool isPlanar() { return false; } };
struct TQ : AVFramedQueue { TQ(ConnectionData c) : AVFramedQueue(c, 0, 3) { for (unsigned k = 0; k < max; k++) frames[k] = new TF; } };
struct T : BaseFilter {
    bool rok, qok, wok; std::set<int> rc, wc; TQ* made;
    T(int id, unsigned r, unsigned w) : BaseFilter(r, w), rok(true), qok(true), wok(true), made(0) { fType = VIDEO_MIXER; setId(id); }
    FrameQueue* allocQueue(ConnectionData c) { return made = qok ? new TQ(c) : 0; }
    bool specificReaderConfig(int id, FrameQueue*) { if (rok) rc.insert(id); return rok; }
    bool specificReaderDelete(int id) { rc.erase(id); return true; }
    bool specificWriterConfig(int id) { if (wok) wc.insert(id); return wok; }
    bool specificWriterDelete(int id) { wc.erase(id); return true; }
    void doGetState(Jzon::Object&) {}
    bool runDoProcessFrame(std::map<int, Frame*>&, std::map<int, Frame*>&, std::vector<int>, int&) { return true; }
};
'''
FI = 'src/Filter.cpp'
SRC = ['src/' + x for x in ('Filter.cpp', 'IOInterface.cpp', 'Event.cpp', 'Jzon.cpp', 'Utils.cpp', 'AVFramedQueue.cpp', 'VideoFrame.cpp', 'AudioFrame.cpp', 'Frame.cpp', 'Runnable.cpp')]
LIBS = '-llog4cplus -lavutil -lavcodec -Wl,--unresolved-symbols=ignore-all'
seed('p22-no-queue', 'P22', [(FI, '''    if (!queue){
        deleteWriter(writerID);
        return false;''', '''    if (!queue){
        return false;''')], A + '''
int main() { T a(1, 1, 1), b(2, 2, 2); a.qok = false; if (a.connect(&b, 1, 1)) return 9; a.qok = true; return a.writers.empty() && a.connect(&b, 1, 1) ? 0 : 1; }
''', SRC, 'no compatible queue can be made at first', 'the writer stays and blocks every later connection', libs=LIBS)
seed('p22-writer-config', 'P22', [(FI, '''        writers.erase(writerID);
        seqNums.erase(writerID);
        return false;
    }
    
    return true;''', '''        seqNums.erase(writerID);
        return false;
    }
    
    return true;''')], A + '''
int main() { T a(1, 1, 2), b(2, 2, 2); a.wok = false; if (a.connect(&b, 1, 1)) return 9; return a.writers.empty() ? 0 : 1; }
''', SRC, 'the filter refuses the writer', 'an unconnected writer stays in the filter', libs=LIBS)
seed('p22-delete-writer', 'P22', [(FI, '''        writers.erase(writerID);
        seqNums.erase(writerID);
        return specificWriterDelete(writerID);''', '''        writers.erase(writerID);
        return specificWriterDelete(writerID) && seqNums.erase(writerID) > 0;''')], A + '''
struct U : T { U() : T(1, 2, 2) {} bool specificWriterDelete(int id) { T::specificWriterDelete(id); return false; } };
int main() { U a; T b(2, 2, 2); if (!a.connect(&b, 3, 1)) return 9; a.disconnectWriter(3); return a.seqNums.empty() ? 0 : 1; }
''', SRC, 'the filter has nothing to delete for the writer', 'the sequence number of the old connection stays', libs=LIBS)
seed('p22-queue-ids', 'P22', [(FI, 'reader.readerId = readerID;', 'reader.readerId = writerID;')], A + '''
int main() { T a(1, 2, 2), b(2, 2, 2); if (!a.connect(&b, 3, 4)) return 9; return a.getWConnectionData(3).readers.front().readerId == 4 ? 0 : 1; }
''', SRC, 'the reader and writer identifiers differ', 'the connection names the wrong reader', libs=LIBS)
seed('p22-share-org', 'P22', [(FI, 'readers[orgRId]->addReader(shared->getId(), sharedRId);', 'readers[orgRId]->addReader(shared->getId(), orgRId);')], A + '''
int main() { T a(1, 1, 2), b(2, 2, 2), c(3, 4, 4); if (!a.connect(&b, 3, 4) || !b.shareReader(&c, 2, 4)) return 9; for (auto& x : a.getWConnectionData(3).readers) if (x.rFilterId == 3 && x.readerId != 2) return 1; return 0; }
''', SRC, 'the shared reader gets another identifier', 'the connection names the wrong reader', libs=LIBS)
seed('p22-limit', 'P22', [(FI, '''    if (readers.size() >= getMaxReaders() || readers.count(readerID) > 0 ) {
        return NULL;''', '''    if (readers.count(readerID) > 0 || readers.size() > getMaxReaders()) {
        return NULL;''')], A + '''
int main() { T a(1, 0, 4), b(2, 1, 0); if (!a.connect(&b, 1, 1)) return 9; return a.connect(&b, 2, 2) ? 1 : 0; }
''', SRC, 'a filter with one reader gets a second connection', 'the filter has more readers than it can have', libs=LIBS)
