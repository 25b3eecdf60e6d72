from seedlib import *
A = '''
#include <string>
#include <map>
#include <vector>
#include "modules/sharedMemory/SharedMemory.hh"
#include "VideoFrame.hh"
#include <sys/mman.h>
#include <signal.h>
#include <unistd.h>
static uint8_t* seg; static SharedMemory* s;
static void make() { size_t n = (SHMSIZE / 4096 + 2) * 4096; seg = (uint8_t*)mmap(0, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); *seg = '0';
    s = (SharedMemory*)calloc(1, sizeof(SharedMemory)); s->SharedMemoryOrigin = s->access = seg; s->buffer = seg + 24; s->seqNum = 1; }
static InterleavedVideoFrame* frame(VCodecType c, const std::string& d, size_t seq) { InterleavedVideoFrame* f = InterleavedVideoFrame::createNew(c, 100000u); memcpy(f->getDataBuf(), d.data(), d.size()); f->setLength(d.size()); f->setSize(4, 4); f->setPixelFormat(RGB24); f->setSequenceNumber(seq); return f; }
static void run(VCodecType c, const std::string& d, size_t seq) { InterleavedVideoFrame* o = InterleavedVideoFrame::createNew(c, 100000u); s->SharedMemory::doProcessFrame(frame(c, d, seq), o); }
static std::string nal(int type, const std::string& d, bool three = false) { return (three ? std::string("\\0\\0\\1", 3) : std::string("\\0\\0\\0\\1", 4)) + (char)type + d; }
static std::string payload() { unsigned n = seg[20] | seg[21] << 8 | seg[22] << 16; return std::string((char*)seg + 24, n); }
'''
SH = 'src/modules/sharedMemory/SharedMemory.cpp'
SRC = [SH] + ['src/' + x for x in ('VideoFrame.cpp', 'AudioFrame.cpp', 'Frame.cpp', 'Filter.cpp', 'IOInterface.cpp', 'Event.cpp', 'Jzon.cpp', 'Utils.cpp', 'AVFramedQueue.cpp', 'Runnable.cpp')]
LIBS = '-llog4cplus -lavutil -lavcodec -Wl,--unresolved-symbols=ignore-all'
seed('p15-flag-first', 'P15', [(SH, '''    memcpy(buffer, buf, sizeof(uint8_t) * buf_size);
    *access = CHAR_READING;''', '''    *access = CHAR_READING;
    memcpy(buffer, buf, sizeof(uint8_t) * buf_size);''')], A + '''
static void hit(int) { _exit(*(volatile uint8_t*)seg == '1' ? 1 : 0); }
int main() { make(); signal(SIGSEGV, hit); mprotect(seg + 4096, 40960, PROT_NONE); run(RAW, std::string(20000, 'x'), 2); return 9; }
''', SRC, 'the reader looks at the segment while the payload is copied', 'the segment is handed over before the payload is there', libs=LIBS, flags='-fno-builtin')
seed('p15-header-early', 'P15', [(SH, '''    if(!isWritable()){
        if(''', '''    if(vframe->getCodec() == RAW){
        writeFramePayload(vframe);
    }

    if(!isWritable()){
        if(''')], A + '''
int main() { make(); run(RAW, std::string(100, 'x'), 2); if (*seg != '1') return 9; run(RAW, std::string(200, 'y'), 3); return payload() == std::string(100, 'x') ? 0 : 1; }
''', SRC, 'a frame arrives while the reader has the segment', 'the header the reader looks at is overwritten', libs=LIBS)
seed('p15-not-cleared', 'P15', [(SH, '''                seqNum = vframe->getSequenceNumber();
                frameData.clear();
            }
            parseNal(vframe, newFrame);
        }
        return true;''', '''                seqNum = vframe->getSequenceNumber();
            }
            parseNal(vframe, newFrame);
        }
        return true;''')], A + '''
int main() { make(); std::string u[5]; for (int i = 1; i < 5; i++) { if (i == 3) *seg = '1'; if (i == 4) *seg = '0'; run(H264, nal(9, "a"), i); run(H264, nal(1, std::string(5, 'a' + i)), i); }
    return *seg == '1' && payload() == nal(1, std::string(5, 'd')) ? 0 : 1; }
''', SRC, 'a picture ends while the reader has the segment', 'the next picture that is handed over contains two pictures', libs=LIBS)
seed('p15-short-code', 'P15', [(SH, 'frameData.insert(frameData.end(), nalData + startCodeOffset, nalData + nalDataLength);', 'frameData.insert(frameData.end(), nalData + LONG_START_CODE_LENGTH, nalData + nalDataLength);')], A + '''
int main() { make(); run(H264, nal(9, "a"), 2); run(H264, nal(5, "bcd", true), 2); run(H264, nal(9, "a"), 3); run(H264, nal(1, "x"), 3);
    return *seg == '1' && payload() == nal(5, "bcd") ? 0 : 1; }
''', SRC, 'a unit with a three byte start code', 'the first byte of the unit is missing', libs=LIBS)
seed('p15-same-picture', 'P15', [(SH, '''            if(vframe->getSequenceNumber() != seqNum && newFrame){
                writeFramePayload(vframe);''', '''            if(newFrame){
                writeFramePayload(vframe);''')], A + '''
int main() { make(); run(H264, nal(9, "a"), 2); run(H264, nal(5, "one"), 2); run(H264, nal(9, "a"), 2); run(H264, nal(1, "two"), 2); if (*seg != '0') return 1; run(H264, nal(9, "a"), 3); run(H264, nal(1, "x"), 3);
    return *seg == '1' && payload() == nal(5, "one") + nal(1, "two") ? 0 : 1; }
''', SRC, 'two delimiters inside of one picture', 'half of a picture is handed over', libs=LIBS)
