from seedlib import *
import sys
SRC = ['src/' + x for x in ('AudioCircularBuffer.cpp', 'AudioFrame.cpp', 'Frame.cpp', 'Utils.cpp')]
F = 'src/AudioCircularBuffer.cpp'
A = '''
#include "AudioCircularBuffer.hh"
#include <cstdio>
#include <cstring>
#include <thread>
#include <atomic>
using namespace std::chrono;
static AudioCircularBuffer* make(unsigned ms, unsigned ch = 1) { ConnectionData c; c.wFilterId = 5; c.readers.push_back(ReaderData()); return AudioCircularBuffer::createNew(c, ch, 48000, ms, S16P); }
static long pushed;     // samples since the start
static bool push(AudioCircularBuffer* b, unsigned n, long us) { PlanarAudioFrame* f = (PlanarAudioFrame*)b->getRear(); f->setSamples(n); f->setPresentationTime(microseconds(us));
    for (int c = 0; c < 2; c++) for (unsigned i = 0; i < n; i++) ((short*)f->getPlanarDataBuf()[c])[i] = (short)((pushed + i) * 3 + c + 1);
    if (b->addFrame().empty()) return false; pushed += n; return true; }
static bool next(AudioCircularBuffer* b, unsigned n) { return push(b, n, pushed * 1000000 / 48000); }
'''
seed('p02-exact-fit', 'P02', [(F, 'if (bytesRequested > (channelMaxLength - elements))', 'if (elements + bytesRequested >= channelMaxLength)')], A + '''
int main() { AudioCircularBuffer* b = make(100); for (int i = 0; i < 5; i++) if (!next(b, 960)) return 1; return next(b, 1) ? 2 : 0; }
''', SRC, 'a block that fills the buffer exactly', 'a block that fits is refused')
seed('p02-second-half', 'P02', [(F, 'memcpy(buffer[i] + firstCopiedBytes, data[i], bytesRequested - firstCopiedBytes);', 'memcpy(buffer[i] + firstCopiedBytes, data[0], bytesRequested - firstCopiedBytes);')], A + '''
int main() { AudioCircularBuffer* b = make(100, 2); b->setOutputFrameSamples(1000); long out = 0;
    for (int k = 0; k < 8; k++) { if (!next(b, 1000)) return 2; Frame* f = b->getFront(); if (!f) return 3;
        for (int c = 0; c < 2; c++) for (int i = 0; i < 1000; i++) if (((short*)f->getPlanarDataBuf()[c])[i] != (short)((out + i) * 3 + c + 1)) return 1;
        out += 1000; b->removeFrame(); } return 0; }
''', SRC, 'a stereo block that is read across the end of the ring', 'the second channel gets samples of the first')
seed('p02-unlocked-read', 'P02', [(F, '''    unsigned rearMod;
    int firstCopiedBytes;
''', '''    unsigned rearMod;
    unsigned stored = elements;
    int firstCopiedBytes;
'''), (F, '''    elements += bytesRequested;
''', '''    elements = stored + bytesRequested;
''')], A + '''
int main() { AudioCircularBuffer* b = make(1000); b->setOutputFrameSamples(8); std::atomic<bool> end(false); unsigned long in = 0, out = 0;
    auto t0 = steady_clock::now();
    std::thread w([&] { while (steady_clock::now() - t0 < seconds(4)) for (int i = 0; i < 100; i++) if (next(b, 8)) in += 8; else std::this_thread::yield(); end = true; });
    std::thread r([&] { for (;;) { bool last = end; if (b->getFront()) { out += 8; b->removeFrame(); } else if (last) break; } });
    w.join(); r.join(); return b->elements == 0 && in == out ? 0 : 1; }
''', SRC, 'a reader that takes a frame while the writer is adding one', 'the stored size loses an update, so samples vanish or are delivered twice')
seed('p03-front-mod', 'P03', [(F, '    front += bytesRequested;', '    front = (front + bytesRequested) % channelMaxLength;')], A + '''
int main() { AudioCircularBuffer* b = make(100); b->setOutputFrameSamples(960); long out = 0;
    for (int k = 0; k < 12; k++) { if (!next(b, 960)) return 2; Frame* f = b->getFront(); if (!f) return 3;
        if (f->getPresentationTime().count() != out * 1000000 / 48000) return 1; out += 960; b->removeFrame(); } return 0; }
''', SRC, 'more samples are read than the ring holds', 'the presentation times start again from the first one')
seed('p03-flush-limit', 'P03', [(F, 'if (paddingSamples >= chMaxSamples)', 'if (paddingSamples > chMaxSamples)')], A + '''
int main() { AudioCircularBuffer* b = make(96); next(b, 960); if (!b->getLostBlocs() == false) return 2; push(b, 960, 20000 + 2000); return b->getLostBlocs() == 1 && b->getElements() == 0 ? 0 : 1; }
''', SRC, 'a gap of exactly as many samples as the buffer was configured for', 'silence is inserted instead of resynchronising')
seed('p03-early-resync', 'P03', [(F, '''        utils::warningMsg("[AudioCircularBuffer] Timestamp from the past, discarding entire frame");
''', '''        utils::warningMsg("[AudioCircularBuffer] Timestamp from the past, discarding entire frame");
        synchronized = false;
''')], A + '''
int main() { AudioCircularBuffer* b = make(1000); b->setOutputFrameSamples(960); next(b, 960); next(b, 960); if (push(b, 960, 10000)) return 2; next(b, 960);
    for (int i = 0; i < 3; i++) { Frame* f = b->getFront(); if (!f) return 3; if (f->getPresentationTime().count() != i * 20000) return 1; b->removeFrame(); } return 0; }
''', SRC, 'a frame is dropped because it is late while earlier samples are still stored', 'the stored samples get the times of the next frame')
