from seedlib import *
A = '''
#include <string>
#include <map>
#include <vector>
#include <iostream>
#include "modules/audioMixer/AudioMixer.hh"
#include "AudioCircularBuffer.hh"
#include "AudioFrame.hh"
#include "Jzon.h"
static AudioMixer* m; static long long now = 1000000;
static void add(int id) { ConnectionData cd; m->specificReaderConfig(id, AudioCircularBuffer::createNew(cd, 2, 48000, 1000, FLTP)); }
static bool push(int id, float v, long long t, unsigned n = 960) { PlanarAudioFrame* f = PlanarAudioFrame::createNew(2, 48000, 4800, PCM, FLTP); f->setSamples(n);
    for (int c = 0; c < 2; c++) for (unsigned i = 0; i < n; i++) ((float*)f->getPlanarDataBuf()[c])[i] = v; f->setPresentationTime(std::chrono::microseconds(t)); bool r = m->pushToBuffer(id, f); delete f; return r; }
static PlanarAudioFrame* pull() { PlanarAudioFrame* o = PlanarAudioFrame::createNew(2, 48000, 4800, PCM, FLTP); std::map<int, Frame*> none; if (!m->extractMixedFrame(o)) return NULL; return o; }
static float at(PlanarAudioFrame* o, int c, int i) { return ((float*)o->getPlanarDataBuf()[c])[i]; }
static bool ask(const char* what, int id, float gain) { Jzon::Object p; p.Add("id", id); p.Add("gain", gain); return m->eventMap[what](&p); }
'''
M = 'src/modules/audioMixer/AudioMixer.cpp'
SRC = [M] + ['src/' + x for x in ('AudioFrame.cpp', 'AudioCircularBuffer.cpp', 'Frame.cpp', 'Filter.cpp', 'IOInterface.cpp', 'Event.cpp', 'Jzon.cpp', 'Utils.cpp', 'Runnable.cpp')]
LIBS = '-llog4cplus -lavutil -lavcodec -lpthread -Wl,--unresolved-symbols=ignore-all'
seed('p20-limiter-low', 'P20', [(M, '- th/(2-th);', '+ th/(2-th);')], A + '''
int main() { m = new AudioMixer(4); add(1); add(2); m->masterGain = 1; push(1, -0.8, now); push(2, -0.2, now); for (int i = 1; i < 4; i++) push(1, 0, now + i * 20000); PlanarAudioFrame* o = pull(); return o && at(o, 0, 0) < -0.6f ? 0 : 1; }
''', SRC, 'a negative sum beyond the threshold', 'loud negative samples become quieter than quiet ones', libs=LIBS)
seed('p20-resync-rear', 'P20', [(M, '        front = 0;\n        rear = 0;\n        syncTs', '        front = 0;\n        syncTs')], A + '''
int main() { m = new AudioMixer(4); add(1); m->masterGain = 1; long long t = now; for (int i = 0; i < 4; i++) { push(1, 0.1f, t); t += 20000; } delete pull(); t += 5000000;
    if (!push(1, 0.25f, t)) return 9; return pull() ? 1 : 0; }
''', SRC, 'a jump in time while samples are waiting', 'samples that nobody sent are delivered after the jump', libs=LIBS)
seed('p20-rear', 'P20', [(M, '    if (absolutePosition + nOfSamples > rear) {\n        rear = absolutePosition + nOfSamples;\n    }', '    rear = absolutePosition + nOfSamples;')], A + '''
int main() { m = new AudioMixer(4); add(1); add(2); for (int i = 0; i < 4; i++) push(1, 0.1f, now + i * 20000); push(2, 0.1f, now); return pull() ? 0 : 1; }
''', SRC, 'a second channel is behind the first one', 'samples that wait are forgotten and become a gap', libs=LIBS)
seed('p20-solo', 'P20', [(M, '''    if (!setChannelGain(id, DEFAULT_CHANNEL_GAIN)) {
        return false;
    }

    for (auto it : gains) {
        if (it.first != id) {
            setChannelGain(it.first, 0);
        }
    }

    return true;''', '''    for (auto it : gains) {
        if (it.first != id) {
            setChannelGain(it.first, 0);
        }
    }

    return setChannelGain(id, DEFAULT_CHANNEL_GAIN);''')], A + '''
int main() { m = new AudioMixer(4); add(1); add(2); if (!ask("changeChannelGain", 1, 0.5)) return 9; if (ask("soloChannel", 7, 1)) return 9; return m->gains[1] == 0.5f && m->gains[2] == 1 ? 0 : 1; }
''', SRC, 'a solo request for a channel that does not exist', 'every channel becomes silent', libs=LIBS)
seed('p20-resync-fit', 'P20', [(M, 'if (absolutePosition > front + mixBufferMaxSamples - nOfSamples) {', 'if (absolutePosition > front + mixBufferMaxSamples) {')], A + '''
int main() { m = new AudioMixer(4); add(1); m->masterGain = 1; push(1, 0.25f, now); push(1, 0.25f, now + 90000);
    for (int i = 0; i < 480; i++) if (m->mixBuffers[0][i] > 0.3f) return 1; return 0; }
''', SRC, 'a frame that starts inside the buffer and ends behind it', 'its tail is mixed into the oldest samples', libs=LIBS)
seed('p20-high-byte', 'P20', [(M, '*(dst+1) = (value >> 8) & 0xFF;', '*(dst+1) = (value / 256) & 0xFF;')], A + '''
int main() { m = new AudioMixer(4); for (int v = -32768; v < 32768; v++) { unsigned char b[2] = {(unsigned char)v, (unsigned char)(v >> 8)}, c[2]; float f; m->bytesToFloat(b, f, S16P); m->floatToBytes(c, f, S16P); if (c[0] != b[0] || c[1] != b[1]) return 1; } return 0; }
''', SRC, 'a negative 16 bit sample whose low byte is not 0', 'the sample that is delivered is 256 steps off', libs=LIBS)
