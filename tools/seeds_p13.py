from seedlib import *
A = '''
#include <string>
#include <map>
#include <vector>
#include "modules/dasher/MpdManager.hh"
#include "modules/dasher/Dasher.hh"
#include <unistd.h>
#include <cstdio>
'''
M = D + 'MpdManager.cpp'
seed('p13-one-leaves', 'P13', [(M, 'while (timestamps.size() >= maxSeg) {', 'if (timestamps.size() >= maxSeg) {')], A + '''
int main() { MpdManager m; m.configure(0, 6, 2); m.updateVideoAdaptationSet("0", 1000, "s", "i");
    for (int i = 0; i < 6; i++) m.updateAdaptationSetTimestamp("0", 100 * i, 100);
    m.configure(0, 3, 2);
    for (int i = 6; i < 8; i++) m.updateAdaptationSetTimestamp("0", 100 * i, 100);
    return m.adaptationSets["0"]->timestamps.size() <= 3 ? 0 : 1; }
''', DASH_SRC, 'the window is made smaller while segments are listed', 'the manifest keeps listing more segments than configured', libs=DASH_LIBS)
seed('p13-clean-stops', 'P13', [(D + 'Dasher.cpp', 'success &= false;\n            utils::warningMsg("Error cleaning', 'success &= false;\n            break;\n            utils::warningMsg("Error cleaning')], A + '''
int main() { Dasher d(4); if (!d.configure(".", "b", 2, 2, 0)) return 9; d.mpdMngr->updateVideoAdaptationSet("0", 1000, "s", "i");
    d.vSegments[1] = new DashSegment(); d.vSegments[2] = new DashSegment();
    for (int i = 1; i < 4; i++) {
        for (auto s : d.vSegments) { s.second->setComplete(true); s.second->setTimestamp(100 * i); s.second->setDuration(100); }
        if (i == 3) ::remove("./b_1_100.m4v");
        if (!d.writeVideoSegments()) return 9;
    }
    bool left = access("./b_2_100.m4v", F_OK) == 0; d.vSegments.clear(); return left ? 1 : 0; }
''', DASH_SRC, 'the file of one representation cannot be removed (it is gone already)', 'the files of the other representations stay on disk', libs=DASH_LIBS)
seed('p13-template-change', 'P13', [(M, '''    timescale = segTimescale;
    segTemplate = segTempl;
    initTemplate = initTempl;
}

VideoAdaptationSet::''', '''    if (timescale != segTimescale) {
        flushTimestamps();
    }

    timescale = segTimescale;
    segTemplate = segTempl;
    initTemplate = initTempl;
}

VideoAdaptationSet::''')], A + '''
int main() { MpdManager m; m.configure(0, 6, 2); m.updateAudioAdaptationSet("1", 48000, "s", "i");
    m.updateAdaptationSetTimestamp("1", 5, 100); m.updateAudioAdaptationSet("1", 44100, "s", "i"); m.updateAdaptationSetTimestamp("1", 6, 100);
    return m.adaptationSets["1"]->timestamps.size() == 2 ? 0 : 1; }
''', DASH_SRC, 'the time base of an announced set changes', 'segments vanish from the manifest without having left the window', libs=DASH_LIBS)
seed('p13-depth-of-request', 'P13', [(M, '"PT" + std::to_string(maxSeg*segDurInSec)', '"PT" + std::to_string(maxSegment*segDurInSec)')], A + '''
int main() { MpdManager m; m.configure(0, 0, 2); return m.timeShiftBufferDepth == "PT4.0S" ? 0 : 1; }
''', DASH_SRC, 'a window below the minimum is asked for', 'the manifest announces a shorter depth than the window it keeps', libs=DASH_LIBS)
seed('p13-buffer-lower-bound', 'P13', [(M, '} else if (minBuffTime >= 2*segDurInSec){', '} else if (minBuffTime >= MIN_SEGMENT){')], A + '''
int main() { MpdManager m; m.configure(3, 6, 4); return m.getMinBuffTime() == 8 ? 0 : 1; }
''', DASH_SRC, 'a buffer time below two long segments', 'the client buffer time is shorter than two segments', libs=DASH_LIBS)
seed('p13-first-representation', 'P13', [(D + 'Dasher.cpp', 'segmentName = getSegmentName(basePath, baseName, seg.first, timestamp, segExt);', 'segmentName = getSegmentName(basePath, baseName, segments.begin()->first, timestamp, segExt);')], A + '''
int main() { Dasher d(4); if (!d.configure(".", "b", 2, 2, 0)) return 9; d.mpdMngr->updateVideoAdaptationSet("0", 1000, "s", "i");
    d.vSegments[1] = new DashSegment(); d.vSegments[2] = new DashSegment();
    for (int i = 1; i < 4; i++) {
        for (auto s : d.vSegments) { s.second->setComplete(true); s.second->setTimestamp(100 * i); s.second->setDuration(100); }
        if (!d.writeVideoSegments()) return 9;
    }
    bool left = access("./b_2_100.m4v", F_OK) == 0; d.vSegments.clear(); return left ? 1 : 0; }
''', DASH_SRC, 'more than one representation', 'the files of the other representations stay on disk', libs=DASH_LIBS)
