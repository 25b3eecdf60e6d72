from seedlib import seed
SRC = ['src/Event.cpp', 'src/Jzon.cpp', 'src/Utils.cpp']
seed('p17-seconds-resolution', 'P17', [('src/Event.cpp', 'return std::chrono::duration_cast<std::chrono::milliseconds>(currentTime - timestamp) >= delay;',
  'return std::chrono::duration_cast<std::chrono::seconds>(currentTime - timestamp) >=\n        std::chrono::duration_cast<std::chrono::seconds>(delay);')],
'''
#include "Event.hh"
using namespace std::chrono;
int main() { Jzon::Object o; system_clock::time_point t(seconds(1000)); Event e(o, t, 1500);
    return e.canBeExecuted(t + milliseconds(1200)) ? 1 : 0; }
''', SRC, 'a delay that is not a whole number of seconds', 'the due test compares whole seconds, so a delayed event can run up to a second early')
seed('p17-order-by-due', 'P17', [('src/Event.cpp', 'return timestamp > e.timestamp;', 'return timestamp + delay > e.timestamp + e.delay;')],
'''
#include "Event.hh"
#include <queue>
using namespace std::chrono;
int main() { Jzon::Object o; system_clock::time_point t(seconds(1000)); std::priority_queue<Event> q;
    q.push(Event(o, t, 500)); q.push(Event(o, t + milliseconds(100), 0));
    return q.top().timestamp == t ? 0 : 1; }
''', SRC, 'two queued events whose delays reverse the order of their reference times', 'events are ordered by due time instead of by reference time')
seed('p17-newevent-not-due', 'P17', [('src/Filter.cpp', '    if (!tmp.canBeExecuted(std::chrono::system_clock::now())) {', '    if (!tmp.canBeExecuted(std::chrono::system_clock::now()) && eventQueue.size() < 2) {')],
'''
#include "Filter.hh"
#include "AVFramedQueue.hh"
struct T : TailFilter { T() : TailFilter(1, SERVER) {} bool doProcessFrame(std::map<int, Frame*>&, std::vector<int>, int&) { return true; }
    void doGetState(Jzon::Object&) {} bool specificReaderConfig(int, FrameQueue*) { return true; } bool specificReaderDelete(int) { return true; }
    bool specificWriterConfig(int) { return true; } bool specificWriterDelete(int) { return true; } };
int main() { T f; Jzon::Object o; auto now = std::chrono::system_clock::now();
    f.eventQueue.push(Event(o, now, 60000)); if (f.newEvent()) return 1;
    f.eventQueue.push(Event(o, now, 60000)); return f.newEvent() ? 2 : 0; }
''', ['src/Filter.cpp', 'src/IOInterface.cpp', 'src/Event.cpp', 'src/Jzon.cpp', 'src/Utils.cpp', 'src/AVFramedQueue.cpp', 'src/VideoFrame.cpp', 'src/AudioFrame.cpp', 'src/Frame.cpp', 'src/Runnable.cpp'], 'two delayed events waiting in the queue of a filter', 'a filter takes its first event before it is due when more events wait behind it', libs='-llog4cplus -lavutil -lavcodec -Wl,--unresolved-symbols=ignore-all')
