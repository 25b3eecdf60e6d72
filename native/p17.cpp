#include "common.h"
#include <queue>
#include "Event.hh"
#include "Filter.hh"
struct T : TailFilter { T() : TailFilter(1, SERVER) {} bool doProcessFrame(std::map<int, Frame*>&, std::vector<int>, int&) { return true; }
    void doGetState(Jzon::Object&) {} bool specificReaderConfig(int, FrameQueue*) { return true; } bool specificReaderDelete(int) { return true; }
    bool specificWriterConfig(int) { return true; } bool specificWriterDelete(int) { return true; } };
using namespace std::chrono;
int main(int argc, char** argv)
{
    vp::init(argc, argv);
    Jzon::Object o;
    while (vp::more()) {
        vp::begin();
        std::priority_queue<Event> q;
        std::vector<int64_t> ts;
        int64_t base = vp::chance(50) ? 0 : (int64_t)(vp::rnd() >> 3);
        for (int n = vp::range(1, 8); n > 0; n--) {
            int64_t t = base + (vp::chance(50) ? vp::range(-5, 5) : (int64_t)(vp::interesting() & 0xffffffffffffull));
            int d = vp::chance(30) ? 0 : (int)(vp::chance(50) ? vp::range(-3, 10) : vp::interesting());
            vp::log("event ts=%lld delay=%d", (long long)t, d);
            Event e(o, system_clock::time_point(nanoseconds(t)), d);
            for (int64_t el : {(int64_t)d * 1000000, (int64_t)d * 1000000 - 1, (int64_t)d * 1000000 + 1, ((int64_t)d - 1) * 1000000,
                               ((int64_t)d - 1) * 1000000 + 1, (int64_t)d * 1000000 + vp::range(-4000000, 4000000), (int64_t)(vp::rnd() >> 20)}) {
                bool r = e.canBeExecuted(system_clock::time_point(nanoseconds(t + el)));
                if (el >= (int64_t)d * 1000000) CHECK(r, "due event not executable: elapsed %lld ns delay %d ms", (long long)el, d);
                if (el <= ((int64_t)d - 1) * 1000000 || (d > 0 && el < (int64_t)d * 1000000))
                    CHECK(!r, "event executable early: elapsed %lld ns delay %d ms", (long long)el, d);
            }
            q.push(e); ts.push_back(t);
        }
        if (vp::chance(20)) {
            T f; auto now = system_clock::now();
            CHECK(!f.newEvent(), "an event in an empty queue");
            int64_t first = INT64_MAX; bool due = false;
            for (int n = vp::range(1, 4); n > 0; n--) {
                int64_t off = vp::range(-50, 50) * 100000ll; int d = vp::chance(50) ? 0 : 60000;
                vp::log("filter event %lld ms, delay %d", (long long)off, d);
                f.eventQueue.push(Event(o, now + milliseconds(off), d));
                if (off < first || (off == first && false)) { first = off; due = off + d <= 0; }
                else if (off == first) due = f.newEvent();
            }
            CHECK(f.newEvent() == due, "filter takes its first event: %d, expected %d", !due, due);
        }
        std::sort(ts.begin(), ts.end());
        for (int64_t t : ts) {
            CHECK(q.top().timestamp.time_since_epoch().count() == t, "events leave out of order");
            q.pop();
        }
    }
    return vp::done();
}
