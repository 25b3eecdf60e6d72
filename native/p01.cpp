#include "common.h"
#include "AVFramedQueue.hh"
#include "Frame.hh"
// the repository has only concrete subclasses; the queue logic is the base class's
struct F : Frame { unsigned char* getDataBuf() { return 0; } unsigned char** getPlanarDataBuf() { return 0; } unsigned int getLength() { return 0; }
    unsigned int getMaxLength() { return 0; } void setLength(unsigned) {} bool isPlanar() { return false; } };
struct Q : AVFramedQueue {
    Q(ConnectionData c, const StreamInfo* s, unsigned m) : AVFramedQueue(c, s, m) { for (unsigned i = 0; i < max; i++) frames[i] = new F; }
};
int main(int argc, char** argv)
{
    vp::init(argc, argv);
    while (vp::more()) {
        vp::begin();
        unsigned mx = vp::chance(70) ? vp::range(2, 6) : vp::range(2, 250);
        ConnectionData cd; cd.wFilterId = vp::range(0, 1000);
        std::vector<int> ids;
        for (int i = vp::range(0, 4); i > 0; i--) { ReaderData r; r.rFilterId = vp::range(1, 99); r.readerId = vp::range(1, 9); cd.readers.push_back(r); ids.push_back(r.rFilterId); }
        Q q(cd, 0, mx);
        std::deque<Frame*> m;
        Frame* held = 0;
        vp::log("capacity %u", mx);
        for (int n = vp::range(1, 40 + 3 * (mx > 60 ? 200 : 20)); n > 0; n--) {
            int op = vp::upto(10);
            if (op < 3) {
                held = q.getRear(); vp::log("getRear -> %p", held);
                CHECK((held == 0) == (m.size() == mx - 1), "getRear null with %zu unread of %u", m.size(), mx);
                for (auto f : m) CHECK(f != held, "getRear hands out a slot holding an unread frame");
            } else if (op < 5) {
                bool full = m.size() == mx - 1;
                if (!full) held = q.getRear();
                auto r = q.addFrame(); vp::log("addFrame");
                CHECK(r == ids, "addFrame returns the readers");
                if (!full) m.push_back(held);
            } else if (op < 7) {
                Frame* f = q.getFront(); vp::log("getFront -> %p", f);
                CHECK(f == (m.empty() ? 0 : m.front()), "getFront is not the oldest");
            } else if (op < 9) {
                int r = q.removeFrame(); vp::log("removeFrame -> %d", r);
                CHECK(r == (m.empty() ? -1 : (int)cd.wFilterId), "removeFrame result");
                if (!m.empty()) m.pop_front();
            } else {
                size_t lost = q.lostBlocs;
                Frame* f = q.forceGetRear(); vp::log("forceGetRear -> %p", f);
                CHECK(f, "forceGetRear null");
                if (m.size() == mx - 1) { CHECK(f == m.back() && q.lostBlocs == lost + 1, "forceGetRear loses the newest frame"); m.pop_back(); }
                for (auto g : m) CHECK(g != f, "forceGetRear hands out an unread frame");
            }
            CHECK(q.getElements() == m.size(), "getElements %u, expected %zu", q.getElements(), m.size());
        }
    }
    return vp::done();
}
