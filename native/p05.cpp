#include "common.h"
#include "IOInterface.hh"
#include "AVFramedQueue.hh"
struct F : Frame { int n = 0; unsigned char* getDataBuf() { return 0; } unsigned char** getPlanarDataBuf() { return 0; } unsigned int getLength() { return 0; }
    unsigned int getMaxLength() { return 0; } void setLength(unsigned) {} bool isPlanar() { return false; } };
struct TQ : AVFramedQueue {
    TQ(ConnectionData c, unsigned m) : AVFramedQueue(c, 0, m) { for (unsigned i = 0; i < max; i++) frames[i] = new F; }
};
struct St { bool unread, held; };
int main(int argc, char** argv)
{
    vp::init(argc, argv);
    while (vp::more()) {
        vp::begin();
        ConnectionData cd; cd.wFilterId = 77;
        ReaderData first; first.rFilterId = 0; first.readerId = 5; cd.readers.push_back(first);
        unsigned mx = vp::range(2, 8);
        TQ* q = new TQ(cd, mx);
        Writer w; w.setQueue(q);
        std::shared_ptr<Reader> r = std::make_shared<Reader>();
        CHECK(w.connect(r), "connect");
        vp::log("a queue of %u frames, consumer 0", mx);
        std::map<int, St> c; c[0] = St{false, false};
        std::deque<int> m; int next = 1; bool out = false;
        std::map<int, std::set<int>> seen;
        for (int n = vp::range(1, 80); n > 0 && !c.empty(); n--) {
            int op = vp::upto(20), id = vp::range(0, 4);
            bool reg = c.count(id);
            auto all = [&] { for (auto& x : c) if (x.second.unread || x.second.held) return false; return true; };
            size_t before = q->getElements();
            if (op < 5) {
                F* f = (F*)w.getFrame();
                CHECK(!f == (m.size() == mx - 1), "writer gets %s", f ? "a frame of a full queue" : "no frame");
                if (!f) continue;
                f->n = next++; f->setPresentationTime(std::chrono::microseconds(f->n * 40000));
                auto l = w.addFrame(); m.push_back(f->n); before++;
                vp::log("add frame %d", f->n);
                CHECK(l.size() == c.size(), "%zu consumers told, %zu registered", l.size(), c.size());
            } else if (op < 12) {
                bool nw = true; F* f = (F*)r->getFrame(id, nw);
                vp::log("consumer %d: getFrame -> %d %s", id, f ? f->n : -1, nw ? "new" : "");
                if (!reg) { CHECK(!f, "an unregistered consumer gets a frame"); }
                else if (m.empty()) { CHECK(!nw, "new frame from an empty queue"); }
                else {
                    if (!out) { out = true; for (auto& x : c) x.second = St{true, true}; }
                    CHECK(f && f->n == m.front(), "consumer %d gets frame %d, the oldest is %d", id, f ? f->n : -1, m.front());
                    CHECK(nw == c[id].unread, "frame %d is %s for consumer %d", f->n, nw ? "new again" : "not new", id);
                    if (nw) CHECK(seen[id].insert(f->n).second, "frame %d twice new for %d", f->n, id);
                    c[id].unread = false;
                }
            } else if (op < 17) {
                if (reg && c[id].unread) continue;
                int v = r->removeFrame(id);
                vp::log("consumer %d: removeFrame -> %d", id, v);
                bool gone = false;
                if (reg && out) { c[id].held = false; gone = all(); }
                CHECK(v == (gone ? 77 : -1), "removeFrame returns %d, expected %d", v, gone ? 77 : -1);
                if (gone) { m.pop_front(); out = false; before--; }
            } else if (op < 19) {
                r->addReader(id, 9); vp::log("consumer %d registers", id);
                if (!reg) c[id] = St{false, false};
            } else {
                if (reg && c.size() == 1 && vp::chance(90)) continue;
                bool v = r->disconnect(id); vp::log("consumer %d leaves -> %d", id, v);
                CHECK(v == reg, "disconnect of %d returns %d", id, v);
                if (reg) { c.erase(id); if (out && !c.empty() && all()) { m.pop_front(); out = false; before--; } }
            }
            if (c.empty()) break;
            CHECK(q->getElements() == before, "%u frames in the queue, expected %zu", q->getElements(), before);
        }
    }
    return vp::done();
}
