#include "common.h"
#include "IOInterface.hh"
#include "AVFramedQueue.hh"
struct F : Frame { unsigned char* getDataBuf() { return 0; } unsigned char** getPlanarDataBuf() { return 0; } unsigned int getLength() { return 0; }
    unsigned int getMaxLength() { return 0; } void setLength(unsigned) {} bool isPlanar() { return false; } };
static std::map<int, int> died;
struct TQ : AVFramedQueue {
    int id;
    TQ(ConnectionData c, unsigned m, int i) : AVFramedQueue(c, 0, m), id(i) { for (unsigned k = 0; k < max; k++) frames[k] = new F; }
    ~TQ() { died[id]++; }
};
int main(int argc, char** argv)
{
    vp::init(argc, argv);
    while (vp::more()) {
        vp::begin();
        died.clear();
        int nq = 0;
        struct W { std::shared_ptr<Writer> w; int q; };
        std::shared_ptr<Reader> r = std::make_shared<Reader>();
        std::set<int> c;                 // consumers
        int rq = -1;                     // queue the reader refers to
        std::map<int, int> refs;         // ends referring to a queue
        std::map<int, bool> conn; std::map<int, TQ*> Q;
        std::map<int, std::set<int>> reg;
        std::vector<W> ws;
        auto leave = [&](int q) { if (--refs[q]) conn[q] = false; };
        for (int n = vp::range(1, 40); n > 0; n--) {
            int op = vp::upto(20), id = vp::range(0, 4);
            if (op < 6) {
                if (rq >= 0 && conn[rq]) continue;
                ConnectionData cd; cd.wFilterId = 7; ReaderData d; d.rFilterId = id; cd.readers.push_back(d);
                W x; x.w = std::make_shared<Writer>(); x.q = nq++;
                Q[x.q] = new TQ(cd, 3, x.q); x.w->setQueue(Q[x.q]);
                CHECK(x.w->connect(r), "connect"); vp::log("queue %d: consumer %d", x.q, id);
                if (rq >= 0) { refs[rq]--; }
                refs[x.q] = 2; conn[x.q] = true; rq = x.q; c.insert(id); reg[rq].insert(id); ws.push_back(x);
            } else if (op < 9) {
                r->addReader(id, 1); vp::log("consumer %d joins", id);
                if (rq >= 0 && conn[rq] && !reg[rq].count(id)) { c.insert(id); reg[rq].insert(id); }
            } else if (op < 12) {
                if (rq < 0 || !conn[rq]) continue;
                F* f = 0; for (auto& x : ws) if (x.w && x.q == rq && x.w->queue) { f = (F*)x.w->getFrame(); if (f) x.w->addFrame(); }
                bool nw; r->getFrame(id, nw); vp::log("a frame comes, consumer %d looks", id);
            } else if (op < 16) {
                bool v = r->disconnect(id); vp::log("consumer %d leaves -> %d", id, v);
                bool known = c.count(id);
                if (known) { c.erase(id); if (rq >= 0) reg[rq].erase(id); }
                CHECK(v == (known && (!c.empty() || rq >= 0)), "disconnect(%d) gives %d", id, v);
                if (known && c.empty() && rq >= 0) { leave(rq); rq = -1; }
            } else if (op < 19 && ws.size()) {
                W& x = ws[vp::upto(ws.size())];
                if (!x.w) continue;
                bool had = x.w->queue;
                CHECK(had == (x.q >= 0), "writer refers to a queue");
                if (vp::chance(60)) { bool v = vp::chance(50) ? x.w->disconnect() : x.w->disconnect(r); CHECK(v == had, "writer disconnect gives %d", v); CHECK(!x.w->queue, "the writer still refers to the queue"); }
                else x.w.reset();
                vp::log("writer of queue %d leaves", x.q);
                if (had) { leave(x.q); x.q = -1; }
            } else if (op == 19 && vp::chance(20)) {
                vp::log("reader goes");
                r = std::make_shared<Reader>(); c.clear();
                if (rq >= 0) { leave(rq); rq = -1; }
            }
            CHECK((r->queue != NULL) == (rq >= 0), "the reader %s a queue", r->queue ? "still refers to" : "lost");
            CHECK(r->filters.size() == c.size(), "%zu consumers, expected %zu", r->filters.size(), c.size());
            for (auto& p : refs) {
                CHECK(died[p.first] == (p.second == 0), "queue %d destroyed %d times, %d ends refer to it", p.first, died[p.first], p.second);
                if (p.second) {
                    CHECK(Q[p.first]->isConnected() == conn[p.first], "queue %d connected: %d", p.first, Q[p.first]->isConnected());
                    CHECK(Q[p.first]->getCData().readers.size() == (reg[p.first].size()), "queue %d lists %zu consumers, expected %zu", p.first, Q[p.first]->getCData().readers.size(), reg[p.first].size());
                }
            }
        }
        for (auto& x : ws) x.w.reset();
    }
    return vp::done();
}
