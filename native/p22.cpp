#include "common.h"
#include "Filter.hh"
#include "IOInterface.hh"
#include "AVFramedQueue.hh"
static int alive;
struct TF : Frame { unsigned char* getDataBuf() { return 0; } unsigned char** getPlanarDataBuf() { return 0; } unsigned int getLength() { return 0; }
    unsigned int getMaxLength() { return 0; } void setLength(unsigned) {} bool isPlanar() { return false; } };
struct TQ : AVFramedQueue {
    TQ(ConnectionData c) : AVFramedQueue(c, 0, 3) { for (unsigned k = 0; k < max; k++) frames[k] = new TF; alive++; }
    ~TQ() { alive--; }
};
struct T : BaseFilter {
    bool rok, qok, wok; std::set<int> rc, wc; int lastw, lastr; TQ* made;
    T(unsigned r, unsigned w) : BaseFilter(r, w), rok(true), qok(true), wok(true), lastw(-1), lastr(-1), made(0) { fType = VIDEO_MIXER; }
    FrameQueue* allocQueue(ConnectionData c) { return made = qok ? new TQ(c) : 0; }
    bool specificReaderConfig(int id, FrameQueue*) { if (rok) rc.insert(id); return rok; }
    bool specificReaderDelete(int id) { rc.erase(id); return true; }
    bool specificWriterConfig(int id) { if (wok) wc.insert(id); return wok; }
    bool specificWriterDelete(int id) { wc.erase(id); return true; }
    void doGetState(Jzon::Object&) {}
    bool runDoProcessFrame(std::map<int, Frame*>&, std::map<int, Frame*>&, std::vector<int>, int&) { return true; }
};
template <class M> static std::set<int> keys(const M& m) { std::set<int> s; for (auto& x : m) s.insert(x.first); return s; }
int main(int argc, char** argv)
{
    vp::init(argc, argv);
    while (vp::more()) {
        vp::begin(); alive = 0;
        std::vector<T*> f;
        std::vector<std::map<int, FrameQueue*> > rd(4), wr(4);
        for (int i = 0; i < 4; i++) { f.push_back(new T(vp::chance(30) ? 1 : vp::range(0, 4), vp::chance(30) ? 1 : vp::range(0, 4))); f[i]->setId(10 + i); }
        for (int n = vp::range(1, 40); n--;) {
            int a = vp::upto(4), b = (a + 1 + vp::upto(3)) % 4, w = vp::range(1, 5), r = vp::range(1, 5), op = vp::upto(10);
            T &A = *f[a], &B = *f[b];
            A.wok = vp::chance(90); A.qok = vp::chance(90); B.rok = vp::chance(85); A.rok = B.wok = B.qok = true; A.made = 0;
            int before = alive;
            if (op < 5) {
                int how = vp::upto(5);
                bool roomw = A.writers.size() < A.maxWriters, roomr = B.readers.size() < B.maxReaders, ok; int w1 = w, r1 = r;
                auto oldw = keys(A.writers), oldr = keys(B.readers); std::set<int> x;
                if (how < 1) ok = A.connectManyToMany(&B, r, w);
                else if (how == 1) { ok = A.connectOneToOne(&B); w1 = r1 = -1; }
                else if (how == 2) { ok = A.connectManyToOne(&B, w); r1 = -1; }
                else if (how == 3) { ok = A.connectOneToMany(&B, r); w1 = -1; }
                else ok = A.connect(&B, w, r);
                vp::log("filter %d connects to %d (writer %d, reader %d): %d", a, b, w1, r1, ok);
                if (w1 < 0) { w1 = 1; if (ok) for (int k : keys(A.writers)) if (!oldw.count(k)) w1 = k; if (!ok && A.maxWriters != 1) w1 = -2; }
                if (r1 < 0) { r1 = 1; if (ok) for (int k : keys(B.readers)) if (!oldr.count(k)) r1 = k; if (!ok && B.maxReaders != 1) r1 = -2; }
                bool want = roomw && roomr && !wr[a].count(w1) && !rd[b].count(r1) && A.wok && A.qok && B.rok;
                CHECK(ok == want, "connecting gives %d", ok);
                if (ok) {
                    wr[a][w1] = rd[b][r1] = A.made;
                    const ConnectionData& c = A.made->connectionData;
                    CHECK(A.made->isConnected() && c.wFilterId == 10 + a && c.writerId == w1 && c.readers.size() == 1 && c.readers.front().rFilterId == 10 + b && c.readers.front().readerId == r1, "the queue does not know its ends");
                    CHECK(A.isWConnected(w1) && B.isRConnected(r1), "the ends are not connected");
                } else CHECK(alive == before, "the queue of a refused connection is left behind");
            } else if (op < 7) {
                bool had = wr[a].count(w), ok = A.disconnectWriter(w); vp::log("writer %d of filter %d leaves", w, a);
                CHECK(ok, "a writer can not leave"); wr[a].erase(w); (void)had;
            } else if (op < 9) {
                bool ok = A.disconnectReader(r); vp::log("reader %d of filter %d leaves", r, a);
                CHECK(ok || !rd[a].count(r), "a reader can not leave"); rd[a].erase(r);
            } else {
                int o = vp::range(1, 5); bool con = rd[a].count(o) && A.readers[o]->isConnected(), bc = rd[b].count(r) && B.readers[r]->isConnected();
                bool want = con && !bc && B.rok && (rd[b].count(r) || rd[b].size() < B.maxReaders);
                if (rd[b].count(r)) continue;
                bool ok = A.shareReader(&B, r, o); vp::log("filter %d shares reader %d with %d (%d): %d", a, o, b, r, ok);
                CHECK(ok == want, "sharing gives %d", ok);
                if (ok) { rd[b][r] = rd[a][o]; CHECK(B.readers[r] == A.readers[o], "the reader is not the shared one"); }
            }
            for (int i = 0; i < 4; i++) {
                T& X = *f[i];
                CHECK(keys(X.readers) == keys(rd[i]) && keys(X.writers) == keys(wr[i]) && keys(X.seqNums) == keys(wr[i]), "the connections of filter %d are wrong", i);
                CHECK(X.rc == keys(rd[i]) && X.wc == keys(wr[i]), "filter %d keeps something of a connection", i);
                CHECK(X.readers.size() <= X.maxReaders && X.writers.size() <= X.maxWriters, "filter %d exceeds its limits", i);
                for (auto& x : rd[i]) CHECK(X.readers[x.first] && X.readers[x.first]->queue == x.second, "reader %d of filter %d has the wrong queue", x.first, i);
                for (auto& x : wr[i]) CHECK(X.writers[x.first] && X.writers[x.first]->queue == x.second, "writer %d of filter %d has the wrong queue", x.first, i);
            }
            unsigned g1 = A.generateReaderID(), g2 = A.generateWriterID();
            CHECK(A.maxReaders == 1 ? g1 == 1 : !rd[a].count(g1), "reader id %u is in use", g1);
            CHECK(A.maxWriters == 1 ? g2 == 1 : !wr[a].count(g2), "writer id %u is in use", g2);
        }
        for (auto x : f) delete x;
        CHECK(alive == 0, "%d queues are left", alive);
    }
    return vp::done();
}
