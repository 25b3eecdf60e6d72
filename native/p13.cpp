#include "common.h"
#include "modules/dasher/MpdManager.hh"
#include "modules/dasher/Dasher.hh"
#include <dirent.h>
typedef std::deque<std::pair<uint64_t, unsigned>> Win;
static std::string dir;
static std::set<std::string> files()
{
    std::set<std::string> r; DIR* d = opendir(dir.c_str());
    for (struct dirent* e; (e = readdir(d));) if (e->d_name[0] != '.') r.insert(e->d_name);
    closedir(d); return r;
}
static void wipe() { for (auto f : files()) ::remove((dir + f).c_str()); }
static void check(MpdManager* m, std::map<std::string, Win>& win)
{
    std::string f = dir + "x.mpd";
    m->writeToDisk(f.c_str());
    tinyxml2::XMLDocument doc;
    CHECK(doc.LoadFile(f.c_str()) == 0, "the manifest is no XML");
    auto p = doc.FirstChildElement("MPD"); CHECK(p && (p = p->FirstChildElement("Period")), "no period");
    auto w = win.begin();
    for (auto a = p->FirstChildElement("AdaptationSet"); a; a = a->NextSiblingElement("AdaptationSet")) {
        CHECK(w != win.end(), "too many sets");
        auto s = a->FirstChildElement("SegmentTemplate"); CHECK(s && (s = s->FirstChildElement("SegmentTimeline")), "no timeline");
        size_t i = 0;
        for (auto e = s->FirstChildElement("S"); e; e = e->NextSiblingElement("S"), i++) {
            CHECK(i < w->second.size(), "too many segments listed");
            CHECK(std::stoull(e->Attribute("t")) == w->second[i].first && std::stoull(e->Attribute("d")) == w->second[i].second, "segment %zu listed as t=%s d=%s, expected %llu %u", i, e->Attribute("t"), e->Attribute("d"), (unsigned long long)w->second[i].first, w->second[i].second);
        }
        CHECK(i == w->second.size(), "%zu segments listed of %zu", i, w->second.size());
        w++;
    }
    CHECK(w == win.end(), "a set is not listed");
    ::remove(f.c_str());
}
static unsigned configure(MpdManager* m)
{
    unsigned b = vp::chance(60) ? vp::range(0, 60) : (uint32_t)vp::interesting(), n = vp::chance(80) ? vp::range(0, 12) : vp::range(0, 60), d = vp::range(1, 10);
    m->configure(b, n, d);
    unsigned e = std::max(2u, n), t = b >= e * d ? e * d : std::max(b, 2 * d);
    vp::log("configure: buffer %u, %u segments of %u s", b, n, d);
    CHECK(m->getMaxSeg() == e, "window of %u segments, expected %u", m->getMaxSeg(), e);
    CHECK(m->getMinBuffTime() == t, "buffer time %u, expected %u", m->getMinBuffTime(), t);
    CHECK(m->timeShiftBufferDepth == "PT" + std::to_string(e * d) + ".0S" && m->minimumUpdatePeriod == "PT" + std::to_string(d) + ".0S", "depth %s, period %s", m->timeShiftBufferDepth.c_str(), m->minimumUpdatePeriod.c_str());
    return e;
}
int main(int argc, char** argv)
{
    vp::init(argc, argv);
    char t[] = "/tmp/vp13XXXXXX";
    dir = std::string(mkdtemp(t)) + "/";
    static std::string keep = dir; atexit([] { wipe(); rmdir(keep.c_str()); });
    while (vp::more()) {
        vp::begin();
        std::map<std::string, Win> win;
        if (vp::chance(60)) {       // the manifest alone
            MpdManager m; unsigned mx = 2;
            CHECK(m.getMaxSeg() == 2 && m.getMinBuffTime() == 2, "initial window");
            for (int i = vp::range(1, 60); i > 0; i--) {
                std::string id = std::to_string(vp::upto(3)); bool video = id != "1";
                int k = vp::upto(100);
                if (k < 5) mx = configure(&m);
                else if (k < 12) { int sc = vp::range(1, 3); vp::log("set %s with %d", id.c_str(), sc); if (video) m.updateVideoAdaptationSet(id, sc, "s", "i"); else m.updateAudioAdaptationSet(id, sc, "s", "i"); win[id]; }
                else if (k < 16) { vp::log("representation of %s", id.c_str()); if (video) m.updateVideoRepresentation(id, "7", "c", 1, 2, 3, 4); else m.updateAudioRepresentation(id, "7", "c", 1, 2, 3); }
                else if (k < 18) { vp::log("flush %s", id.c_str()); bool r = m.flushAdaptationSetTimestamps(id); CHECK(r == (win.count(id) > 0), "flush"); if (r) win[id].clear(); }
                else {
                    uint64_t ts = vp::chance(10) ? vp::interesting() : vp::upto(100000); unsigned d = vp::upto(5000);
                    vp::log("announce %llu %u in %s", (unsigned long long)ts, d, id.c_str());
                    auto left = m.updateAdaptationSetTimestamp(id, ts, d);
                    std::vector<uint64_t> e;
                    if (win.count(id)) { Win& w = win[id]; while (w.size() >= mx) { e.push_back(w.front().first); w.pop_front(); } w.push_back({ts, d}); }
                    CHECK(left.size() == e.size(), "%zu segments left, expected %zu", left.size(), e.size());
                    for (size_t j = 0; j < e.size(); j++) CHECK(left[j] == e[j], "segment %llu left, expected %llu", (unsigned long long)left[j], (unsigned long long)e[j]);
                }
                if (vp::chance(10)) check(&m, win);
            }
            check(&m, win);
        } else {                    // the files
            wipe();
            Dasher d(4);
            CHECK(d.configure(dir, "b", 2, 0, 0), "configure");
            unsigned mx = 2; std::map<int, DashSegment*> segs[2];
            for (int k = 0; k < 2; k++) for (int n = vp::range(k ? 0 : 1, 3); n > 0; n--) segs[k][n + 10 * k] = new DashSegment();
            d.vSegments = segs[0]; d.aSegments = segs[1];
            if (!segs[0].empty()) { d.mpdMngr->updateVideoAdaptationSet("0", 1000, "s", "i"); win["0"]; }
            if (!segs[1].empty()) { d.mpdMngr->updateAudioAdaptationSet("1", 1000, "s", "i"); win["1"]; }
            std::set<std::string> have; std::set<uint64_t> used;
            have.insert("b.mpd"); bool mpd = false;
            for (int i = vp::range(1, 25); i > 0; i--) {
                if (vp::chance(8)) mx = configure(d.mpdMngr);
                int k = vp::upto(2); bool all = true; uint64_t ts = used.empty() && vp::chance(50) ? 0 : vp::upto(1ull << 40); unsigned du = vp::range(1, 5000);
                if (!used.insert(ts).second) continue;
                for (auto s : segs[k]) { bool c = vp::chance(90); s.second->setComplete(c); all &= c; s.second->setTimestamp(ts); s.second->setDuration(du); s.second->setDataLength(vp::upto(50)); s.second->setLastFrameTimestamp(ts); }
                vp::log("write %s at %llu, %u long, %s", k ? "audio" : "video", (unsigned long long)ts, du, all ? "complete" : "incomplete");
                if (vp::chance(5) && have.size() > 1) { auto v = have.begin(); std::advance(v, vp::range(1, have.size() - 1)); ::remove((dir + *v).c_str()); vp::log("%s is gone", v->c_str()); have.erase(v); }
                bool r = k ? d.writeAudioSegments() : d.writeVideoSegments(), e = all && !segs[k].empty();
                CHECK(r == e, "%s", r ? "segments that are not complete are written" : "complete segments are not written");
                if (e) {
                    mpd = true; Win& w = win[k ? "1" : "0"];
                    auto name = [&](int id, uint64_t t) { return "b_" + std::to_string(id) + "_" + std::to_string(t) + (k ? ".m4a" : ".m4v"); };
                    while (w.size() >= mx) { for (auto s : segs[k]) have.erase(name(s.first, w.front().first)); w.pop_front(); }
                    w.push_back({ts, du}); for (auto s : segs[k]) have.insert(name(s.first, ts));
                    auto f = files();
                    if (f != have) { for (auto& x : f) if (!have.count(x)) CHECK(false, "%s is left", x.c_str()); for (auto& x : have) if (!f.count(x)) CHECK(false, "%s is missing", x.c_str()); }
                    for (auto s : segs[k]) CHECK(!s.second->isComplete(), "a written segment is still complete");
                }
            }
            if (mpd) check(d.mpdMngr, win);
            d.vSegments.clear(); d.aSegments.clear();
            for (auto& m : segs) for (auto s : m) delete s.second;
            wipe();
        }
    }
    return vp::done();
}
