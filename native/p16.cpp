#include "common.h"
#include "Utils.hh"
#include "modules/sharedMemory/SharedMemory.hh"
static std::set<std::string> seen;
template <class T, class A, class F> static void pair(const char* what, int n, A as, F from, const std::vector<std::string>& words)
{
    std::map<std::string, int> names;
    for (int v = 0; v < n; v++) {
        std::string s = as((T)v);
        vp::log("%s %d is called '%s'", what, v, s.c_str());
        CHECK(!names.count(s), "%s values %d and %d have the same name '%s'", what, names[s], v, s.c_str());
        names[s] = v; seen.insert(s);
        CHECK((int)from(s) == v, "%s %d is called '%s', which converts to %d", what, v, s.c_str(), (int)from(s));
    }
    for (auto& w : words) if (!names.count(w)) CHECK((int)from(w) == -1, "unknown %s '%s' converts to %d", what, w.c_str(), (int)from(w));
    for (int v : {-1, n, n + 1, 1000}) { std::string s = as((T)v); CHECK(!names.count(s), "%s value %d is called '%s'", what, v, s.c_str()); }
}
int main(int argc, char** argv)
{
    vp::init(argc, argv);
    SharedMemory* shm = (SharedMemory*)calloc(1, sizeof(SharedMemory));
    std::vector<std::string> words = {"", " ", "x", "H264", "h264", "MPEG2", "std_rtp", "none"};
    while (vp::more()) {
        vp::begin();
        pair<FilterType>("filter type", 14, utils::getFilterTypeAsString, utils::getFilterTypeFromString, words);
        pair<FilterRole>("role", 2, utils::getRoleAsString, utils::getRoleTypeFromString, words);
        pair<ACodecType>("audio codec", 6, utils::getAudioCodecAsString, utils::getAudioCodecFromString, words);
        pair<VCodecType>("video codec", 5, utils::getVideoCodecAsString, utils::getVideoCodecFromString, words);
        pair<SampleFmt>("sample format", 6, utils::getSampleFormatAsString, utils::getSampleFormatFromString, words);
        pair<TxFormat>("transmission format", 3, utils::getTxFormatAsString, utils::getTxFormatFromString, words);
        const int b[] = {1, 2, 4, 1, 2, 4};
        for (int f = -3; f < 10; f++)
            CHECK(utils::getBytesPerSampleFromFormat((SampleFmt)f) == (f >= 0 && f < 6 ? b[f] : 0), "sample format %d has %d bytes", f, utils::getBytesPerSampleFromFormat((SampleFmt)f));
        for (int f : {7, 100, 1 << 20}) CHECK(utils::getBytesPerSampleFromFormat((SampleFmt)f) == 0, "unknown sample format %d", f);
        for (int v : {0, 2, 3, 4}) { int c = shm->getCodecFromVCodec((VCodecType)v); CHECK(shm->getVCodecFromCodecType(c) == v, "video codec %d has code %d, which is codec %d", v, c, shm->getVCodecFromCodecType(c)); }
        for (int v = 0; v < 7; v++) { int c = shm->getPixelFormatFromPixType((PixType)v); CHECK(shm->getPixTypeFromPixelFormat(c) == v, "pixel format %d has code %d, which is format %d", v, c, shm->getPixTypeFromPixelFormat(c)); }
        for (int c = 0; c < 65536; c += vp::range(1, 200)) {
            int r = shm->getVCodecFromCodecType(c); if (r != -1) CHECK(shm->getCodecFromVCodec((VCodecType)r) == c, "code %d accepted as codec %d", c, r);
            r = shm->getPixTypeFromPixelFormat(c); if (r != -1) CHECK(shm->getPixelFormatFromPixType((PixType)r) == c, "code %d accepted as pixel format %d", c, r);
            if (c > 20 && vp::chance(95)) continue;
        }
        // variations of the names seen
        words.assign({"", " ", "0", "-1"});
        for (auto s : seen) {
            words.push_back(s);
            std::string t = s;
            switch (vp::upto(5)) {
                case 0: if (!t.empty()) t[vp::upto(t.size())] ^= 32; break;
                case 1: t += char('a' + vp::upto(26)); break;
                case 2: if (!t.empty()) t.pop_back(); break;
                case 3: t = "x" + t; break;
                case 4: if (!t.empty()) t.erase(0, 1); break;
            }
            words.push_back(t);
        }
    }
    return vp::done();
}
