#include "common.h"
#include "modules/transmitter/SPSparser/h264_stream.h"
#include "modules/transmitter/SPSparser/bs.h"
typedef std::vector<uint8_t> V8;
// bits of a payload, written and read independently of the code under test
struct Bits {
    V8 d; size_t n;
    Bits() : n(0) {}
    void put(uint64_t v, int k) { while (k--) { if (n % 8 == 0) d.push_back(0); d[n / 8] |= ((k < 64 ? v >> k : 1) & 1) << (7 - n % 8); n++; } }
    void ue(uint64_t v) { int z = 0; while (((v + 1) >> (z + 1))) z++; put(0, z); put(v + 1, z + 1); }
    void se(int64_t v) { ue(v > 0 ? 2 * v - 1 : -2 * v); }
};
struct Ref {
    const V8& d; uint64_t p;
    Ref(const V8& x) : d(x), p(0) {}
    uint32_t bit() { uint32_t r = p / 8 < d.size() ? (d[p / 8] >> (7 - p % 8)) & 1 : 0; p++; return r; }
    uint32_t u(int n) { uint32_t r = 0; while (n--) r = r * 2 + bit(); return r; }
    uint32_t ue() { int z = 0; for (;;) { uint32_t b = bit(); if (b || z == 32 || p / 8 >= d.size()) break; z++; } return (uint32_t)((1ull << z) - 1) + u(z); }
    int32_t se() { uint32_t v = ue(); uint32_t h = v / 2; return (int32_t)(v & 1 ? h + 1 : -h); }
    void scaling(int n) { int last = 8, next = 8; for (int j = 0; j < n; j++) { if (next) next = ((uint32_t)last + (uint32_t)se() + 256) % 256; if (next) last = next; } }
    bool hrd(sps_t* s) {
        s->hrd.cpb_cnt_minus1 = ue();
        if ((uint32_t)s->hrd.cpb_cnt_minus1 > 31) return false;
        s->hrd.bit_rate_scale = u(4); s->hrd.cpb_size_scale = u(4);
        for (int i = 0; i <= s->hrd.cpb_cnt_minus1; i++) { s->hrd.bit_rate_value_minus1[i] = ue(); s->hrd.cpb_size_value_minus1[i] = ue(); s->hrd.cbr_flag[i] = bit(); }
        s->hrd.initial_cpb_removal_delay_length_minus1 = u(5); s->hrd.cpb_removal_delay_length_minus1 = u(5);
        s->hrd.dpb_output_delay_length_minus1 = u(5); s->hrd.time_offset_length = u(5);
        return true;
    }
    bool vui(sps_t* s) {
        auto& v = s->vui;
        if ((v.aspect_ratio_info_present_flag = bit())) { v.aspect_ratio_idc = u(8); if (v.aspect_ratio_idc == 255) { v.sar_width = u(16); v.sar_height = u(16); } }
        if ((v.overscan_info_present_flag = bit())) v.overscan_appropriate_flag = bit();
        if ((v.video_signal_type_present_flag = bit())) {
            v.video_format = u(3); v.video_full_range_flag = bit();
            if ((v.colour_description_present_flag = bit())) { v.colour_primaries = u(8); v.transfer_characteristics = u(8); v.matrix_coefficients = u(8); }
        }
        if ((v.chroma_loc_info_present_flag = bit())) { v.chroma_sample_loc_type_top_field = ue(); v.chroma_sample_loc_type_bottom_field = ue(); }
        if ((v.timing_info_present_flag = bit())) { v.num_units_in_tick = u(32); v.time_scale = u(32); v.fixed_frame_rate_flag = bit(); }
        if ((v.nal_hrd_parameters_present_flag = bit()) && !hrd(s)) return false;
        if ((v.vcl_hrd_parameters_present_flag = bit()) && !hrd(s)) return false;
        if (v.nal_hrd_parameters_present_flag || v.vcl_hrd_parameters_present_flag) v.low_delay_hrd_flag = bit();
        v.pic_struct_present_flag = bit();
        if ((v.bitstream_restriction_flag = bit())) {
            v.motion_vectors_over_pic_boundaries_flag = bit(); v.max_bytes_per_pic_denom = ue(); v.max_bits_per_mb_denom = ue();
            v.log2_max_mv_length_horizontal = ue(); v.log2_max_mv_length_vertical = ue(); v.num_reorder_frames = ue(); v.max_dec_frame_buffering = ue();
        }
        return true;
    }
    bool sps(sps_t* s) {
        memset(s, 0, sizeof *s);
        s->profile_idc = u(8);
        s->constraint_set0_flag = bit(); s->constraint_set1_flag = bit(); s->constraint_set2_flag = bit();
        s->constraint_set3_flag = bit(); s->constraint_set4_flag = bit(); s->constraint_set5_flag = bit();
        s->reserved_zero_2bits = u(2); s->level_idc = u(8); s->seq_parameter_set_id = ue(); s->chroma_format_idc = 1;
        int c = s->profile_idc;
        if (c == 100 || c == 110 || c == 122 || c == 144) {
            s->chroma_format_idc = ue();
            if (s->chroma_format_idc == 3) s->residual_colour_transform_flag = bit();
            s->bit_depth_luma_minus8 = ue(); s->bit_depth_chroma_minus8 = ue(); s->qpprime_y_zero_transform_bypass_flag = bit();
            if ((s->seq_scaling_matrix_present_flag = bit()))
                for (int i = 0; i < 8; i++) if ((s->seq_scaling_list_present_flag[i] = bit())) scaling(i < 6 ? 16 : 64);
        }
        s->log2_max_frame_num_minus4 = ue(); s->pic_order_cnt_type = ue();
        if (s->pic_order_cnt_type == 0) s->log2_max_pic_order_cnt_lsb_minus4 = ue();
        else if (s->pic_order_cnt_type == 1) {
            s->delta_pic_order_always_zero_flag = bit(); s->offset_for_non_ref_pic = se(); s->offset_for_top_to_bottom_field = se();
            s->num_ref_frames_in_pic_order_cnt_cycle = ue();
            if ((uint32_t)s->num_ref_frames_in_pic_order_cnt_cycle > 255) return false;
            for (int i = 0; i < s->num_ref_frames_in_pic_order_cnt_cycle; i++) s->offset_for_ref_frame[i] = se();
        }
        s->num_ref_frames = ue(); s->gaps_in_frame_num_value_allowed_flag = bit();
        s->pic_width_in_mbs_minus1 = ue(); s->pic_height_in_map_units_minus1 = ue();
        if (!(s->frame_mbs_only_flag = bit())) s->mb_adaptive_frame_field_flag = bit();
        s->direct_8x8_inference_flag = bit();
        if ((s->frame_cropping_flag = bit())) { s->frame_crop_left_offset = ue(); s->frame_crop_right_offset = ue(); s->frame_crop_top_offset = ue(); s->frame_crop_bottom_offset = ue(); }
        if ((s->vui_parameters_present_flag = bit()) && !vui(s)) return false;
        p = (p + 8) / 8 * 8;
        return true;
    }
};
static uint64_t val()
{
    int k = vp::upto(20);
    if (k < 12) return vp::upto(4);
    if (k < 16) return vp::upto(300);
    if (k < 18) return vp::interesting() & 0xffffffffu;
    return vp::rnd() >> vp::range(32, 63);
}
static void hrd(Bits& b)
{
    uint64_t n = vp::chance(90) ? vp::upto(5) : vp::range(25, 40);
    b.ue(n); b.put(vp::rnd(), 8);
    for (uint64_t i = 0; i <= n; i++) { b.ue(val()); b.ue(val()); b.put(vp::rnd(), 1); }
    b.put(vp::rnd(), 20);
}
static Bits sps()
{
    static const int prof[] = {66, 77, 88, 100, 110, 122, 144, 99, 101};
    Bits b; bool f;
    int c = vp::chance(90) ? prof[vp::upto(9)] : vp::upto(256);
    b.put(c, 8); b.put(vp::rnd(), 16); b.ue(val());
    if (c == 100 || c == 110 || c == 122 || c == 144) {
        b.ue(vp::upto(5)); b.put(vp::rnd(), 1);
        if (vp::chance(70)) { b.ue(vp::upto(4)); b.ue(vp::upto(4)); }
        b.put(vp::rnd(), 1); b.put(f = vp::chance(50), 1);
        if (f) for (int i = 0; i < 8; i++) { b.put(f = vp::chance(50), 1); if (f) { int n = vp::range(1, i < 6 ? 16 : 64); while (n--) b.se(vp::range(-9, 9)); } }
    }
    b.ue(vp::upto(10)); int t = vp::upto(3); b.ue(t);
    if (t == 0) b.ue(val());
    else if (t == 1) { b.put(vp::rnd(), 1); b.se(vp::range(-300, 300)); b.se(vp::range(-5, 5));
        uint64_t n = vp::chance(90) ? vp::upto(6) : vp::range(250, 262); b.ue(n); for (uint64_t i = 0; i < n; i++) b.se(vp::range(-40, 40)); }
    b.ue(val()); b.put(vp::rnd(), 1); b.ue(val()); b.ue(val()); b.put(vp::rnd(), vp::chance(50) ? 2 : 3);
    b.put(f = vp::chance(50), 1);
    if (f) for (int i = 0; i < 4; i++) b.ue(val());
    b.put(f = vp::chance(70), 1);
    if (f) {
        b.put(f = vp::chance(50), 1); if (f) { b.put(f = vp::chance(60), 8); if (f) b.put(vp::rnd(), vp::range(0, 32)); }
        b.put(f = vp::chance(50), 1); if (f) b.put(vp::rnd(), 1);
        b.put(f = vp::chance(50), 1); if (f) { b.put(vp::rnd(), 4); b.put(f = vp::chance(50), 1); if (f) b.put(vp::rnd(), 24); }
        b.put(f = vp::chance(50), 1); if (f) { b.ue(val()); b.ue(val()); }
        b.put(f = vp::chance(50), 1); if (f) { b.put(vp::rnd(), 65); }
        b.put(f = vp::chance(50), 1); if (f) hrd(b);
        b.put(f = vp::chance(50), 1); if (f) hrd(b);
        b.put(vp::rnd(), 2); b.put(f = vp::chance(50), 1);
        if (f) { b.put(vp::rnd(), 1); for (int i = 0; i < 6; i++) b.ue(val()); }
    }
    b.put(1, 1);
    return b;
}
static std::string hex(const V8& d) { std::string s; char x[4]; for (size_t i = 0; i < d.size() && i < 400; i++) { sprintf(x, "%02x", d[i]); s += x; } return s; }
struct Heap { uint8_t* p; Heap(size_t n) : p((uint8_t*)malloc(n)) {} ~Heap() { free(p); } };

static void unescape()
{
    static const uint8_t some[] = {0, 0, 0, 0, 3, 3, 1, 2, 4, 255};
    V8 d(vp::upto(24)); for (auto& x : d) x = vp::chance(95) ? some[vp::upto(10)] : vp::rnd();
    int n = d.size(), cap = vp::chance(60) ? n : vp::range(0, n + 2), size = n, rsize = cap;
    bool same = vp::chance(50); if (same) cap = n;
    vp::log("payload %s, room for %d bytes%s", hex(d).c_str(), cap, same ? ", one size" : "");
    V8 want; int z = 0, at = n < 1 ? 1 : n; bool ok = true;
    for (int i = 1; i < n; i++) {
        if (z == 2 && d[i] < 3) { ok = false; break; }
        if (z == 2 && d[i] == 3) { if (i + 1 < n && d[i + 1] > 3) { ok = false; break; } if (i + 1 == n) { at = i; break; } i++; z = 0; }
        if ((int)want.size() >= cap) { ok = false; break; }
        want.push_back(d[i]); z = d[i] ? 0 : z + 1;
    }
    Heap in(n), out(cap);
    if (n) memcpy(in.p, d.data(), n);
    int r = nal_to_rbsp(in.p, &size, out.p, same ? &size : &rsize);
    CHECK(r == (ok ? (int)want.size() : -1), "unescaping gives %d instead of %d", r, ok ? (int)want.size() : -1);
    if (ok) {
        CHECK((same ? size : rsize) == r && (same || size == at), "the sizes are %d and %d", size, rsize);
        for (int i = 0; i < r; i++) CHECK(out.p[i] == want[i], "byte %d is %d instead of %d", i, out.p[i], want[i]);
    }
    CHECK(!n || !memcmp(in.p, d.data(), n), "the input is changed");
}
static void fields()
{
    V8 d(vp::range(0, 30)); for (auto& x : d) x = vp::chance(60) ? 0 : vp::chance(50) ? 255 : vp::rnd();
    Heap m(d.size()); if (d.size()) memcpy(m.p, d.data(), d.size());
    bs_t* b = bs_new(m.p, d.size());
    Ref r(d);
    vp::log("bits %s", hex(d).c_str());
    for (int k = 0; k < 30; k++) {
        int op = vp::upto(5), n = vp::upto(33); uint32_t x, y;
        if (op == 0) { x = bs_read_u1(b); y = r.bit(); }
        else if (op == 1) { x = bs_read_u(b, n); y = r.u(n); }
        else if (op == 2) { x = bs_read_u8(b); y = r.u(8); }
        else if (op == 3) { x = bs_read_ue(b); y = r.ue(); }
        else { x = bs_read_se(b); y = r.se(); }
        static const char* nm[] = {"bit", "u", "u8", "ue", "se"};
        vp::log("%s(%d): %u", nm[op], n, x);
        CHECK(x == y, "read %u instead of %u", x, y);
        CHECK((uint64_t)(b->p - b->start) * 8 + 8 - b->bits_left == r.p, "the reader is at the wrong position");
    }
    bs_free(b);
}
static void parse()
{
    Bits g = sps();
    V8 d = g.d;
    if (vp::chance(25)) d.resize(vp::upto(d.size() + 1));
    if (vp::chance(25) && d.size()) for (int k = vp::range(1, 4); k--;) d[vp::upto(d.size())] ^= 1 << vp::upto(8);
    if (vp::chance(10)) for (auto& x : d) x = vp::chance(50) ? 0 : vp::rnd();
    vp::log("parameter set %s", hex(d).c_str());
    Heap m(d.size()), s(sizeof(sps_t)); if (d.size()) memcpy(m.p, d.data(), d.size());
    memset(s.p, 0xa5, sizeof(sps_t));
    bs_t* b = bs_new(m.p, d.size());
    sps_t* got = (sps_t*)s.p; static sps_t want;
    Ref r(d);
    int x = read_seq_parameter_set_rbsp(got, b);
    bool ok = r.sps(&want);
    CHECK(x == (ok ? 0 : -1), "the parser returns %d", x);
    for (size_t i = 0; i < sizeof(sps_t) / 4; i++)
        CHECK(((int*)got)[i] == ((int*)&want)[i], "word %d of the parameter set is %d instead of %d", (int)i, ((int*)got)[i], ((int*)&want)[i]);
    CHECK((uint64_t)(b->p - b->start) * 8 + 8 - b->bits_left == r.p, "the reader is at bit %ld instead of %ld", (long)((b->p - b->start) * 8 + 8 - b->bits_left), (long)r.p);
    bs_free(b);
}
int main(int argc, char** argv)
{
    vp::init(argc, argv);
    while (vp::more()) {
        vp::begin();
        int op = vp::upto(3);
        if (op == 0) unescape(); else if (op == 1) fields(); else parse();
    }
    return vp::done();
}
