from seedlib import *
A = '''
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <vector>
#include "modules/transmitter/SPSparser/h264_stream.h"
#include "modules/transmitter/SPSparser/bs.h"
struct Bits {
    std::vector<uint8_t> d; size_t n;
    Bits() : n(0) {}
    Bits& put(uint64_t v, int k) { while (k--) { if (n % 8 == 0) d.push_back(0); d[n / 8] |= ((v >> k) & 1) << (7 - n % 8); n++; } return *this; }
    Bits& ue(uint64_t v) { int z = 0; while (((v + 1) >> (z + 1))) z++; put(0, z); return put(v + 1, z + 1); }
    Bits& head(int profile) { return put(profile, 8).put(0, 8).put(31, 8).ue(0); }
    Bits& mid() { return ue(0).put(0, 1); }
};
static sps_t s;
static int parse(Bits& b) { b.put(1, 1); while (b.d.size() < 4000) b.d.push_back(0); bs_t* r = bs_new(&b.d[0], b.d.size()); int x = read_seq_parameter_set_rbsp(&s, r); bs_free(r); return x; }
static int unescape(std::vector<uint8_t> d, std::vector<uint8_t>& out, int room = 99) {
    std::vector<uint8_t> o(128, 0xee); int n = d.size(), m = room; int r = nal_to_rbsp(&d[0], &n, &o[0], &m); out = o; return r; }
'''
H, B = ('src/modules/transmitter/SPSparser/' + x for x in ('h264_stream.c', 'bs.h'))
SRC = [H]
seed('p19-escape-count', 'P19', [(H, '''            i++;
            count = 0;
        }''', '''            i++;
        }''')], A + '''
int main() { std::vector<uint8_t> o; int r = unescape({0x67, 0, 0, 3, 0, 0, 3, 1, 9}, o); return r == 6 && o[2] == 0 && o[3] == 0 && o[4] == 1 && o[5] == 9 ? 0 : 1; }
''', SRC, 'a run of four zero bytes, escaped twice', 'the payload is refused as if it held a start code')
seed('p19-escape-fourth', 'P19', [(H, '(i < *nal_size - 1) && (nal_buf[i+1] > 0x03)', '(i < *nal_size - 1) && (nal_buf[i+1] >= 0x03)')], A + '''
int main() { std::vector<uint8_t> o; int r = unescape({0x67, 0, 0, 3, 3, 9}, o); return r == 4 && o[2] == 3 && o[3] == 9 ? 0 : 1; }
''', SRC, 'two zeros followed by a 3 in the original payload', 'an escaped 3 is refused')
seed('p19-room', 'P19', [(H, 'if ( j >= *rbsp_size )', 'if ( j > *rbsp_size )')], A + '''
int main() { std::vector<uint8_t> o; int r = unescape({0x67, 1, 2, 3, 4}, o, 3); return r == -1 && o[3] == 0xee ? 0 : 1; }
''', SRC, 'one byte more than the output has room for', 'a byte is written behind the output')
seed('p19-cabac', 'P19', [(H, '''            if(i == *nal_size - 1)
            {
                break;''', '''            if(i == *nal_size - 1 && j > 2)
            {
                break;''')], A + '''
int main() { std::vector<uint8_t> o; int r = unescape({0x67, 0, 0, 3}, o); return r == 2 ? 0 : 1; }
''', SRC, 'a payload that only consists of a cabac zero word', 'a byte behind the input is delivered')
seed('p19-ue-zeros', 'P19', [(B, '(bs_read_u1(b) == 0) && (i < 32) && (!bs_eof(b))', '(bs_read_u1(b) == 0) && (i < 24) && (!bs_eof(b))')], A + '''
int main() { Bits b; b.put(1, 3).ue((1u << 25) + 77).put(0, 16); bs_t* r = bs_new(&b.d[0], b.d.size()); bs_read_u(r, 3); return bs_read_ue(r) == (1u << 25) + 77 ? 0 : 1; }
''', SRC, 'a code with more than 24 leading zeros', 'a large value is decoded wrongly')
seed('p19-eof', 'P19', [(B, 'if (b->p >= b->end) { return 1; } else { return 0; }', 'if (b->p > b->end) { return 1; } else { return 0; }')], A + '''
int main() { uint8_t d[2] = {0xff, 0xff}; bs_t* r = bs_new(d, 1); bs_read_u8(r); return bs_read_u1(r) == 0 ? 0 : 1; }
''', SRC, 'a field that ends behind the last byte', 'a byte behind the buffer is read')
seed('p19-crop-order', 'P19', [(H, '''        sps->frame_crop_top_offset = bs_read_ue(b);
        sps->frame_crop_bottom_offset = bs_read_ue(b);''', '''        sps->frame_crop_bottom_offset = bs_read_ue(b);
        sps->frame_crop_top_offset = bs_read_ue(b);''')], A + '''
int main() { Bits b; b.head(66).ue(0).ue(0).ue(0).mid().ue(10).ue(20).put(1, 1).put(1, 1).put(1, 1).ue(1).ue(2).ue(3).ue(4).put(0, 1);
    return parse(b) == 0 && s.frame_crop_top_offset == 3 && s.frame_crop_bottom_offset == 4 ? 0 : 1; }
''', SRC, 'a cropped picture', 'the top and bottom cropping are exchanged')
seed('p19-profile', 'P19', [(H, 'sps->profile_idc == 122 || sps->profile_idc == 144', 'sps->profile_idc == 122 || sps->profile_idc >= 144')], A + '''
int main() { Bits b; b.head(244).ue(0).ue(0).ue(0).ue(0).ue(0).ue(10).ue(20).put(1, 1).put(1, 1).put(0, 2); parse(b); return s.chroma_format_idc == 1 ? 0 : 1; }
''', SRC, 'a profile above 144', 'fields are read that this profile does not have')
seed('p19-scaling-last', 'P19', [(H, 'for( j = 0; j < sizeOfScalingList; j++ )', 'for( j = 0; j < sizeOfScalingList && nextScale != 0; j += 1 + ( j == 62 ) )')], A + '''
int main() { Bits b; b.head(100).ue(1).ue(0).ue(0).put(0, 1).put(1, 1).put(0, 6).put(1, 1); for (int i = 0; i < 64; i++) b.ue(2 * (i % 2) + 1); b.put(0, 1);
    b.ue(5).ue(2).ue(7).put(0, 1).ue(10).ue(20).put(1, 1).put(1, 1).put(0, 2); return parse(b) == 0 && s.pic_width_in_mbs_minus1 == 10 ? 0 : 1; }
''', SRC, 'a full 8x8 scaling list', 'everything behind the list is misread')
seed('p19-hrd-flag', 'P19', [(H, 'sps->vui.nal_hrd_parameters_present_flag || sps->vui.vcl_hrd_parameters_present_flag', 'sps->vui.nal_hrd_parameters_present_flag')], A + '''
int main() { Bits b; b.head(66).ue(0).ue(0).ue(0).mid().ue(10).ue(20).put(1, 1).put(1, 1).put(0, 1).put(1, 1).put(0, 5).put(0, 1).put(1, 1)
    .ue(0).put(0, 8).ue(5).ue(6).put(0, 1).put(0, 20).put(0, 1).put(1, 1).put(0, 1); return parse(b) == 0 && s.vui.pic_struct_present_flag == 1 ? 0 : 1; }
''', SRC, 'only VCL reference decoder parameters', 'the low delay flag is not read')
