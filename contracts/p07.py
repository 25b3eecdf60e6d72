"""P07: media segments are well-formed fragments describing exactly their samples."""
from verify import *
import p09
from isoff import *

SRC = ['src/modules/dasher/i2libisoff.c']


def setup(V):
    for kind in ('video', 'audio'):
        for case in ('', 'no context', 'no destination', 'no source'):
            st = V.state()
            pp, c, m, s = p09.ctx(V, st, kind)
            n = V.bv('payload length')
            st.assume(ule(n, MAXD))
            src = V.bytes(st, 'payload', zext(n, 32, 64))
            out = V.bytes(st, 'segment', CAP)
            t = V.bv('type')
            st.assume(ne(t, AUDIO) if kind == 'video' else lnot(lor(eq(t, AVC), eq(t, HEVC))))
            if case == 'no context':
                st.cells(pp.obj)[0] = (8, NULL)
            yield ('%s %s' % (kind, case)).strip(), st, [NULL if case == 'no source' else src, n, NULL if case == 'no destination' else out, t, pp]


def run(V):
    V.ex.loopspecs[('write_trun', 0)] = loop_trun
    V.prove('segmentGenerator', s_segment, setup)


NATIVE = {'driver': 'p07.cpp', 'sources': ['src/modules/dasher/i2libdash.c', 'src/modules/dasher/i2libisoff.c'],
          'libs': ['-Wl,--unresolved-symbols=ignore-all'], 'flags': ''}
