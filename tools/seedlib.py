"""development aid: writes seeded/<id>/ from an edit and a demonstration, and checks the demonstration on scratch copies"""
import sys, os, subprocess, json, shutil, tempfile
V = '/verif/seeded'
SH = '''#!/bin/bash
# run in the root of the source tree; compiles the demonstration against it
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 9
trap 'rm -rf "$t"' EXIT
inc="-I. -Isrc -I/opt/vp/cmake/include -I/usr/include/opencv4 -D__STDC_CONSTANT_MACROS"
%(c)sg++ -std=c++11 -g -O1 -w -fno-access-control %(flags)s $inc "$d/demo.cpp" %(src)s %(libs)s -lpthread -o "$t/demo" || exit 8
cd "$t" && timeout 120 ./demo
'''


def seed(id, prop, edits, demo, src, needs, breaks, libs='-llog4cplus -lavcodec -lavutil -lavformat -lswscale -lswresample -lopencv_core -lopencv_imgproc', flags='', repo='/repo'):
    if len(sys.argv) > 1 and id not in sys.argv[1:]:
        return
    d = os.path.join(V, id)
    os.makedirs(d, exist_ok=True)
    cs = [s for s in src if s.endswith('.c')]
    cpp = [s for s in src if not s.endswith('.c')]
    c = ''.join('gcc -g -O1 -w %s $inc -c %s -o "$t/%d.o" || exit 8\n' % (flags, s, i) for i, s in enumerate(cs))
    objs = ' '.join('"$t/%d.o"' % i for i in range(len(cs)))
    open(d + '/demo.sh', 'w').write(SH % {'c': c, 'flags': flags, 'src': ' '.join(cpp) + ' ' + objs, 'libs': libs})
    os.chmod(d + '/demo.sh', 0o755)
    open(d + '/demo.cpp', 'w').write(demo.lstrip('\n'))
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(d + '/meta.json', 'w'), indent=1)
    t = tempfile.mkdtemp(prefix='seed')
    try:
        subprocess.run('git -C %s archive HEAD | tar x -C %s' % (repo, t), shell=True, check=True)
        subprocess.run('cd %s && git init -q && git add -A >/dev/null && git -c user.email=a -c user.name=a commit -qm x' % t, shell=True, check=True)
        a = subprocess.run(['bash', d + '/demo.sh'], cwd=t, capture_output=True, text=True)
        for f, o, n in edits:
            s = open(os.path.join(t, f)).read()
            assert s.count(o) >= 1, 'text not found: ' + o
            open(os.path.join(t, f), 'w').write(s.replace(o, n, 1))
        p = subprocess.run(['git', 'diff'], cwd=t, capture_output=True, text=True).stdout
        open(d + '/patch.diff', 'w').write(p)
        b = subprocess.run(['bash', d + '/demo.sh'], cwd=t, capture_output=True, text=True)
        env = dict(os.environ, VP_REPO=t)
        k = subprocess.run(['python3-vt', '/verif/check.py', prop], capture_output=True, text=True, env=env)
        print('%s: demo %d -> %d   check -> %d   %s' % (id, a.returncode, b.returncode, k.returncode, k.stdout.strip().splitlines()[-1] if k.stdout.strip() else k.stderr[-300:]))
        if a.returncode:
            print(a.stdout[-400:], a.stderr[-400:])
        if b.returncode in (0, 8, 9):
            print(b.stdout[-400:], b.stderr[-400:])
    finally:
        shutil.rmtree(t)


D = 'src/modules/dasher/'
DASH_LIBS = '-llog4cplus -lavutil -lavcodec -ltinyxml2 -Wl,--unresolved-symbols=ignore-all'
DASH_SRC = [D + x for x in ('i2libdash.c', 'i2libisoff.c', 'Dasher.cpp', 'DashVideoSegmenter.cpp', 'DashVideoSegmenterAVC.cpp', 'DashVideoSegmenterHEVC.cpp', 'DashAudioSegmenter.cpp', 'MpdManager.cpp')] + \
      ['src/' + x for x in ('VideoFrame.cpp', 'AudioFrame.cpp', 'Frame.cpp', 'Filter.cpp', 'IOInterface.cpp', 'Event.cpp', 'Jzon.cpp', 'Utils.cpp', 'AVFramedQueue.cpp', 'Runnable.cpp')]
