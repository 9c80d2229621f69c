#!/usr/bin/env python3
"""Planted bugs (development aid).
 seed.py new ID PROP NEEDS WHAT   takes the patch from the changes in /tmp/mut and demo.cpp from stdin
 seed.py verify ID...             confirms each one in /repo (build, tests, demo with and without), then runs the check
 seed.py demo ID...               runs only the demos on the current tree"""
import json, os, subprocess, sys, time
S = '/verif/seeded'
DEMO = '''#!/bin/bash
# builds and runs demo.cpp against the tree built in /repo
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d) || exit 9
trap 'rm -rf "$T"' EXIT
export LD_LIBRARY_PATH=/repo/_build/root/lib POTHOS_ROOT=/repo/_build/root HOME=$T XDG_DATA_HOME=$T XDG_CONFIG_HOME=$T
OBJS=$(find /repo/_build/lib -name '*.cpp.o')
g++ -std=gnu++14 -O1 -g1 -w -fno-access-control %s -DPOCO_ENABLE_CPP11 -DPOCO_OS_FAMILY_UNIX -I/repo/include -I/repo/lib -I/usr/include/nlohmann "$D/demo.cpp" $OBJS -o "$T/demo" \\
    $(ldd /repo/_build/root/lib/libPothos.so | awk '$3 ~ /libPoco|libmuparserx|libnuma/ {print $3}') -rdynamic -latomic -lpthread -ldl -lrt || exit 9
cd "$T" && timeout 120 ./demo
'''
def poco():
    for l in sorted(os.listdir('/usr/lib/x86_64-linux-gnu')):
        if l.startswith('libPocoFoundation.so'): return l
def sh(cmd, **k): return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **k)
def new(i, prop, needs, what, extra=''):
    d = os.path.join(S, i); os.makedirs(d, exist_ok=True)
    diff = subprocess.run(['git', '-C', '/tmp/mut', 'diff'], stdout=subprocess.PIPE).stdout
    assert diff
    open(d + '/patch.diff', 'wb').write(diff)
    open(d + '/demo.cpp', 'w').write(sys.stdin.read())
    open(d + '/demo.sh', 'w').write(DEMO % extra); os.chmod(d + '/demo.sh', 0o755)
    json.dump(dict(property=prop, needs=needs, what_it_breaks=what), open(d + '/meta.json', 'w'), indent=1)
    sh('git -C /tmp/mut checkout -q -- .')
def demo(i):
    r = sh('cd /repo && bash %s/%s/demo.sh' % (S, i)); return r.returncode, r.stdout.decode(errors='replace')[-1500:]
def build():
    r = sh('bash /opt/vp/build.sh')
    return r.returncode == 0, r.stdout.decode(errors='replace')[-1500:]
def clean(): sh('git -C /repo checkout -- .')
def verify(ids):
    base = set(json.load(open('/opt/vp/BASELINE.json')).get('passed') or json.load(open('/opt/vp/BASELINE.json'))['stable'])
    assert not sh('git -C /repo status --porcelain').stdout
    try:
        for i in ids:
            m = json.load(open('%s/%s/meta.json' % (S, i)))
            r = sh('git -C /repo apply %s/%s/patch.diff' % (S, i))
            if r.returncode: print(i, 'PATCH DOES NOT APPLY', r.stdout); continue
            r = sh('bash /opt/vp/test.sh /tmp/seed-out.json')
            res = json.load(open('/tmp/seed-out.json')); lost = base - set(res['passed'])
            drc, dout = demo(i)
            t = time.time(); c = sh('cd /verif && python3 check.py %s quick' % m['property']); t = time.time() - t
            clean()
            out = c.stdout.decode(errors='replace')
            print(i, 'build', 'ok' if r.returncode == 0 else 'FAILED', 'tests', 'ok' if not lost else 'LOST %s' % sorted(lost)[:5], 'demo', drc, 'check', c.returncode, '%.0fs' % t, flush=True)
            if drc == 0 or drc == 9: print(dout)
            print('   ', '\n    '.join(out.strip().split('\n')[-3:])[-600:], flush=True)
    finally: clean()
    print('clean build', build()[0])
    for i in ids:
        drc, dout = demo(i)
        print(i, 'clean demo', drc, dout if drc else '', flush=True)
if __name__ == '__main__':
    if sys.argv[1] == 'new': new(*sys.argv[2:])
    elif sys.argv[1] == 'verify': verify(sys.argv[2:] or sorted(os.listdir(S)))
    else:
        for i in sys.argv[2:] or sorted(os.listdir(S)): print(i, *demo(i))
