#!/usr/bin/env python3
"""usage: mkseed.py SPEC.py [id...] -- makes seeded/<id>/ from a spec and confirms each: applies, builds, passes the
stable tests, demo passes unchanged and fails changed. SPEC.py defines SEEDS = {id: dict(prop, needs, breaks, edits=[(file, old, new)...], demo=C++ source, san=flags)}."""
import sys, os, json, subprocess, shutil, concurrent.futures as cf
spec = {}; exec(open(sys.argv[1]).read(), spec); S = spec['SEEDS']
want = sys.argv[2:] or list(S)
OUT = '/verif/seeded'
DEMO = '''#!/bin/bash
# run in the repository: exit 0 when it behaves, nonzero when it does not
HERE=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d) || exit 2
trap 'rm -rf "$T"' EXIT
clang++ -std=c++14 -O0 -w %(san)s -I"$PWD/include" -DDART_HAS_RAPIDJSON=1 -DDART_HAS_YAML=1 "$HERE/demo.cc" %(extra)s -o "$T/demo" -lyaml -lpthread || exit 2
ASAN_OPTIONS=detect_leaks=%(leaks)s timeout 200 "$T/demo"
'''
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
def one(i):
    d = S[i]; t = '/tmp/seedwork/' + i; sh('rm -rf ' + t); os.makedirs('/tmp/seedwork', exist_ok=True); sh('cp -a /repo ' + t); sh('git -C %s checkout -- .' % t)
    for f, old, new in d['edits']:
        p = t + '/' + f; s = open(p).read()
        if s.count(old) != 1: return i, 'edit matches %d times in %s: %r' % (s.count(old), f, old[:60])
        open(p, 'w').write(s.replace(old, new))
    o = OUT + '/' + i; os.makedirs(o, exist_ok=True)
    open(o + '/patch.diff', 'w').write(sh('git -C %s diff' % t).stdout)
    open(o + '/demo.cc', 'w').write(d['demo'].lstrip())
    open(o + '/demo.sh', 'w').write(DEMO % dict(san=d.get('san', ''), leaks=d.get('leaks', 0), extra=d.get('extra', ''))); os.chmod(o + '/demo.sh', 0o755)
    json.dump({'property': d['prop'], 'needs': d['needs'], 'what_it_breaks': d['breaks']}, open(o + '/meta.json', 'w'), indent=1)
    a = sh('cd /repo && bash %s/demo.sh' % o)
    if a.returncode: return i, 'demo fails unchanged: ' + (a.stdout + a.stderr)[:1500]
    b = sh('cd %s && bash %s/demo.sh' % (t, o))
    if b.returncode in (0, 2, 124): return i, 'demo does not fail changed (%d): %s' % (b.returncode, (b.stdout + b.stderr)[:1500])
    r = sh("unshare -Urm bash -c 'mount --bind %s /repo && bash /opt/vp/test.sh %s/tests.json'" % (t, t))
    try: g = set(json.load(open(t + '/tests.json'))['passed'])
    except Exception as e: return i, 'tests: ' + r.stdout[-500:] + r.stderr[-500:]
    miss = set(json.load(open('/opt/vp/BASELINE.json'))['stable']) - g
    if miss: return i, 'tests fail: %s' % sorted(miss)[:5]
    return i, 'ok'
with cf.ThreadPoolExecutor(1) as ex:
    for i, r in ex.map(one, want):
        print(i, r, flush=True)
        if r != 'ok': shutil.move(OUT + '/' + i, '/tmp/seedwork/bad_' + i) if os.path.isdir(OUT + '/' + i) and not os.path.isdir('/tmp/seedwork/bad_' + i) else sh('rm -rf %s/%s' % (OUT, i))
