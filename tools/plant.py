#!/usr/bin/env python3
"""plant.py [ID...]: makes the planted changes of tools/bugs*.py into /verif/seeded/<id>/ after confirming, in /repo's
working tree, that each compiles, passes the tests, and that its demonstration fails with it and passes without it."""
import glob, importlib.util, json, os, re, shutil, subprocess, sys
HERE = os.path.dirname(os.path.abspath(__file__))
SEEDED = os.path.join(HERE, '..', 'seeded')
DEMO = '''#!/bin/bash
# cwd: the repository, after its build.  Exit 0 when the property holds.
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
find src -name '*.cc' | xargs -P 8 -I{} bash -c 'g++ -std=gnu++17 -w -O1 -g -DNDEBUG %FLAGS% -Isrc -c "$1" -o "$2/$(echo "$1" | tr / _).o"' _ {} "$t" || exit 3
g++ -std=gnu++17 -w -O1 -g -DNDEBUG %FLAGS% -Isrc -I"$d" "$d/demo.cc" "$t"/*.o -o "$t/demo" -lpthread || exit 3
ulimit -c 0
%ENV% timeout 120 "$t/demo"
'''
def sh(c, **k):
    return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def main():
    bugs = []
    for f in sorted(glob.glob(os.path.join(HERE, 'bugs*.py'))):
        sp = importlib.util.spec_from_file_location('b', f); m = importlib.util.module_from_spec(sp); sp.loader.exec_module(m)
        bugs += m.BUGS
    only = sys.argv[1:]
    mine = set(sh('git -C /repo log --format=%h --abbrev=8 --grep="^fix:"').stdout.split())
    stable = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
    for b in bugs:
        if only and b['id'] not in only: continue
        if not only and os.path.exists(os.path.join(SEEDED, b['id'], 'meta.json')): continue
        assert not sh('git -C /repo status --short').stdout, 'dirty /repo'
        tmp = '/tmp/seed_' + b['id']
        shutil.rmtree(tmp, ignore_errors=True); os.makedirs(tmp)
        fl = '-fsanitize=address -fno-sanitize-recover=all' if b.get('asan') else b.get('flags', '')
        env = 'ASAN_OPTIONS=detect_leaks=%d:allocator_may_return_null=1' % (1 if b.get('leak') else 0) if b.get('asan') else b.get('env', '')
        open(tmp + '/demo.sh', 'w').write(DEMO.replace('%FLAGS%', fl).replace('%ENV%', env))
        os.chmod(tmp + '/demo.sh', 0o755)
        shutil.copy(os.path.join(HERE, 'demo_common.h'), tmp + '/d.h')
        open(tmp + '/demo.cc', 'w').write('#include "d.h"\n' + b['demo'])
        json.dump({'property': b['property'], 'needs': b['needs'], 'what_it_breaks': b['what']}, open(tmp + '/meta.json', 'w'), indent=1)
        r = sh(f'bash {tmp}/demo.sh', cwd='/repo')
        if r.returncode != 0:
            print(b['id'], 'DEMO FAILS ON THE UNCHANGED TREE', r.returncode, r.stdout[-1500:]); continue
        ok = True
        for f, old, new in b['edits']:
            p = '/repo/' + f
            s = open(p).read()
            if s.count(old) != 1: print(b['id'], 'edit does not apply', f, s.count(old), old); ok = False; break
            open(p, 'w').write(s.replace(old, new))
        if ok:
            diff = sh('git -C /repo diff').stdout
            open(tmp + '/patch.diff', 'w').write(diff)
            # removed lines have to be original ones
            removed = 0
            for f in set(e[0] for e in b['edits']):
                for m in re.finditer(r'^@@ -(\d+)(?:,(\d+))? ', sh(f'git -C /repo diff -U0 {f}').stdout, re.M):
                    a, n = int(m.group(1)), int(m.group(2) or 1)
                    if not n: continue
                    removed += n
                    for l in sh(f'git -C /repo blame -s --abbrev=8 -L{a},{a+n-1} HEAD -- {f}').stdout.splitlines():
                        if l.split()[0][:8] in mine or l.split()[0][:7] in {x[:7] for x in mine}: print(b['id'], 'changes a line of a fix:', l); ok = False
            if not removed: print(b['id'], 'note: removes no original line')
        if ok:
            sh('bash /opt/vp/test.sh /tmp/seed_test.json')
            t = json.load(open('/tmp/seed_test.json'))
            miss = stable - set(t['passed'])
            if miss: print(b['id'], 'TESTS FAIL', len(miss), sorted(miss)[:3]); ok = False
        if ok:
            r = sh(f'bash {tmp}/demo.sh', cwd='/repo')
            if r.returncode in (0, 3): print(b['id'], 'DEMO PASSES WITH THE CHANGE', r.returncode, r.stdout[-1500:]); ok = False
        sh('git -C /repo checkout -- .')
        if ok:
            d = os.path.join(SEEDED, b['id'])
            shutil.rmtree(d, ignore_errors=True); shutil.move(tmp, d)
            print(b['id'], 'kept; demo:', r.returncode, r.stdout.strip().splitlines()[-1:] if not b.get('asan') else [l for l in r.stdout.splitlines() if 'ERROR' in l or 'FAIL' in l][:1])
        else: shutil.rmtree(tmp, ignore_errors=True)
    sh('bash /opt/vp/build.sh')
main()
