#!/usr/bin/env python3
"""mkseed.py SPEC.py  -- development aid: turns a seed spec into seeded/<id>/ after confirming it in a scratch copy.
SPEC defines a list SEEDS of dicts: id, property, file, old, new (or edits=[(file,old,new)]), demo (C++ main body file text), needs, breaks, asan(bool)."""
import sys, os, subprocess, json, shutil, runpy
ROOT = '/verif'; W = '/tmp/seedwt'
def sh(c, cwd=None, env=None): return subprocess.run(c, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env)
DEMO = '''#!/bin/bash
# exit 0: behaves; nonzero: broken
d="$(cd "$(dirname "$0")" && pwd)"; t="$(mktemp -d)"; trap 'rm -rf "$t"' EXIT
c=""; [ -d /opt/vp/compat ] && c="-I/opt/vp/compat"
%s -std=c++20 -g -O1 -w %s -I include -I "$d" $c -isystem /usr/include/eigen3 -include memory "$d/demo.cpp" -o "$t/demo" -lmsgpackc -lflatbuffers || exit 3
timeout 60 "$t/demo" >"$t/out" 2>&1; rc=$?; tail -5 "$t/out"; exit $rc
'''
def main():
    only = sys.argv[2:]
    for s in runpy.run_path(sys.argv[1])['SEEDS']:
        if only and s['id'] not in only: continue
        sh('rm -rf /tmp/seedwt'); sh('git clone -q /repo /tmp/seedwt')
        edits = s.get('edits') or [(s['file'], s['old'], s['new'])]
        bad = False
        for f, o, n in edits:
            p = os.path.join(W, f if f.startswith('include') else 'include/zerialize/' + f); t = open(p).read()
            if t.count(o) != 1: print(s['id'], 'old text count', t.count(o), f); bad = True; break
            open(p, 'w').write(t.replace(o, n))
        if bad: continue
        diff = sh('git diff', cwd=W).stdout
        orig = sh('git ls-tree -r --name-only bdadc83 include | while read f; do git show bdadc83:$f; done', cwd=W).stdout.decode().splitlines()
        rem = [l[1:] for l in diff.decode().splitlines() if l.startswith('-') and not l.startswith('---') and len(l.strip()) > 3]
        print(s['id'], 'removed lines', len(rem), 'original', sum(l in orig for l in rem), '' if all(l in orig for l in rem) and rem else '  *** not all original')
        d = os.path.join(ROOT, 'seeded', s['id']); os.makedirs(d, exist_ok=True)
        open(d + '/patch.diff', 'wb').write(diff)
        open(d + '/demo.cpp', 'w').write(s['demo'])
        if s.get('stubs'): sh('cp -r /verif/stubs/. ' + d)
        asan = s.get('asan')
        open(d + '/demo.sh', 'w').write(DEMO % (('clang++', '-fsanitize=address,alignment -fno-sanitize-recover=all') if asan else ('g++', '')))
        os.chmod(d + '/demo.sh', 0o755)
        json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(d + '/meta.json', 'w'), indent=1)
        r0 = sh('bash %s/demo.sh' % d, cwd='/repo'); r1 = sh('bash %s/demo.sh' % d, cwd=W)
        tests = ''
        if s.get('test', True):
            sh('git -C /repo apply %s/patch.diff' % d)
            b = sh('bash /opt/vp/build.sh'); t = sh('bash /opt/vp/test.sh /tmp/seed-t.json')
            try:
                j = json.load(open('/tmp/seed-t.json')); base = json.load(open('/opt/vp/BASELINE.json'))
                names = base.get('stable') or base.get('passed') or base.get('tests') or []
                tests = 'build rc %d; passed %d; missing %s' % (b.returncode, len(j['passed']), [x for x in names if x not in j['passed']][:3] if names else '?')
            except Exception as e: tests = 'tests? %s %s' % (e, t.stdout[-200:])
            sh('git -C /repo checkout -- .')
        print(s['id'], s['property'], 'demo clean rc', r0.returncode, 'patched rc', r1.returncode, '|', tests, '' if r0.returncode == 0 else r0.stdout.decode()[-800:], r1.stdout.decode()[-200:])
    sh('rm -rf /tmp/seedwt')
main()
