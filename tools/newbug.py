#!/usr/bin/env python3
"""developer aid: newbug.py <spec.py> ; spec defines BUGS = [dict(id, prop, edits=[(file, old, new)], needs, what, demo)] -> seeded/<id>/"""
import sys, os, json, subprocess, runpy
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = '/tmp/bug/wt'
DEMO = '''#!/bin/bash
# cwd: the repository; exit 0 when the property holds
here="$(cd "$(dirname "$0")" && pwd)"
t="$(mktemp -d)"; trap 'rm -rf "$t"' EXIT
clang++-18 -std=c++20 -O1 -w -I"$PWD" -I"$PWD/inc" -I/usr/include/eigen3 "$here/demo.cpp" -o "$t/demo" %s || exit 3
timeout 120 "$t/demo"
'''
for b in runpy.run_path(sys.argv[1])['BUGS']:
    d = os.path.join(H, 'seeded', b['id'])
    subprocess.run(['rm', '-rf', W]); subprocess.run(['git', 'clone', '-q', '/repo', W], check=True)
    for f, o, n in b['edits']:
        s = open(os.path.join(W, f)).read()
        assert s.count(o) == 1, (b['id'], f, s.count(o), o)
        open(os.path.join(W, f), 'w').write(s.replace(o, n))
    os.makedirs(d, exist_ok=True)
    open(d + '/patch.diff', 'w').write(subprocess.run(['git', '-C', W, 'diff'], capture_output=True, text=True).stdout)
    open(d + '/demo.cpp', 'w').write(b['demo'].lstrip())
    open(d + '/demo.sh', 'w').write(DEMO % b.get('libs', '-ltbb'))
    os.chmod(d + '/demo.sh', 0o755)
    json.dump({'property': b['prop'], 'needs': b['needs'], 'what_it_breaks': b['what']}, open(d + '/meta.json', 'w'), indent=1)
    print(b['id'])
subprocess.run(['rm', '-rf', W])
