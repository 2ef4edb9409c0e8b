#!/opt/veriftools/pyvenv/bin/python3
"""developer aid: dbg.py <property> <proof regex> [<obligation regex>] -- generate, decide and dump obligations to /tmp/w/ob"""
import sys, os, importlib, re, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
from gbsv import build, solve
from gbsv.ir import Module
import z3
pid, rx = sys.argv[1:3]
orx = sys.argv[3] if len(sys.argv) > 3 else '.'
prop = importlib.import_module('props.' + pid)
os.makedirs('/tmp/w/ob', exist_ok=True)
mods = {}
for p in prop.PROOFS:
    if not re.search(rx, p.name):
        continue
    if p.tu not in mods:
        t = time.time()
        build.compile_unit(p.tu, '/tmp/w/%s.ll' % p.tu, False)
        mods[p.tu] = Module('/tmp/w/%s.ll' % p.tu)
        print('build %.1fs' % (time.time() - t))
    t = time.time()
    ex = p.generate(mods[p.tu])
    print('== %s: %d obligations, %d paths, gen %.1fs' % (p.name, len(ex.obls), ex.npaths, time.time() - t))
    for i, ob in enumerate(ex.obls):
        if not re.search(orx, ob.name):
            continue
        txt = solve.smt2_of(ex, ob)
        fn = '/tmp/w/ob/%s_%d.smt2' % (re.sub(r'\W+', '_', p.name), i)
        open(fn, 'w').write(txt)
        if '-n' in sys.argv:
            print(i, ob.name, ob.where, fn)
            continue
        r = solve.decide(txt, 10)
        if r[0] == 'proved' and r[3] < 2: continue
        print(i, ob.name, ob.where, r[0], r[2], '%.1f' % r[3], '' if r[0] == 'proved' else fn)
        sys.stdout.flush()
