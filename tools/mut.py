#!/opt/veriftools/pyvenv/bin/python3
"""developer aid: mut.py N SEED file:first-last:PROP,PROP ... ; one-token changes of the given lines, in a scratch copy of /repo; the properties' native suites are run on each.
Prints the changes nothing noticed (to be looked at: equivalent, or a gap)."""
import sys, os, re, random, subprocess, importlib, concurrent.futures as cf, json
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SUBS = [(r'<=', '<'), (r'>=', '>'), (r'(?<![<>\w:])<(?![<=])(?= )', '<='), (r'(?<![->\w])>(?![>=])(?= )', '>='), (r' \+ ', ' - '), (r' - ', ' + '), (r'\+\+', '--'), (r'==', '!='), (r'!=', '=='), (r'&&', '||'), (r'\|\|', '&&'),
        (r'\bfront\(\)', 'back()'), (r'\bback\(\)', 'front()'), (r'\bmin\b', 'max'), (r'\bmax\b', 'min'), (r'\b1\b', '2'), (r'\b0\b', '1'), (r'\b2\b', '1'), (r' \* ', ' + '), (r'\bu\b', 'v'), (r'\bnu\b', 'nv'), (r'\bnv\b', 'nu'),
        (r'\bu1\b', 'u2'), (r'\bu2\b', 'u1'), (r'\bk1\b', 'k2'), (r'\btrue\b', 'false'), (r'\[0\]', '[1]'), (r'\[1\]', '[0]'), (r'\bdegU\b', 'degV'), (r'U\b', 'V'), (r'V\b', 'U'), (r'\+=', '-='), (r'm_deg\b', '(m_deg+1)'), (r'return;', ';')]
RUN = '''
import sys, os, importlib
sys.path.insert(0, %r)
from gbsv import build, native
P = importlib.import_module('props.' + sys.argv[1])
S = P.SUITE
so = sys.argv[2] + '.so'
try:
    build.compile_unit(S.tu, so, True, (), getattr(S, 'libs', ()))
except build.BuildError as e:
    print('NOBUILD'); sys.exit()
r = native.run_suite(so, S, 1, 'quick', workers=4, tlimit=60)
print('CAUGHT' if r['viol'] is not None else 'MISSED', (r['err'] or '')[-200:], r.get('missing') or '')
'''


def one(k, f, ln, new, props):
    d = '/tmp/mut/%d' % k
    os.makedirs(d, exist_ok=True)
    if not os.path.exists(d + '/repo'):
        subprocess.run(['git', 'clone', '-q', '/repo', d + '/repo'], check=True)
    subprocess.run(['git', '-C', d + '/repo', 'checkout', '-q', '--', '.'])
    p = d + '/repo/' + f
    L = open(p).read().split('\n')
    old = L[ln]
    L[ln] = new
    open(p, 'w').write('\n'.join(L))
    res = {}
    for q in props:
        r = subprocess.run(['python3-vt', '-c', RUN % H, q, d + '/n'], capture_output=True, text=True, env=dict(os.environ, GBS_REPO=d + '/repo'), cwd=H)
        res[q] = (r.stdout.strip().split('\n')[-1] or r.stderr[-200:])
        if res[q].startswith(('CAUGHT', 'NOBUILD')):
            break
    return f, ln + 1, old.strip(), new.strip(), res


N, seed = int(sys.argv[1]), int(sys.argv[2])
rng = random.Random(seed)
c = []
for a in sys.argv[3:]:
    f, rg, pr = a.split(':')
    L = open('/repo/' + f).read().split('\n')
    lo, hi = (int(x) for x in rg.split('-'))
    com = False
    for i in range(len(L)):
        s = L[i].strip()
        if s.startswith('/*'):
            com = True
        if not com and lo <= i + 1 <= hi and not s.startswith(('//', '#', 'template', '*', 'throw', 'assert')) and '@' not in s:
            code = L[i].split('//')[0]
            for a_, b_ in SUBS:
                for m in re.finditer(a_, code):
                    c.append((f, i, code[:m.start()] + b_ + code[m.end():], pr.split(',')))
        if '*/' in s:
            com = False
rng.shuffle(c)
print(len(c), 'candidates')
import threading, queue
slots = queue.Queue()
for i in range(3):
    slots.put(i)


def go(x):
    k = slots.get()
    try:
        return one(k, *x)
    finally:
        slots.put(k)


with cf.ThreadPoolExecutor(3) as tp:
    nb = ca = 0
    for r in tp.map(go, c[:N]):
        v = ' '.join(r[4].values())
        if 'NOBUILD' in v:
            nb += 1
        elif 'CAUGHT' in v:
            ca += 1
        else:
            print('%s:%d\n   - %s\n   + %s\n   %s' % r, flush=True)
    print('caught', ca, 'not compiling', nb, 'of', len(c[:N]))
