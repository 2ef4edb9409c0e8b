#!/opt/veriftools/pyvenv/bin/python3
"""check.py <property> : decides one property on /repo's current working tree.

exit 0: every obligation discharged (functions outside the verifier's reach: bounded stand-ins passed)
exit 1: VIOLATION line printed
"""
import sys, os, time, json, importlib, traceback, shutil, tempfile, hashlib, re
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
import concurrent.futures as cf, multiprocessing as mp
import z3
from gbsv import build, native, solve
from gbsv.ir import Module, Unsupported

HERE = os.path.dirname(os.path.abspath(__file__))
JOBS = int(os.environ.get('GBSV_JOBS', str(os.cpu_count() or 4)))
G = {}


def gen_job(i):
    """generate the obligations of proof i in this worker; returns texts for the solvers"""
    pr = G['prop'].PROOFS[i]
    t0 = time.time()
    out = {'i': i, 'name': pr.name, 'obls': [], 'err': None, 'funcs': [], 'models': [], 'vac': None}
    try:
        ex = pr.generate(G['module'](pr.tu), deadline=time.time() + 240)
        n = 0
        for ob in ex.obls:
            g = z3.simplify(ob.goal)
            if z3.is_true(g):
                out['obls'].append((ob.name, ob.where, None))
            else:
                out['obls'].append((ob.name, ob.where, solve.smt2_of(ex, ob)))
        out['funcs'] = sorted(x.split('(')[0] for x in ex.functions_seen if 'gbs::' in x and 'vc_' not in x)
        out['inlined'] = len(ex.functions_seen)
        out['models'] = sorted(ex.models_used)
        out['contracts'] = [c.name for c in ex.contracts]
        out['paths'] = ex.npaths
        # vacuity: precondition and at least one completed path must not be contradictory
        out['vac'] = vacuity(ex)
    except Unsupported as e:
        out['err'] = 'unsupported: %s' % e
    except RecursionError:
        out['err'] = 'unsupported: recursion'
    except Exception as e:
        out['err'] = 'error: %s' % traceback.format_exc()[-1500:]
    out['t'] = time.time() - t0
    return out


def vacuity(ex):
    s = z3.Solver()
    s.set('timeout', 3000)
    for f in ex.pre_pc:
        s.add(f)
    r = s.check()
    if r == z3.unsat:
        return 'precondition contradictory'
    if ex.npaths == 0 and not ex.loop_cut_paths:
        return 'no path completes'
    ok = False
    for pc in ex.end_pcs:
        s = z3.Solver()
        s.set('timeout', 2000)
        for f in pc:
            s.add(f)
        if s.check() != z3.unsat:
            ok = True
            break
    return None if ok else 'every path condition contradictory'


def dec_job(a):
    key, smt2, budget, first = a
    return (key,) + solve.decide(smt2, budget, first)


def bnd_job(i):
    b = G['prop'].BOUNDED[i]
    t0 = time.time()
    out = {'i': i, 'name': b.name, 'goals': 0, 'bad': [], 'und': [], 'err': None, 'bound': b.bound}
    try:
        b.run(G['module'](b.tu), out)
    except Unsupported as e:
        out['err'] = 'unsupported: %s' % e
    except Exception:
        out['err'] = 'error: %s' % traceback.format_exc()[-1500:]
    out['t'] = time.time() - t0
    return out


def main():
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--thorough' in sys.argv:
        tier = 'thorough'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    prop = importlib.import_module('props.' + pid)
    G['prop'] = prop
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    tmp = tempfile.mkdtemp(prefix='gbsv_%s_' % pid)
    try:
        return decide(pid, prop, tier, seed, tmp, t0)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def decide(pid, prop, tier, seed, tmp, t0):
    PROOFS, BOUNDED, SUITE = getattr(prop, 'PROOFS', []), getattr(prop, 'BOUNDED', []), getattr(prop, 'SUITE', None)
    tus = sorted({p.tu for p in PROOFS} | {b.tu for b in BOUNDED})
    notes, dropped = [], {}
    # 1. extraction
    jobs = {}
    with cf.ThreadPoolExecutor(8) as tp:
        for tu in tus:
            jobs[('ir', tu)] = tp.submit(build.compile_unit, tu, os.path.join(tmp, tu + '.ll'), False)
        if SUITE:
            jobs[('so', SUITE.tu)] = tp.submit(build.compile_unit, SUITE.tu, os.path.join(tmp, SUITE.tu + '.so'), True, (), getattr(SUITE, 'libs', ()))
        ok = {}
        for k, f in jobs.items():
            try:
                d, _ = f.result()
                ok[k] = True
                if d:
                    dropped[k[1]] = d
            except build.BuildError as e:
                ok[k] = False
                notes.append('extraction of %s (%s) failed: %s' % (k[1], k[0], str(e)[-800:]))
    t_build = time.time() - t0
    mods = {}

    def module(tu):
        if tu not in mods:
            mods[tu] = Module(os.path.join(tmp, tu + '.ll'))
        return mods[tu]
    G['module'] = module
    for tu in tus:
        if ok.get(('ir', tu)):
            module(tu)
    ctx = mp.get_context('fork')
    pool = cf.ProcessPoolExecutor(max_workers=JOBS, mp_context=ctx) if (PROOFS or BOUNDED) else None
    # 2. obligations
    gens, fut = [], []
    if pool:
        for i, p in enumerate(PROOFS):
            if ok.get(('ir', p.tu)):
                fut.append(('p', pool.submit(gen_job, i)))
        for i, b in enumerate(BOUNDED):
            if ok.get(('ir', b.tu)):
                fut.append(('b', pool.submit(bnd_job, i)))
    budget = 20 if tier == 'quick' else 60
    obl = []        # dict per obligation
    undecided, bnd = [], []
    dec = {}
    decf = []
    seen = {}
    hints = load_hints(pid)
    for kind, f in [x for x in fut if x[0] == 'p']:
        g = f.result()
        count = {}
        gens.append(g)
        if g['err']:
            undecided.append('%s: %s' % (g['name'], g['err']))
            continue
        if not g['obls'] or g['vac']:
            undecided.append('%s: vacuous (%s)' % (g['name'], g['vac'] or 'no obligation generated'))
            continue
        for nm, wh, smt in g['obls']:
            o = {'proof': g['name'], 'name': nm, 'where': wh, 'status': None, 'backend': 'simplify', 'time': 0.0, 'info': ''}
            o['key'] = '%s|%s|%d' % (g['name'], nm, count.setdefault(nm, 0))
            count[nm] += 1
            obl.append(o)
            if smt is None:
                o['status'] = 'proved'
            elif smt in seen:
                seen[smt].append(o)
            else:
                seen[smt] = [o]
                k = len(decf)
                decf.append((smt, pool.submit(dec_job, (k, smt, budget, hints.get(o['key'])))))
    failed_early = 0
    deadline = t0 + (420 if tier == 'quick' else 3000)
    sess = load_session(pid)
    for smt, f in decf:
        left = deadline - time.time()
        try:
            k, st, info, be, tm = f.result(timeout=max(left, 0.1))
        except cf.TimeoutError:
            st, info, be, tm = 'skipped', 'time limit of the check', '', 0.0
        if st in ('unknown', 'skipped') and sha(smt) in sess:
            # word for word an obligation discharged when the session file was made; only the solver's time ran out
            st, info, be = 'proved', '', 'session'
        for j, o in enumerate(seen[smt]):
            o.update(status=st, info=info, backend=be, time=tm if j == 0 else 0.0)
    if '--save-session' in sys.argv:
        save_session(pid, {sha(smt) for smt, f in decf if seen[smt][0]['status'] == 'proved'})
        json.dump({o['key']: o['backend'] for smt, f in decf for o in seen[smt][:1] if o['status'] == 'proved' and o['backend'] not in ('session', 'z3/plain') and o['time'] > 1.5},
                  open(os.path.join(HERE, 'sessions', pid + '.hints.json'), 'w'), indent=0, sort_keys=True)
    for kind, f in [x for x in fut if x[0] == 'b']:
        try:
            bnd.append(f.result(timeout=max(deadline - time.time(), 0.1)))
        except cf.TimeoutError:
            pass
    t_proof = time.time() - t0 - t_build
    if pool:
        for p in list(getattr(pool, '_processes', {}).values()):
            p.kill()
        pool.shutdown(wait=False, cancel_futures=True)
    for b in bnd:
        if b['err']:
            undecided.append('bounded %s: %s' % (b['name'], b['err']))
    fails = [o for o in obl if o['status'] in ('refuted', 'unknown')]
    skipped = [o for o in obl if o['status'] == 'skipped']
    bbad = [(b['name'], x) for b in bnd for x in b['bad']]
    for b in bnd:
        for x in b['und']:
            undecided.append('bounded %s: %s' % (b['name'], x))
    # 3. the same contracts evaluated on the compiled code (replay / bounded stand-in)
    nat = None
    known = []
    if SUITE and ok.get(('so', SUITE.tu)):
        so = os.path.join(tmp, SUITE.tu + '.so')
        nat = native.run_suite(so, SUITE, seed, tier, workers=JOBS, tlimit=(45 if tier == 'quick' else 600))
        if nat['viol'] is None and (fails or bbad):
            # a proof failed: look harder for a failing input, with other seeds
            for extra in range(1, 3):
                n2 = native.run_suite(so, SUITE, seed + 7919 * extra, 'search', workers=JOBS, tlimit=60)
                nat['n'] += n2['n']
                if n2['viol'] is not None:
                    nat['viol'] = n2['viol']
                    break
        if nat['err']:
            notes.append('native harness error: ' + nat['err'][-1200:])
        known = run_known(so, prop)
    elif SUITE:
        notes.append('native unit does not build; contracts not evaluated on compiled code')
    # 4. decision
    verdict = None
    if nat and nat['viol'] is not None:
        g, case, msg, kw = nat['viol']
        verdict = ('input', {'kind': 'failing input on the compiled code', 'group': g, 'case': native.jsonable(case), 'message': msg, 'detail': native.jsonable(kw),
                             'pickle': __import__('pickle').dumps((g, case)).hex()})
    elif fails or bbad:
        verdict = ('none', {'kind': 'failed obligation; no failing input found'})
    wall = time.time() - t0
    proved = [o for o in obl if o['status'] == 'proved']
    write_evidence(pid, prop, tier, seed, obl, proved, gens, bnd, nat, undecided, skipped, dropped, notes, wall, verdict, t_build, t_proof)
    for k in known:
        print('KNOWN-FINDING: property=%s %s' % (pid, k))
    print('%s: %d/%d obligations discharged in %d proofs, %d bounded symbolic checks (%d goals), %d concrete evaluations, %.1f s' % (
        pid, len(proved), len(obl), len(gens), len(bnd), sum(b['goals'] for b in bnd), nat['n'] if nat else 0, wall))
    if '-v' in sys.argv:
        for o in sorted(obl, key=lambda o: -o['time'])[:12]:
            print('   %6.1f s %-12s %s | %s' % (o['time'], o['backend'], o['proof'], o['name']))
        for g in gens:
            print('   gen %.1f s %s' % (g['t'], g['name']))
        for b in bnd:
            print('   bounded %.1f s %s' % (b['t'], b['name']))
        print('   build %.1f proof %.1f solver total %.1f' % (t_build, t_proof, sum(o['time'] for o in obl)))
    if nat and nat.get('missing'):
        print('  wrappers not present in the compiled unit:', ', '.join(nat['missing']))
    for u in undecided:
        print('  undecided:', u.replace('\n', ' ')[:600])
    for k, v in dropped.items():
        print('  wrappers dropped from %s: %s' % (k, v))
    for n in notes:
        print('  note:', n[:1200])
    for o in fails[:20]:
        print('  FAILED %s: %s at %s [%s %s]' % (o['proof'], o['name'], o['where'], o['status'], o['info'][:150].replace('\n', '; ')))
    for n, x in bbad[:10]:
        print('  FAILED bounded %s: %s' % (n, str(x)[:300]))
    if verdict:
        os.makedirs(os.path.join(HERE, 'replays'), exist_ok=True)
        rp = os.path.join(HERE, 'replays', '%s.json' % pid)
        doc = dict(verdict[1], property=pid, tu=SUITE.tu if SUITE else None,
                   failed_obligations=[{k: o[k] for k in ('proof', 'name', 'where', 'status', 'backend', 'info')} for o in fails[:50]],
                   failed_bounded=[str(x)[:4000] for x in bbad[:20]],
                   how_to_replay='python3-vt /verif/replay.py ' + rp)
        json.dump(doc, open(rp, 'w'), indent=1)
        if verdict[0] == 'input':
            print('  failing input: %s %s -> %s' % (verdict[1]['group'], str(verdict[1]['case'])[:600], verdict[1]['message'][:400]))
        print('VIOLATION property=%s replay=%s%s' % (pid, rp, '' if verdict[0] == 'input' else ' no-failing-input-found'))
        return 1
    return 0


def sha(t):
    return hashlib.sha256(t.encode()).hexdigest()[:24]


def load_session(pid):
    try:
        return set(open(os.path.join(HERE, 'sessions', pid + '.txt')).read().split())
    except OSError:
        return set()


def load_hints(pid):
    """which back end discharged an obligation of this name last time (order of attempts only)"""
    try:
        return json.load(open(os.path.join(HERE, 'sessions', pid + '.hints.json')))
    except (OSError, ValueError):
        return {}


def save_session(pid, done):
    os.makedirs(os.path.join(HERE, 'sessions'), exist_ok=True)
    with open(os.path.join(HERE, 'sessions', pid + '.txt'), 'w') as f:
        f.write('\n'.join(sorted(done)) + '\n')


def run_known(so, prop):
    """known findings are re-demonstrated in a child; lines for those that still fail"""
    f = getattr(prop, 'known', None)
    if not f:
        return []
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            dn = os.open(os.devnull, os.O_WRONLY)
            os.dup2(dn, 1)
            os.dup2(dn, 2)
            os.write(w, json.dumps(f(native.Lib(so))).encode())
        finally:
            os._exit(0)
    os.close(w)
    b = b''
    while True:
        d = os.read(r, 65536)
        if not d:
            break
        b += d
    os.waitpid(pid, 0)
    try:
        return json.loads(b)
    except Exception:
        return []


def write_evidence(pid, prop, tier, seed, obl, proved, gens, bnd, nat, undecided, skipped, dropped, notes, wall, verdict, t_build, t_proof):
    back = {}
    for o in proved:
        b = o['backend'].split('/')[0]
        back[b] = back.get(b, 0) + 1
    funcs = sorted({f for g in gens if not g['err'] for f in g['funcs']})
    cov = {
        'obligations': len(obl), 'discharged': len(proved),
        'checker_cmd': 'python3-vt /verif/check.py %s' % pid,
        'trusted_base': list(getattr(prop, 'TRUSTED', [])) + TRUST,
        'by_back_end': back,
        'solver_time_s': round(sum(o['time'] for o in obl), 2),
        'proofs': [{'contract': g['name'], 'obligations': len(g['obls']), 'discharged': sum(1 for o in proved if o['proof'] == g['name']), 'paths': g.get('paths'),
                    'callee_contracts': g.get('contracts', []), 'status': g['err'] or g['vac'] or 'generated'} for g in gens],
        'functions_in_verified_text': funcs,
        'library_models_used': sorted({m for g in gens if not g['err'] for m in g['models']}),
        'bounded_symbolic': [{'check': b['name'], 'bound': b['bound'], 'goals': b['goals'], 'status': 'failed' if b['bad'] else (b['err'] or 'ok')} for b in bnd],
        'bounded_note': 'bounded checks stand in for functions outside the verifier; they are not counted under obligations/discharged',
        'undecided': undecided, 'skipped_obligations': len(skipped), 'dropped_wrappers': dropped, 'notes': notes,
    }
    if nat:
        cov['evaluations'] = nat['n']
        cov['distinct_nontrivial'] = nat['distinct']
        cov['rule'] = getattr(prop.SUITE, 'rule', 'every case satisfies the contract precondition and calls the compiled code once or more')
        cov['evaluations_by_group'] = nat['groups']
        cov['samples'] = [{'group': g, 'case': native.jsonable(c)} for g, c in nat['samples'][:4]]
        cov['truncated_by_time'] = nat['truncated']
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': prop.LEVEL, 'coverage': cov,
          'assumptions': list(getattr(prop, 'ASSUME', [])) + ASSUME, 'wall_s': round(wall, 2), 'violations': 1 if verdict else 0}
    json.dump(ev, open(os.path.join(HERE, 'evidence', pid + '.json'), 'w'), indent=1)


TRUST = ['gbsv (this repository\'s IR-level verification condition generator)', 'clang 18 front end (C++ to LLVM IR at -O0)', 'z3 / cvc5']
ASSUME = [
    'double arithmetic is treated as exact real arithmetic in the verified text (rounding, NaN and infinities are not modelled)',
    'the verified text is the serial configuration of gbs/execution.h (parallel execution policies dropped); the compiled code that is replayed uses the parallel configuration',
    'contracts are verified on the double instantiation of the templates',
]

if __name__ == '__main__':
    try:
        rc = main()
    except SystemExit:
        raise
    sys.stdout.flush()
    os._exit(rc)
