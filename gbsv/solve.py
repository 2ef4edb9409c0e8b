"""Discharging obligations with z3 (python API, in worker processes) and cvc5 as second back end."""
import os, time, subprocess, tempfile, concurrent.futures as cf, multiprocessing as mp
import z3
from .exe import has_quant, real_consts


def relevant_axioms(ex, fs):
    return list(ex.axioms) + ex.div_axioms(fs + list(ex.axioms))


def smt2_of(ex, ob):
    s = z3.Solver()
    fs, ids = [], set()
    for f in list(ob.hyps) + [z3.Not(ob.goal)]:
        if f.get_id() not in ids and not z3.is_true(f):
            ids.add(f.get_id())
            fs.append(f)
    for f in relevant_axioms(ex, fs):
        s.add(f)
    for f in fs:
        s.add(f)
    # a fresh context makes the text independent of the state of the term table
    s2 = z3.Solver(ctx=z3.Context())
    s2.from_string(s.to_smt2())
    return s2.to_smt2()


def ground_terms(fs):
    """index terms occurring in selects and integer arguments of spec functions, by sort"""
    out, seen = {}, set()
    st = list(fs)
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            continue
        if z3.is_app(x):
            k = x.decl().kind()
            if k in (z3.Z3_OP_SELECT, z3.Z3_OP_STORE):
                i = x.arg(1)
                out[i.sexpr()] = i
            elif k == z3.Z3_OP_UNINTERPRETED and x.num_args() > 0:
                for a in x.children():
                    if a.sort() == z3.IntSort():
                        out[a.sexpr()] = a
            st.extend(x.children())
    return list(out.values())


def instantiate(fs, rounds=1, limit=6000):
    """replace universally quantified hypotheses by ground instances (sound: weakens the hypotheses)"""
    qf = [f for f in fs if not has_quant(f)]
    qs = []
    sk = 0
    for f in fs:
        if has_quant(f):
            if z3.is_quantifier(f) and f.is_forall():
                qs.append(f)
            elif z3.is_not(f) and z3.is_quantifier(f.arg(0)) and f.arg(0).is_forall():
                q = f.arg(0)
                vs = [z3.FreshConst(q.var_sort(i), 'sk') for i in range(q.num_vars())]
                qf.append(z3.Not(z3.substitute_vars(q.body(), *reversed(vs))))
            elif z3.is_and(f):
                fs2 = f.children()
                return instantiate([g for g in fs if g is not f] + list(fs2), rounds, limit)
            elif z3.is_implies(f) and z3.is_quantifier(f.arg(1)) and f.arg(1).is_forall() and not has_quant(f.arg(0)):
                q = f.arg(1)
                vs = [z3.Const('b!%d' % i, q.var_sort(i)) for i in range(q.num_vars())]
                body = z3.substitute_vars(q.body(), *reversed(vs))
                qs.append(z3.ForAll(vs, z3.Implies(f.arg(0), body)))
    base = list(qf)
    done = set()
    for r in range(rounds):
        terms = ground_terms(qf)
        n0 = len(qf)
        for qi, q in enumerate(qs):
            nv = q.num_vars()
            if any(q.var_sort(i) != z3.IntSort() for i in range(nv)):
                continue
            import itertools
            for tup in itertools.product(terms, repeat=nv):
                key = (qi,) + tuple(t.get_id() for t in tup)
                if key in done:
                    continue
                done.add(key)
                g = z3.simplify(z3.substitute_vars(q.body(), *reversed(tup)))
                if z3.is_true(g):
                    continue
                if has_quant(g):
                    continue
                qf.append(g)
                if len(qf) > limit:
                    return qf
        if len(qf) == n0:
            break
    return qf


class _Mul:
    def __call__(self, a, b):
        R = z3.RealSort()
        return z3.Function('MUL', R, R, R)(a, b)


MUL = _Mul()


def uf_mul(f, memo):
    """abstract products of two non-numeral reals by an uninterpreted commutative function (sound: forgets facts)"""
    k = f.get_id()
    if k in memo:
        return memo[k][1]
    if z3.is_quantifier(f):
        vs = [z3.FreshConst(f.var_sort(i), 'bv') for i in range(f.num_vars())]
        sub = list(reversed(vs))
        b = uf_mul(z3.substitute_vars(f.body(), *sub), memo)
        pats = []
        for i in range(f.num_patterns()):
            p = f.pattern(i)
            ts = [uf_mul(z3.substitute_vars(p.arg(j), *sub), memo) for j in range(p.num_args())]
            pats.append(z3.MultiPattern(*ts) if len(ts) > 1 else ts[0])
        r = (z3.ForAll if f.is_forall() else z3.Exists)(vs, b, patterns=pats)
    elif z3.is_app(f) and f.num_args():
        ch = [uf_mul(c, memo) for c in f.children()]
        if f.decl().kind() == z3.Z3_OP_MUL and f.sort() == z3.RealSort():
            num, sym, todo = [], [], list(ch)
            while todo:                     # signs and numeric factors come out of products
                c = todo.pop(0)
                if z3.is_rational_value(c):
                    num.append(c)
                elif z3.is_app(c) and c.decl().kind() == z3.Z3_OP_UMINUS:
                    num.append(z3.RealVal(-1))
                    todo.insert(0, c.arg(0))
                elif z3.is_app(c) and c.decl().kind() == z3.Z3_OP_MUL and z3.is_rational_value(c.arg(0)):
                    num.append(c.arg(0))
                    todo[0:0] = list(c.children())[1:]
                else:
                    sym.append(c)
            r = None
            for c in sym:
                r = c if r is None else MUL(r, c)
            for c in num:
                r = c if r is None else c * r
        else:
            r = f.decl()(*ch)
    else:
        r = f
    memo[k] = (f, r)
    return r


def _symbols(f, memo):
    """uninterpreted functions, arrays and reals occurring in f"""
    out, todo, seen = set(), [f], set()
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            todo.append(x.body())
            continue
        if z3.is_app(x):
            d = x.decl()
            if d.kind() == z3.Z3_OP_UNINTERPRETED and (d.arity() > 0 or x.sort() != z3.IntSort()):
                out.add(d.name())
            todo.extend(x.children())
    return out


def relevant(fs):
    """drop hypotheses that cannot be triggered from the goal (the last formula); dropping hypotheses is always sound"""
    S = _symbols(fs[-1], None)
    rest = []
    for f in fs[:-1]:
        if z3.is_quantifier(f) and f.num_patterns():
            trig = [_symbols(f.pattern(i), None) for i in range(f.num_patterns())]
            rest.append((f, _symbols(f, None), trig))
        else:
            rest.append((f, _symbols(f, None), None))
    keep = [False] * len(rest)
    ch = True
    while ch:
        ch = False
        for i, (f, sy, trig) in enumerate(rest):
            if keep[i]:
                continue
            if trig is not None:
                if any(t and t <= S for t in trig):
                    keep[i] = ch = True
                    S = S | sy
            elif not sy or sy & S:
                keep[i] = ch = True
    return [f for k, (f, _, _) in zip(keep, rest) if k] + [fs[-1]]


def ring(fs):
    """ground part of the problem with every quotient written as a product with an inverse, the arguments of uninterpreted functions
    in polynomial normal form, and equal applications named by one constant: leaves a problem over the reals only.
    (Quantified hypotheses and congruence of arguments that are not syntactically equal are dropped: sound.)"""
    R = z3.RealSort()
    INV = z3.Function('INV', R, R)
    goal = fs[-1]
    vs = []
    if z3.is_not(goal) and z3.is_quantifier(goal.arg(0)) and goal.arg(0).is_forall():
        q = goal.arg(0)
        vs = [z3.FreshConst(q.var_sort(i), 'sk') for i in range(q.num_vars())]
        goal = z3.Not(z3.substitute_vars(q.body(), *reversed(vs)))
    hy = []
    for f in fs[:-1]:
        if not has_quant(f):
            hy.append(f)
        elif z3.is_quantifier(f) and f.is_forall() and f.num_vars() == 1:     # instances at the indices of the goal
            hy += [g for g in (z3.simplify(z3.substitute_vars(f.body(), v)) for v in vs if v.sort() == f.var_sort(0)) if not has_quant(g)]
    fs = hy + [goal]
    if any(has_quant(f) for f in fs):
        return None
    defs, rest = [], []
    for f in fs:
        d = None
        if z3.is_and(f) and f.num_args() == 2 and z3.is_eq(f.arg(1)):
            l, r = f.arg(1).arg(0), f.arg(1).arg(1)
            if z3.is_const(l) and z3.is_app(r) and r.decl().name() == 'DIV':
                d = (l, r)
        (rest if d is None else defs).append(f if d is None else d)
    names, facts, memo, pm, side = {}, [], {}, {}, {}
    dd = {l.get_id(): r for l, r in defs}
    atoms, order, pair = {}, {}, {}          # text -> term; text -> rank; inverse atom -> inverted atom
    squares = {}                             # atom -> (polynomial of its square, condition)
    from fractions import Fraction

    def pmul(p, q):
        r = {}
        for m, c in p.items():
            for n, e in q.items():
                k = tuple(sorted(m + n))
                v = r.get(k, 0) + c * e
                if v:
                    r[k] = v
                else:
                    r.pop(k, None)
        if len(r) > 20000:
            raise RuntimeError('polynomial too large')
        return r

    def padd(p, q, f=1):
        r = dict(p)
        for m, c in q.items():
            v = r.get(m, 0) + f * c
            if v:
                r[m] = v
            else:
                r.pop(m, None)
        return r

    def atom(x):
        t = x.sexpr()
        atoms.setdefault(t, x)
        return {(t,): Fraction(1)}

    def poly(x):
        """polynomial of a real term already rewritten by go"""
        k = x.get_id()
        if k in pm:
            return pm[k][1]
        if z3.is_rational_value(x):
            v = x.as_fraction()
            r = {(): v} if v else {}
        elif z3.is_app(x) and x.num_args():
            K = x.decl().kind()
            ch = x.children()
            if K == z3.Z3_OP_ADD:
                r = {}
                for c in ch:
                    r = padd(r, poly(c))
            elif K == z3.Z3_OP_SUB:
                r = poly(ch[0])
                for c in ch[1:]:
                    r = padd(r, poly(c), -1)
            elif K == z3.Z3_OP_UMINUS:
                r = padd({}, poly(ch[0]), -1)
            elif K == z3.Z3_OP_MUL:
                r = {(): Fraction(1)}
                for c in ch:
                    r = pmul(r, poly(c))
            else:
                r = atom(x)
        else:
            r = atom(x)
        pm[k] = (x, r)
        return r

    def term(p):
        ts = []
        for m in sorted(p):
            t = z3.RealVal(p[m])
            for a_ in m:
                t = atoms[a_] if p[m] == 1 and z3.is_rational_value(t) else t * atoms[a_]
            ts.append(t)
        return z3.Sum(ts) if len(ts) > 1 else ts[0] if ts else z3.RealVal(0)

    def key(x):
        return str(sorted(poly(x).items())) if x.sort() == R else z3.simplify(x).sexpr()

    def named(k, sort):
        if k not in names:
            names[k] = z3.Const('k!%d' % len(names), sort)
            return names[k], True
        return names[k], False

    def inv(b):
        p = poly(b)
        if not p:
            return INV(b)
        if len(p) == 1:                      # inverse of a monomial: product of inverses
            (m, c), = p.items()
            r = z3.RealVal(1 / c)
            for a_ in m:
                i, new = named('inv ' + a_, R)
                if new:
                    facts.append(z3.Implies(atoms[a_] != 0, atoms[a_] * i == 1))
                    pair[i.sexpr()] = a_
                r = r * i
            return r
        for a_, (q, cond) in squares.items():      # a polynomial which is the square of a known root
            if q == p:
                side[a_] = cond
                i = inv(atoms[a_])
                return i * i
        m0 = min(p)
        c0 = p[m0]                           # make the polynomial monic in its first monomial
        q = {m: c / c0 for m, c in p.items()}
        i, new = named('inv ' + str(sorted(q.items())), R)
        if new:
            t = term(q)
            facts.append(z3.Implies(t != 0, t * i == 1))
        return i * z3.RealVal(1 / c0)

    def go(x):
        k = x.get_id()
        if k in memo:
            return memo[k][1]
        if k in dd:
            r = go(dd[k])
        elif z3.is_app(x) and x.num_args():
            ch = [go(c) for c in x.children()]
            d = x.decl()
            if d.kind() == z3.Z3_OP_DIV or d.name() == 'DIV':
                r = ch[0] * inv(ch[1])
            elif d.kind() == z3.Z3_OP_UNINTERPRETED or (d.kind() == z3.Z3_OP_SELECT and z3.is_const(ch[0])):
                r, new = named(d.name() + ' ' + ' '.join(key(c) for c in ch), x.sort())
                if new and d.name() == 'sqrt':
                    facts.append(z3.Implies(ch[0] >= 0, z3.And(r >= 0, r * r == ch[0])))
                    squares[r.sexpr()] = (poly(ch[0]), ch[0] >= 0)
            else:
                r = d(*ch)
        else:
            r = x
        memo[k] = (x, r)
        return r

    def clear(p):
        """multiply by the atoms whose inverses are left (they are not zero)"""
        p = reduce_(p)
        for i, a_ in pair.items():
            k = max([m.count(i) for m in p] + [0])
            if k:
                side['!' + a_] = atoms[a_] != 0
                p = reduce_(pmul(p, {(a_,) * k: Fraction(1)}))
        return p

    def reduce_(p):
        """cancel an atom against its inverse, replace squares of roots; conditions go to side"""
        for _ in range(4000):
            for m in p:
                hit = None
                for i, a_ in pair.items():
                    if i in m and a_ in m:
                        hit = ('inv', i, a_)
                        break
                if not hit:
                    for a_ in m:
                        if a_ in squares and m.count(a_) >= 2:
                            hit = ('sq', a_)
                            break
                if hit:
                    break
            else:
                return p
            c = p[m]
            l = list(m)
            if hit[0] == 'inv':
                l.remove(hit[1])
                l.remove(hit[2])
                side['!' + hit[2]] = atoms[hit[2]] != 0
                n = {tuple(l): c}
            else:
                l.remove(hit[1])
                l.remove(hit[1])
                q, cond = squares[hit[1]]
                side[hit[1]] = cond
                n = pmul({tuple(l): c}, q)
            p = padd({k: v for k, v in p.items() if k != m}, n)
        return p

    out = [go(f) for f in rest]
    g = out[-1]
    if z3.is_not(g) and z3.is_eq(g.arg(0)) and g.arg(0).arg(0).sort() == R:
        p = clear(padd(poly(g.arg(0).arg(0)), poly(g.arg(0).arg(1)), -1))
        out[-1] = z3.Not(z3.And(term(p) == 0, *side.values()))
    elif side:
        out[-1] = z3.Not(z3.And(z3.Not(g), *side.values()))
    return facts + out


def _z3_run(smt2, timeout, mode):
    """one attempt in a term table of its own: the outcome does not depend on what this process did before"""
    import z3.z3 as zz
    from . import exe
    saved, hq, rc = zz._main_ctx, exe._hq, exe._rc
    zz._main_ctx = None
    exe._hq, exe._rc = {}, {}
    try:
        return _z3_run_(smt2, timeout, mode)
    finally:
        zz._main_ctx, exe._hq, exe._rc = saved, hq, rc


def _z3_run_(smt2, timeout, mode):
    z3.set_param('smt.random_seed', 0)
    fs = list(z3.parse_smt2_string(smt2))
    if mode.startswith('rel'):
        fs = relevant(fs)
        mode = mode[4:] or 'plainrel'
    if mode == 'ring':
        fs = ring(fs)
        if fs is None:
            return 'unknown', 'quantifiers'
    if mode in ('inst1', 'nonl-inst'):
        fs = instantiate(fs, 1)
    elif mode == 'inst2':
        fs = instantiate(fs, 2)
    if mode.startswith('ufmul'):
        memo = {}
        fs = [uf_mul(f, memo) for f in fs]
        a, b = z3.Reals('a b')
        fs.append(z3.ForAll([a, b], MUL(a, b) == MUL(b, a), patterns=[MUL(a, b)]))
        if mode == 'ufmulac':
            c = z3.Real('c')
            fs.append(z3.ForAll([a, b, c], MUL(MUL(a, b), c) == MUL(MUL(a, c), b), patterns=[MUL(MUL(a, b), c)]))
    s = z3.SimpleSolver() if mode.endswith('fast') else z3.Solver()
    if mode.startswith('ufmul') or mode in ('fast', 'nonl-fast'):
        s.set('mbqi', False)
    if mode.endswith('fast'):         # triggers only
        s.set('auto_config', False)
    if mode == 'nla2':
        s.set('smt.arith.solver', 2)
    if mode in ('nonl', 'nonl-inst', 'nonl-fast', 'ufmul-fast'):
        s.set('smt.arith.nl', False)      # products stay opaque
    if mode == 'ufmul7':
        s.set('smt.random_seed', 7)
    s.set('timeout', int(timeout * 1000))
    s.add(fs)
    r = s.check()
    if r == z3.unsat:
        return 'unsat', ''
    if r == z3.sat:
        m = s.model()
        return ('sat' if mode in ('plain', 'nla2') else 'sat-inst'), '\n'.join('%s = %s' % (d, m[d]) for d in m.decls())[:6000]
    return 'unknown', s.reason_unknown()


def _cvc5_run(smt2, timeout):
    with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as f:
        f.write('(set-logic ALL)\n' + '\n'.join(l for l in smt2.split('\n') if not l.startswith('(set-info')))
        nm = f.name
    try:
        p = subprocess.run(['cvc5', '--tlimit=%d' % int(timeout * 1000), '--full-saturate-quant', nm], capture_output=True, text=True, timeout=timeout + 10)
        o = p.stdout.strip().split('\n')[0] if p.stdout.strip() else 'unknown'
        return (o if o in ('sat', 'unsat') else 'unknown'), p.stderr[:300]
    except subprocess.TimeoutExpired:
        return 'unknown', 'timeout'
    finally:
        os.unlink(nm)


def decide(smt2, budget=30, first=None):
    """portfolio in sequence (the back end that worked last time first); returns (status, info, backend, time)"""
    t0 = time.time()
    info = ''
    sat = None
    plan = [('z3', 'nonl-fast', 1), ('z3', 'fast', 1), ('z3', 'ufmul-fast', 1), ('z3', 'nonl', 2), ('z3', 'nonl-fast', 6), ('z3', 'ufmul-fast', 6), ('z3', 'plain', 1), ('z3', 'inst1', 2), ('z3', 'nonl-inst', 2), ('z3', 'ufmul', 5), ('z3', 'ufmul7', 5), ('z3', 'ufmulac', 4), ('z3', 'inst1', 6), ('z3', 'nla2', 4), ('z3', 'inst2', 10), ('cvc5', '', 10), ('z3', 'plain', budget)]
    if ' DIV ' in smt2 or ' sqrt ' in smt2:
        plan[3:3] = [('z3', 'ring', 8)]
    if first:
        be, _, mode = first.partition('/')
        plan.insert(0, (be, mode, 8))
    for be, mode, to in plan:
        try:
            if be == 'z3':
                st, info = _z3_run(smt2, to, mode)
            else:
                st, info = _cvc5_run(smt2, to)
        except Exception as e:      # a back end failing is "unknown", never a verdict
            st, info = 'unknown', repr(e)
        if st == 'unsat':
            return 'proved', '', be + ('/' + mode if mode else ''), time.time() - t0
        if st == 'sat':
            sat = (info, be)
            break
    if sat:
        return 'refuted', sat[0], sat[1], time.time() - t0
    return 'unknown', info, '', time.time() - t0


def _job(a):
    i, smt2, budget = a
    return (i,) + decide(smt2, budget)


_pool = None


def pool():
    global _pool
    if _pool is None:
        _pool = cf.ProcessPoolExecutor(max_workers=int(os.environ.get('GBSV_JOBS', '8')), mp_context=mp.get_context('fork'))
    return _pool


def discharge(ex, budget=20, progress=None, stop_on_fail=False):
    """discharge every obligation of ex"""
    todo = []
    seen = {}
    for i, ob in enumerate(ex.obls):
        g = z3.simplify(ob.goal)
        if z3.is_true(g):
            ob.status, ob.backend = 'proved', 'simplify'
            continue
        t = smt2_of(ex, ob)
        if t in seen:
            seen[t].append(i)
            continue
        seen[t] = [i]
        todo.append((i, t, budget))
    for r in pool().map(_job, todo, chunksize=1):
        i, st, info, be, tm = r
        for t, ids in seen.items():
            if ids[0] == i:
                for k, j in enumerate(ids):
                    ob = ex.obls[j]
                    ob.status, ob.info, ob.backend, ob.time = st, info, be, (tm if k == 0 else 0.0)
                break
        if progress and st != 'proved':
            progress(ex.obls[i])
    return ex.obls
