from .common import *
LEVEL = 'proof'
TU = 'basis.cpp'
G = {}


def setup(ex, st):
    n, p = z3.Ints('n p')
    u = z3.Real('u')
    kp, k = mk_vec(ex, st, n + p + 1, 8, 'k')
    st.assume(and_(p >= 0, n >= p + 1, n < 2**40, p < 2**40))
    st.assume(sorted_(k))
    st.assume(k[n - 1] < k[n])
    st.assume(k[p] < k[p + 1])
    G.update(n=n, p=p, u=u, k=k)
    return [n, p, u, kp]


def span_post(n, p, u, k, r):
    return [('range', and_(p <= r, r <= n - 1)), ('span', or_(and_(k[r] <= u, u < k[r + 1]), and_(u >= k[n], r == n - 1), and_(u < k[p], r == p)))]


def post(ex, st, r):
    n, p, u, k = (G[x] for x in 'npuk')
    return span_post(n, p, u, k, r)


def inv(L):
    n, p, u, k = (G[x] for x in 'npuk')
    lo, hi, mid = L.int('low'), L.int('high'), L.int('mid')
    return [('order', and_(p <= lo, lo < hi, hi <= n)), ('mid', mid == (z(lo) + z(hi)) / 2), ('bracket', and_(or_(k[lo] <= u, z(lo) == p), or_(u < k[hi], z(hi) == n)))]


FS_LOOPS = {r'^(auto )?gbs::find_span<double>': {0: LoopSpec(inv, lambda L: z(L.int('high')) - z(L.int('low')))}}



# callers of find_span, against its contract
def setup_out(nout):
    def f(ex, st):
        a = setup(ex, st)
        G['kp'] = a[3]
        G['s'] = z3.Int('s')
        G['outs'] = [out_buf(ex, st, 8, 'o%d' % i) for i in range(nout)]
        return a + G['outs']
    return f


def outs(ex, st):
    return [z(ex.load(st, I64, o)) for o in G['outs']]


def post_range(ex, st, r):
    n, p, s = G['n'], G['p'], G['s']
    i1, i2 = outs(ex, st)
    return [('last index is the span', i2 == s), ('first index is span minus degree', i1 == s - p)]


def post_band(ex, st, r):
    n, p, s = G['n'], G['p'], G['s']
    sp, i, rm = outs(ex, st)
    return [('span', sp == s), ('band starts at span minus degree', i == s - p), ('band is the degree', rm == p)]


def CALL():
    from .callees import find_span_contract
    return [find_span_contract(lambda kp, n, p, u: G['s'])]


PROOFS = [Proof('find_span', 'vc_find_span', setup, post, loops=FS_LOOPS, tu=TU),
          Proof('find_span_range', 'vc_find_span_range', setup_out(2), post_range, tu=TU, callees=CALL()),
          Proof('basis_band_extent', 'vc_band', setup_out(3), post_band, tu=TU, callees=CALL())]


class S(Suite):
    tu = TU
    rule = 'span search on clamped and unclamped knot vectors, u at knots, between knots, one ulp around knots, at and beyond the end; oracle: linear scan'

    def cases(self, rng, tier):
        N = {'quick': 6000, 'thorough': 60000, 'search': 60000}[tier]
        for _ in range(N):
            p = rng.choice([0, 1, 1, 2, 2, 3, 3, 4, 5, 7, 24, 25])
            ns = rng.choice([1, 1, 2, 3, 4, 6, 9, 17, 40, 200]) if p < 8 else rng.choice([1, 2, 3])
            k = fl(O.knots(rng, p, ns, rng.choice(['int', 'uniform', 'unit', 'graded'])))
            if p > 0 and rng.random() < 0.3:      # unclamped ends
                k = sorted(k)
                for i in range(p):
                    k[i] -= (p - i) * 0.25
                    k[-1 - i] += (p - i) * 0.5
            if rng.random() < 0.1:
                k = [x * 1e-7 for x in k]
            if rng.random() < 0.1:
                k = [x * 1e9 for x in k]
            n = len(k) - p - 1
            d = sorted(set(k[p:n + 1]))
            us = []
            for _j in range(4):
                i = rng.randrange(len(d))
                us.append(rng.choice([d[i], math.nextafter(d[i], math.inf), math.nextafter(d[i], -math.inf), (d[i] + d[min(i + 1, len(d) - 1)]) / 2]))
            us += [d[0], d[-1], d[-1] + 1.0]
            for u in us:
                yield 'span', (n, p, u, k)
            yield 'span', (n, p, k[p] - 1e-15 - rng.random() * rng.choice([0, 1]), k)

    def run(self, lib, g, c):
        n, p, u, k = c
        s = int(self.ok(lib.call('vc_find_span', [n, p, u, Vec(k)], 'q')).ret)
        if not (p <= s <= n - 1):
            self.fail('span %d outside [%d,%d]' % (s, p, n - 1))
        r = self.ok(lib.call('vc_find_span_range', [n, p, u, Vec(k), [0.0], [0.0]]))
        i1, i2 = [int(x) for x in (r.out[4].view(np.uint64)[0], r.out[5].view(np.uint64)[0])]
        if (i1, i2) != (s - p, s):
            self.fail('index range %s for span %d degree %d' % ((i1, i2), s, p))
        r = self.ok(lib.call('vc_band', [n, p, u, Vec(k), [0.0], [0.0], [0.0]]))
        b = tuple(int(r.out[x].view(np.uint64)[0]) for x in (4, 5, 6))
        if b != (s, s - p, p):
            self.fail('band %s for span %d degree %d' % (b, s, p))
        if u < k[p]:
            if s != p:
                self.fail('u before the domain: span %d, expected the first one %d' % (s, p))
        elif u < k[n]:
            if not (k[s] <= u < k[s + 1]):
                self.fail('span %d: [%r,%r) does not contain u' % (s, k[s], k[s + 1]))
        elif s != n - 1:
            self.fail('u at/after the end: span %d, expected %d' % (s, n - 1))


SUITE = S()
