"""Running the real compiled code on concrete inputs (replay of counterexamples, bounded stand-ins)."""
import ctypes, os, sys, time, json, mmap, pickle, signal, struct, random, traceback
import numpy as np


class VecCB(ctypes.Structure):
    _fields_ = [('b', ctypes.c_void_p), ('e', ctypes.c_void_p), ('c', ctypes.c_void_p)]


class Vec:
    """a std::vector<double | size_t | std::array<double,d>> argument"""

    def __init__(self, data, dim=1, dtype='d', cap=0):
        self.dim, self.dtype = dim, dtype
        self.data = data

    def make(self, lib):
        a = np.array(self.data, dtype=np.float64 if self.dtype == 'd' else np.uint64)
        n = a.size * 8
        cb = VecCB()
        p = lib.alloc(n)
        if n:
            ctypes.memmove(p, a.ctypes.data, n)
        cb.b = p
        cb.e = cb.c = (p or 0) + n if n else p
        return cb

    def read(self, cb):
        n = ((cb.e or 0) - (cb.b or 0))
        if n == 0:
            return np.zeros((0, self.dim)) if self.dim > 1 else np.zeros(0)
        buf = ctypes.string_at(cb.b, n)
        a = np.frombuffer(buf, dtype=np.float64 if self.dtype == 'd' else np.uint64)
        return a.reshape(-1, self.dim) if self.dim > 1 else a


class Out:
    """a fixed-size output buffer (std::array<double,n>& or double*)"""

    def __init__(self, n, fill=float('nan')):
        # n may also be the list of initial values (an input std::array)
        self.init = [float(x) for x in n] if isinstance(n, (list, tuple)) else [fill] * n
        self.n, self.fill = len(self.init), fill


class NativeError(Exception):
    pass


class Res:
    __slots__ = ('rc', 'ret', 'out', 'what')

    def __repr__(self):
        return 'Res(rc=%s, ret=%s, out=%s, what=%s)' % (self.rc, self.ret, self.out, self.what)


class Lib:
    def __init__(self, path):
        self.l = ctypes.CDLL(path)
        self.l.vcn_alloc.restype = ctypes.c_void_p
        self.l.vcn_alloc.argtypes = [ctypes.c_size_t]
        self.l.vcn_free.argtypes = [ctypes.c_void_p]
        self.l.vcn_what.restype = ctypes.c_char_p
        self.calls = 0

    def alloc(self, n):
        return self.l.vcn_alloc(n) if n else None

    def has(self, name):
        try:
            getattr(self.l, 't_' + name)
            return True
        except AttributeError:
            return False

    def call(self, name, args, ret=None):
        """args: float, int, bool, Vec, Out, ('p', value-list) ; ret: None | 'd' | 'q' | 'b'.  Returns Res: out[i] for Vec/Out args"""
        try:
            f = getattr(self.l, 't_' + name)
        except AttributeError:
            raise Missing(name)
        n = len(args)
        pa = (ctypes.c_void_p * max(n, 1))()
        hold = []
        for i, a in enumerate(args):
            if isinstance(a, bool):
                o = ctypes.c_bool(a)
            elif isinstance(a, (int, np.integer)):
                o = ctypes.c_uint64(int(a) & (2**64 - 1))
            elif isinstance(a, (float, np.floating)):
                o = ctypes.c_double(float(a))
            elif isinstance(a, Vec):
                o = a.make(self)
            elif isinstance(a, Out):
                o = (ctypes.c_double * max(a.n, 1))(*a.init)
            elif isinstance(a, (list, tuple)):
                o = (ctypes.c_double * max(len(a), 1))(*[float(x) for x in a])
            else:
                raise NativeError('argument %r' % (a,))
            hold.append(o)
            pa[i] = ctypes.addressof(o)
        r = ctypes.c_double() if ret == 'd' else ctypes.c_bool() if ret == 'b' else ctypes.c_int64()
        self.calls += 1
        rc = f(pa, ctypes.byref(r))
        R = Res()
        R.rc = rc
        R.ret = r.value if ret else None
        R.what = self.l.vcn_what().decode(errors='replace') if rc else ''
        R.out = {}
        for i, a in enumerate(args):
            if isinstance(a, Vec):
                R.out[i] = a.read(hold[i])
                if hold[i].b:
                    self.l.vcn_free(hold[i].b)
            elif isinstance(a, (Out, list, tuple)):
                R.out[i] = np.array(hold[i][:])
            elif isinstance(a, (int, np.integer)) and not isinstance(a, bool):
                R.out[i] = hold[i].value      # a size_t passed by reference may have changed
        return R


class Missing(Exception):
    """the wrapper was dropped because it does not compile against the current tree"""


class Violation(Exception):
    def __init__(self, msg, **kw):
        self.msg, self.kw = msg, kw
        super().__init__(msg)


class Tracker:
    """shared page in which a worker notes the case it is about to run, so that a crash or hang names its input"""

    def __init__(self, size=1 << 20):
        self.m = mmap.mmap(-1, size)
        self.size = size

    def note(self, n, case):
        b = pickle.dumps(case)
        if len(b) > self.size - 64:
            b = pickle.dumps('case too large: ' + repr(case)[:2000])
        self.m[16:16 + len(b)] = b
        self.m[0:16] = struct.pack('<QQ', n, len(b))

    def get(self):
        n, l = struct.unpack('<QQ', self.m[0:16])
        try:
            return n, pickle.loads(self.m[16:16 + l]) if l else None
        except Exception:
            return n, None


def jsonable(x):
    if isinstance(x, (np.floating, float)):
        return float(x).hex() if x == x and abs(x) != float('inf') else repr(float(x))
    if isinstance(x, (np.integer,)):
        return int(x)
    if isinstance(x, np.ndarray):
        return [jsonable(y) for y in x.tolist()]
    if isinstance(x, (list, tuple)):
        return [jsonable(y) for y in x]
    if isinstance(x, dict):
        return {str(k): jsonable(v) for k, v in x.items()}
    if isinstance(x, (int, str, bool)) or x is None:
        return x
    return repr(x)


def _worker(path, suite, w, nw, seed, tier, trk, fd, tlimit, only=None):
    t0 = time.time()
    res = {'n': 0, 'viol': None, 'groups': {}, 'samples': [], 'missing': [], 'err': None, 'hashes': set()}
    try:
        lib = Lib(path)
        rng = random.Random(seed * 1000 + 17)
        k = 0
        for group, case in suite.cases(rng, tier):
            k += 1
            if k % nw != w:
                continue
            if time.time() - t0 > tlimit:
                res['truncated'] = True
                break
            trk.note(k, (group, case))
            try:
                suite.run(lib, group, case)
            except Violation as v:
                res['viol'] = (group, case, v.msg, v.kw)
                break
            except (IndexError, ValueError, TypeError, KeyError, OverflowError, ZeroDivisionError, AssertionError) as e:
                res['viol'] = (group, case, 'result of the wrong shape: %r (%s)' % (e, traceback.format_exc().strip().split('\n')[-3].strip()), {})
                break
            except Missing as m:
                if str(m) not in res['missing']:
                    res['missing'].append(str(m))
                continue
            res['n'] += 1
            res['hashes'].add(hash(repr((group, case))) & 0xffffffffffff)
            res['groups'][group] = res['groups'].get(group, 0) + 1
            if len(res['samples']) < 2 and res['n'] in (1, 40):
                res['samples'].append((group, case))
    except BaseException as e:
        res['err'] = traceback.format_exc()
    b = pickle.dumps(res)
    with os.fdopen(fd, 'wb') as f:
        f.write(b)
    os._exit(0)


def run_suite(path, suite, seed, tier, workers=6, tlimit=60, hang=90):
    """run every case of the suite in isolated workers; returns dict(n, groups, viol, samples, missing)"""
    procs = []
    for w in range(workers):
        trk = Tracker()
        r, wr = os.pipe()
        sys.stdout.flush()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            dn = os.open(os.devnull, os.O_WRONLY)
            os.dup2(dn, 1)
            os.dup2(dn, 2)
            _worker(path, suite, w, workers, seed, tier, trk, wr, tlimit)
        os.close(wr)
        procs.append([pid, r, trk, b'', time.time(), -1])
    out = {'n': 0, 'groups': {}, 'viol': None, 'samples': [], 'missing': [], 'err': None, 'truncated': False, 'distinct': 0}
    allh = set()
    import select
    live = list(procs)
    while live:
        rs, _, _ = select.select([p[1] for p in live], [], [], 1.0)
        for p in list(live):
            done = False
            if p[1] in rs:
                d = os.read(p[1], 1 << 16)
                if d:
                    p[3] += d
                else:
                    done = True
            if not done:
                n, _c = p[2].get()
                if n != p[5]:
                    p[5], p[4] = n, time.time()
                elif time.time() - p[4] > hang:
                    os.kill(p[0], signal.SIGKILL)
                    if out['viol'] is None:
                        n, c = p[2].get()
                        out['viol'] = (c[0] if c else '?', c[1] if c else None, 'call did not return within %d s' % hang, {})
                    done = True
            if done:
                live.remove(p)
                os.close(p[1])
                _, status = os.waitpid(p[0], 0)
                if p[3]:
                    res = pickle.loads(p[3])
                    out['n'] += res['n']
                    allh |= res.get('hashes', set())
                    for g, c in res['groups'].items():
                        out['groups'][g] = out['groups'].get(g, 0) + c
                    out['samples'] += res['samples']
                    for m in res['missing']:
                        if m not in out['missing']:
                            out['missing'].append(m)
                    if res['viol'] and out['viol'] is None:
                        out['viol'] = res['viol']
                    if res['err'] and not out['err']:
                        out['err'] = res['err']
                    out['truncated'] |= bool(res.get('truncated'))
                elif out['viol'] is None and os.WIFSIGNALED(status) and os.WTERMSIG(status) in (signal.SIGSEGV, signal.SIGABRT, signal.SIGBUS, signal.SIGFPE, signal.SIGILL, signal.SIGTRAP):
                    n, c = p[2].get()
                    out['viol'] = (c[0] if c else '?', c[1] if c else None, 'crash: signal %d' % os.WTERMSIG(status), {})
                if out['viol'] is not None:
                    for q in live:
                        try:
                            os.kill(q[0], signal.SIGKILL)
                        except ProcessLookupError:
                            pass
    out['distinct'] = len(allh)
    return out
