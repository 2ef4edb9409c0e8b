"""Extraction: compile the wrapper units against /repo's current sources, to LLVM IR (verified) and to a shared object (replayed)."""
import os, re, subprocess, tempfile, shutil, time

REPO = os.environ.get('GBS_REPO', '/repo')
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CXX = 'clang++-18'
INC = ['-I' + REPO, '-I' + REPO + '/inc', '-I/usr/include/eigen3', '-I' + HERE + '/tu']
BASE = ['-std=c++20', '-DNDEBUG', '-w', '-fno-color-diagnostics', '-ferror-limit=0']
IRFLAGS = ['-O0', '-g', '-S', '-emit-llvm', '-fno-discard-value-names', '-Xclang', '-disable-O0-optnone']
SOFLAGS = ['-O1', '-fPIC', '-shared', '-DVC_NATIVE', '-D_GLIBCXX_ASSERTIONS', '-fno-omit-frame-pointer']


class BuildError(Exception):
    pass


def blocks(text):
    """lines -> block name (None for the prologue)"""
    cur, out = None, []
    for l in text.split('\n'):
        m = re.match(r'//@\s*(\S+)', l)
        if m:
            cur = m.group(1)
        out.append(cur)
    return out


def wrappers(text):
    return re.findall(r'^extern "C"[^\n;]*?\b(vc_\w+)\s*\(', text, re.M)


def compile_unit(tu, out, native, extra=(), libs=()):
    """compile; blocks that no longer compile against the current tree are dropped (returned) rather than failing everything"""
    src = open(os.path.join(HERE, 'tu', tu)).read()
    dropped = []
    lines = src.split('\n')
    owner = blocks(src)
    d = os.path.dirname(out)
    gen = os.path.join(d, ('n_' if native else 'i_') + tu)
    for attempt in range(12):
        keep = [l if (owner[i] is None or owner[i] not in dropped) else '' for i, l in enumerate(lines)]
        text = '\n'.join(keep)
        tail = ''
        if native:
            tail = '\n' + '\n'.join('VCT(%s)' % w for w in wrappers(text)) + '\n'
        open(gen, 'w').write(text + tail)
        cmd = [CXX] + BASE + INC + (SOFLAGS if native else IRFLAGS) + list(extra) + [gen, '-o', out] + (list(libs) + ['-ltbb'] if native else [])
        p = subprocess.run(cmd, capture_output=True, text=True)
        if p.returncode == 0:
            return dropped, time.time()
        bad = set()
        for m in re.finditer(re.escape(gen) + r':(\d+):\d+: (error|note|fatal error)', p.stderr):
            ln = int(m.group(1)) - 1
            if ln < len(owner) and owner[ln] is not None and owner[ln] not in dropped:
                bad.add(owner[ln])
        # only drop blocks named by an error chain
        errs = set()
        cur = []
        for l in p.stderr.split('\n'):
            m = re.match(r'(\S+?):(\d+):\d+: (fatal error|error|note|warning)', l)
            if m and m.group(3) in ('error', 'fatal error'):
                cur = []
            if m and m.group(1) == gen:
                ln = int(m.group(2)) - 1
                if ln < len(owner) and owner[ln] is not None:
                    errs.add(owner[ln])
        bad = errs - set(dropped)
        if not bad:
            raise BuildError(p.stderr[-3000:])
        dropped += sorted(bad)
    raise BuildError('cannot compile ' + tu)
