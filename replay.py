#!/opt/veriftools/pyvenv/bin/python3
"""replay.py <replay.json> : rebuilds the wrapper unit from /repo and re-runs the failing input recorded by a check"""
import sys, os, json, importlib, pickle, tempfile, shutil
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from gbsv import build, native

doc = json.load(open(sys.argv[1]))
prop = importlib.import_module('props.' + doc['property'])
if 'pickle' not in doc:
    print('no failing input; failed obligations:')
    for o in doc['failed_obligations']:
        print('  %(proof)s: %(name)s at %(where)s [%(status)s %(backend)s]' % o)
    for b in doc['failed_bounded']:
        print('  bounded:', b)
    sys.exit(1)
group, case = pickle.loads(bytes.fromhex(doc['pickle']))
tmp = tempfile.mkdtemp(prefix='gbsv_replay_')
try:
    so = os.path.join(tmp, 'unit.so')
    build.compile_unit(prop.SUITE.tu, so, True, (), getattr(prop.SUITE, 'libs', ()))
    print('input:', group, case)
    try:
        prop.SUITE.run(native.Lib(so), group, case)
        print('passes')
        rc = 0
    except native.Violation as v:
        print('fails:', v.msg)
        rc = 1
finally:
    shutil.rmtree(tmp, ignore_errors=True)
sys.exit(rc)
