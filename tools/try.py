import sys, os; sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from gbsv import build
for t in sys.argv[1:]:
    for nat in (False,True):
        print(t, nat, build.compile_unit(t,'/tmp/w/try.out',nat)[0])
