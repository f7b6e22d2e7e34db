"""C07: Validate and ValidateAll"""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'harness'))
from common import *
from msgcheck import *

def body(run):
    b = Batch(run, 'v'); t = run.thorough
    b.family('nest2', go=1 if t else .3, cc=0)
    b.family('lists', go=1 if t else .15, cc=0)
    b.family('sparse', cc=0)
    b.family('maps', go=1 if t else .15, cc=0)
    add_random(run, b, 800 if t else 160, per=8 if t else 6, cc=0, depth=2)
    add_big(run, b, dict(lists=40 if t else 8, maps=20 if t else 4, deep=10 if t else 3, wide=20 if t else 4), cc=0)
    st = b.outcomes()
    run.log('specification: %s states, %d cases, %d schemas' % (st.get('states'), len(b.cases), len(b.schemas)))
    if b.run_go(): compare_go(run, b)
    finish(run, b, st, 'random schemas and values with many violations, families of lists, maps and nested messages; both modes')

if __name__ == '__main__': main('C07', 'model_checking', body)
