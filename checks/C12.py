"""C12: C++ unimplemented rules"""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'harness'))
from common import *
from msgcheck import *

def body(run):
    b = Batch(run, 'u'); t = run.thorough
    b.family('unimpl')
    b.family('beside')
    add_random(run, b, 200 if t else 16, cc=1, go=False, cc_unimpl=.6, max_fields=4)
    st = b.outcomes()
    run.log('specification: %s states, %d cases, %d schemas' % (st.get('states'), len(b.cases), len(b.schemas)))
    if b.run_cc(): compare_cc(run, b)
    finish(run, b, st, 'TLC enumerates every unimplemented rule in every position, reached or hidden by earlier violations, unset fields, skip and ignore_empty; plus random schemas')

if __name__ == '__main__': main('C12', 'model_checking', body)
