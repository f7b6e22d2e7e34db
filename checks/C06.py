"""C06: recursion"""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'harness'))
from common import *
from msgcheck import *

def nests(S): return any(F['el']['k'] == 'msg' for T in S.values() for F in T['fields'])
def body(run):
    b = Batch(run, 'n'); t = run.thorough
    b.family('nest2')
    b.family('declared', cc=1 if t else .5)
    b.family('nest3s' if t else 'nest3', go=1, cc=.4 if t else .15)
    add_random(run, b, 400 if t else 60, keep=nests, cc=1 if t else .25, depth=3, max_fields=3)
    add_big(run, b, dict(deep=24 if t else 5, wide=6 if t else 2), cc=1 if t else .5)
    run_all(run, b, what='TLC enumerates chains of two and three messages through every kind of embedded field with every combination of skip, disabled, ignored and hand-written validators, and recursive types; plus random multi-file schemas')

if __name__ == '__main__': main('C06', 'model_checking', body)
