"""C04: repeated and map rules."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'harness'))
from common import *
from msgcheck import *

def has_container(S): return any(F['card'] != 'one' for T in S.values() for F in T['fields'])
def body(run):
    b = Batch(run, 'c')
    t = run.thorough
    b.family('lists3' if t else 'lists', cc=1 if t else .4)
    b.family('maps3' if t else 'maps', cc=.5 if t else .4)
    b.family('sparse')
    b.family('sizes', cc=1 if t else .7)
    b.family('unique')
    add_random(run, b, 300 if t else 40, keep=has_container, cc=1 if t else .3)
    add_big(run, b, dict(lists=60 if t else 10, maps=30 if t else 6), cc=1 if t else .5)
    run_all(run, b, what='TLC enumerates every combination of size bounds, unique, ignore_empty and element kind with every short list or map of accepted and rejected elements; plus random schemas')

if __name__ == '__main__': main('C04', 'model_checking', body)
