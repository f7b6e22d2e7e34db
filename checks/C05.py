"""C05: presence"""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'harness'))
from common import *
from msgcheck import *

def has_presence(S):
    return any(T['oneofs'] or any(F['el']['req'] or F['el']['r'].get('required') or F.get('default') for F in T['fields']) for T in S.values())
def body(run):
    b = Batch(run, 'p'); t = run.thorough
    b.family('presence')
    b.family('defaults')
    add_random(run, b, 300 if t else 40, keep=has_presence, cc=1 if t else .3)
    add_big(run, b, dict(wide=40 if t else 6), cc=1 if t else .5)
    run_all(run, b, what='TLC enumerates every kind of field, required or not, plain or in a (required) oneof, unset or set to accepted and rejected values, and proto2 defaults; plus random schemas')

if __name__ == '__main__': main('C05', 'model_checking', body)
