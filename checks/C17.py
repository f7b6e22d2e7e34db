"""C17: error values"""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'harness'))
from common import *
from msgcheck import *

def texts(run, c, o, err, mode, gotype):
    """the text and the type of every error in the tree"""
    if err is None: return
    def bad(why, e): run.violation('go_error_text', why=why, error=e, **show(c, mode, err))
    def walk(e):
        if 'm' in e:
            pos = 0
            for x in e['m']:
                k = e['t'].find(x['t'], pos)
                if k < 0: return bad('the text of a multi-error lacks the text of one of its errors, or has them out of order', e)
                pos = k + len(x['t'])
            if not e['y'].endswith('MultiError'): bad('unexpected type', e)
            for x in e['m']: walk(x)
        elif 'x' not in e:
            name = e['n'][:-len('ValidationError')] if e['n'].endswith('ValidationError') else None
            if name is None or e['y'] != e['n']: return bad('error name', e)
            for part, what in ((name, 'message name'), (e['f'], 'field'), (e['r'], 'reason')):
                if not part or part not in e['t']: return bad('the text lacks the ' + what, e)
            if e.get('c') is not None:
                if e['c']['t'] not in e['t']: return bad('the text lacks the cause', e)
                walk(e['c'])
    walk(err)
def body(run):
    b = Batch(run, 'e'); t = run.thorough
    b.family('lists', go=1 if t else .2, cc=0)
    b.family('maps', go=1 if t else .2, cc=0)
    b.family('sparse', go=1 if t else .5, cc=0)
    b.family('nest2', go=1 if t else .4, cc=0)
    b.family('presence', go=1 if t else .5, cc=0)
    b.family('formats', go=1, cc=0)
    b.family('places3' if t else 'places', go=1, cc=0)
    add_random(run, b, 600 if t else 120, per=6, cc=0)
    add_big(run, b, dict(lists=40 if t else 8, maps=20 if t else 4, deep=10 if t else 3, wide=20 if t else 4), cc=0)
    st = b.outcomes()
    run.log('specification: %s states, %d cases, %d schemas' % (st.get('states'), len(b.cases), len(b.schemas)))
    if b.run_go(text=True):
        compare_go(run, b, detail=True)
        for c in b.cases:
            o = c['go_out']
            if o.get('panic') or o.get('none'): continue
            for mode, key in (('all', 'a'), ('first', 'v')): texts(run, c, o, o[key], mode, None)
    finish(run, b, st, 'every error of families and random schemas compared with the specification in type, field, index, key, cause and checked for its text')

if __name__ == '__main__': main('C17', 'model_checking', body)
