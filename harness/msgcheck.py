"""Common body of the message-level checks: cases -> specification outcomes -> real validators -> comparison."""
from msggen import *

def add_random(run, b, n, per=4, syntaxes=('proto3', 'proto3', 'proto2'), keep=None, nils=.3, cc=1.0, go=True, depth=2, java=False, **kw):
    rng = run.rng; done = 0
    while done < n:
        syn = rng.choice(syntaxes)
        S = rand_schema(rng, syn, **kw)
        if keep and not keep(S): continue
        done += 1; k = tries = 0; x = rng.random() < cc
        while k < per and tries < 200:
            tries += 1
            try: m = rand_value(rng, S, 'T0', depth, rng.random() < nils, [24, 25])
            except TooBig: continue
            b.add(S, 'T0', m, go=go, cc=x, syntax=syn, meta='random', java=java); k += 1

def compare_go(run, b, detail=False, modes=('all', 'first'), only=None):
    n = 0
    for c in b.cases:
        if not c['go'] or only and not only(c): continue
        sc, o = c['schema'], c['go_out']; n += 1
        if o.get('panic') or o.get('none'):
            run.violation('go_panic', **show(c, 'go', o)); continue
        for mode in modes:
            got = real_result(o['a' if mode == 'all' else 'v'], detail)
            want = [spec_result(sc, r, detail) for r in c['exp'][mode]]
            if got not in want:
                run.violation('go_result', canon=repr(got), want=[repr(w) for w in want[:3]], **show(c, mode, o['a' if mode == 'all' else 'v']))
    run.count('go_calls', 2 * n); run.count('traces_validated_against_impl', n)

def compare_cc(run, b, only=None):
    n = 0
    for c in b.cases:
        if not c['cc'] or only and not only(c): continue
        o = c['cc_out']; n += 1
        got = [o['r']] + ([cc_field(o['msg'])] if o['r'] == 'F' else [])
        want = [[r[0]] + [camel(x) for x in r[1:]] for r in c['exp']['cc']]
        if got not in want:
            run.violation('cc_result', canon=repr(got), want=[repr(w) for w in want[:3]], **show(c, 'cc', o))
    run.count('cc_calls', n); run.count('traces_validated_against_impl', n)

def compare_java(run, b):
    n = 0
    for c in b.cases:
        if not c['java']: continue
        o, sc = c['java_out'], c['schema']; n += 1
        if o['r'] == 'P': raise ToolError('Java driver could not run %s: %s' % (sc.full(c['ty']), o))
        got = [o['r']] + ([o['field']] if o['r'] in 'FX' else [])
        want = [[r[0]] + (['.%s.%s' % (sc.full(r[1]), r[2])] if len(r) > 1 else []) for r in c['exp']['java']]
        if got not in want or o.get('mut') or (o['r'] in 'FX' and not o.get('reason')):
            run.violation('java_result', canon=repr(got), want=[repr(w) for w in want[:3]], **show(c, 'java', o))
    run.count('java_calls', n); run.count('traces_validated_against_impl', n)

def finish(run, b, st, what):
    run.count('spec_states', st.get('states', 0)); run.cov['schemas'] = run.cov.get('schemas', 0) + len(b.schemas)
    for c in b.cases[:: max(1, len(b.cases) // 3)][:3]: run.sample(dict(value=c['m'], expected=c['exp'], proto='\n'.join(c['schema'].message(t).decl() for t in c['schema'].S if not t.startswith('google.') and not c['schema'].parent(t))[:600]))
    run.cov['rule'] = what

def run_all(run, b, detail=False, text=False, what=''):
    st = b.outcomes()
    run.log('specification: %s states, %d cases, %d schemas' % (st.get('states'), len(b.cases), len(b.schemas)))
    if b.run_go(text=text): compare_go(run, b, detail)
    if b.run_cc(): compare_cc(run, b)
    if b.run_java(): compare_java(run, b)
    finish(run, b, st, what)
    return st
