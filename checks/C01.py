"""C01: numeric and bool rules."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'harness'))
from common import *
from protoir import *
from packer import *
from numeric import *
from msgcheck import *

KINDS = [(t, False) for t in NUMERIC] + [(t, True) for t in NUMERIC if t in WRAPPER]

def concretize(run, kind, wrapped, cfg, zero, viol, table):
    def cv(x): return table[x]
    rules = {}
    for k, v in cfg.items():
        if k in ('in', 'not_in'): rules[k] = [cv(x) for x in v]
        elif k == 'ignore_empty': rules[k] = v
        else: rules[k] = cv(v)
    vals = []
    for r in range(5):
        c = table[r]
        vals.append((wrap_value(kind, c) if wrapped else c, viol[r], c))
    if wrapped: vals.append((None, [], 'unset'))
    elif zero is not None: vals.append((None, viol[zero], 'unset'))
    return Case('msg' if wrapped else kind, {kind: rules}, vals, ref='google.protobuf.' + WRAPPER[kind] if wrapped else None,
                meta={'cfg': cfg, 'table': table})

def body(run):
    lines, st = run.tlc('MC_Num')
    run.log('specification: %d rule sets evaluated by TLC' % len(lines))
    rng = run.rng
    basic = {z: [] for z in (0, 2)}; mixed = {z: [] for z in (0, 2)}
    for l in lines:
        if not l['cfg']: continue
        l['cfg'] = dict(l['cfg'])
        rich = 'not_in' in l['cfg'] and any(k in l['cfg'] for k in ('gt', 'gte', 'lt', 'lte'))
        (mixed if rich else basic)[l['zero']].append(l)
    for z in (0, 2):
        basic[z].sort(key=lambda l: json.dumps(l['cfg'], sort_keys=True)); mixed[z].sort(key=lambda l: json.dumps(l['cfg'], sort_keys=True))
    gocases, cccases = [], []
    n_mixed = 10**6 if run.thorough else 24
    for kind, wrapped in KINDS:
        tabs = TABLES[CLS[kind]]
        pool = []
        for z in tabs:
            b = basic[z]
            if not run.thorough and len(tabs) > 1 and z == 0: b = rng.sample(b, 40)
            pool += [(z, l) for l in b] + [(z, l) for l in rng.sample(mixed[z], min(n_mixed, len(mixed[z])))]
        for z, l in pool:
            ts = tabs[z] if run.thorough and not wrapped else [rng.choice(tabs[z])]
            for t in ts: gocases.append(concretize(run, kind, wrapped, l['cfg'], z, l['viol'], t))
        # C++: every shape of rule set, sampled bounds
        k = 150 if run.thorough else 34
        for t in (tabs[2] if 2 in tabs else []) + tabs[0]:       # every table at least with plain comparisons
            z = t.index(0)
            for ks in (('lt',), ('lte',), ('gt',), ('gte',), ('const',), ('in',), ('not_in',)):
                c = [l for l in basic[z] if set(l['cfg']) == set(ks)]
                l = rng.choice(c)
                cccases.append(concretize(run, kind, wrapped, l['cfg'], z, l['viol'], t))
        for z, l in rng.sample(pool, min(k, len(pool))):
            cccases.append(concretize(run, kind, wrapped, l['cfg'], z, l['viol'], rng.choice(tabs[z])))
    # bool: const true/false on every value, plain and wrapped
    for c in (True, False):
        for w in (False, True):
            vals = [((wrap_value('bool', v) if w else v), [] if v == c else ['const'], v) for v in (True, False)]
            vals.append((None, [] if (w or not c) else ['const'], 'unset'))
            for cs in (gocases, cccases):
                cs.append(Case('msg' if w else 'bool', {'bool': {'const': c}}, list(vals), ref='google.protobuf.BoolValue' if w else None))
    rng.shuffle(gocases); rng.shuffle(cccases)
    for c in gocases[:3]: run.sample({'field': (c.typ, text(c.rules)), 'values': [(str(v[2]), v[1]) for v in c.vals]})
    run_go(run, gocases, per_msg=30, per_file=8)
    run_cc(run, cccases, per_msg=25, per_file=max(1, len(cccases) // (25 * 3 * NCPU)))
    b = Batch(run, 'b')                                            # long lists of permitted or forbidden numbers
    add_big(run, b, {'sets': 60 if run.thorough else 14}, kinds=NUMERIC, cc=1 if run.thorough else .6)
    run_all(run, b)
    run.cov['traces_validated_against_impl'] = run.cov.get('go_calls', 0) + run.cov.get('cc_calls', 0)
    run.cov['rule_sets'] = len(lines)
    run.cov['rule'] = 'TLC enumerates every accepted combination of ordered rules over 5 ranks; each is concretised for every numeric type and executed on every value'

if __name__ == '__main__': main('C01', 'model_checking', body)
