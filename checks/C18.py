"""C18: generated Java validators decide exactly as documented."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'harness'))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import C01, C02, C03, C11
from texts import *
from numeric import *
from msgcheck import *
from packer import run_java

def numbers(run):
    lines, st = run.tlc('MC_Num'); rng, t = run.rng, run.thorough
    out = []; by = {0: [], 2: []}
    for l in lines:
        if l['cfg']: l['cfg'] = dict(l['cfg']); by[l['zero']].append(l)
    for z in by: by[z].sort(key=lambda l: json.dumps(l['cfg'], sort_keys=True))
    for kind, w in C01.KINDS:
        tabs = TABLES[CLS[kind]]; pool = [(z, l) for z in tabs for l in by[z]]
        for z in tabs:                                                 # every table with plain comparisons
            for tab in tabs[z]:
                for ks in (('lt',), ('lte',), ('gt',), ('gte',), ('const',), ('in',), ('not_in',)):
                    l = rng.choice([l for l in by[z] if set(l['cfg']) == set(ks)])
                    out.append(C01.concretize(run, kind, w, l['cfg'], z, l['viol'], tab))
        shapes = {}
        for z, l in pool: shapes.setdefault(tuple(sorted(l['cfg'])), []).append((z, l))
        for ks in shapes:                                              # every combination of rules
            for z, l in rng.sample(shapes[ks], min(len(shapes[ks]), 12 if t else 1)):
                out.append(C01.concretize(run, kind, w, l['cfg'], z, l['viol'], rng.choice(tabs[z])))
        for z, l in rng.sample(pool, 300 if t else 12): out.append(C01.concretize(run, kind, w, l['cfg'], z, l['viol'], rng.choice(tabs[z])))
    for c in (True, False):
        for w in (False, True):
            vals = [((wrap_value('bool', v) if w else v), [] if v == c else ['const'], v) for v in (True, False)] + [(None, [] if (w or not c) else ['const'], 'unset')]
            out.append(Case('msg' if w else 'bool', {'bool': {'const': c}}, vals, ref='google.protobuf.BoolValue' if w else None))
    return out
def contents(run):
    t, rng = run.thorough, run.rng; items = []; out = []
    for kind in ('string', 'bytes'):
        lines, st = run.tlc('MC_Str', 'MC_Str_' + kind)
        for l in (lines if t else rng.sample(lines, min(len(lines), 250))):
            v = [x[1] for x in l['viol']]
            out.append(make_case(kind, l['cfg'], [C02.conc(kind, x[0]) for x in l['viol']], v, v, rng.random() < .2))
    for _ in range(2000 if t else 260):
        kind = rng.choice(['string', 'string', 'bytes']); r = C02.rand_rules(rng, kind)
        items.append((kind, r, C02.values(rng, kind, r)))
    pats = C03.patterns(rng, t)
    items += pats if t else rng.sample(pats, 120)
    cut = lambda v, n: v if t else rng.sample(v, min(n, len(v)))
    heads, ids, raw = C03.uniq(C03.headers(rng, t)), C03.uniq(C03.uuids(rng, t)), C03.uniq(C03.raws(rng, t))
    for name in ('HTTP_HEADER_NAME', 'HTTP_HEADER_VALUE'):
        for strict in ({}, {'strict': True}, {'strict': False}): items.append(('string', dict(well_known_regex=name, **strict), cut(heads, 400) + ['']))
    items.append(('string', {'uuid': True}, cut(ids, 400) + ['']))
    for k in ('ip', 'ipv4', 'ipv6'): items.append(('bytes', {k: True}, raw + [b'']))
    for (kind, r, vals), (g, c), j in zip(items, oracle(run, items), run.javaviol):
        out.append(make_case(kind, r, vals, g, j, rng.random() < .2))
    return out
def instants(run):
    t, rng = run.thorough, run.rng; out = []
    for kind, tables, bad in (('duration', C11.DUR + C11.CCWIDE, C11.BADDUR), ('timestamp', C11.TS, C11.BADTS)):
        lines, st = run.tlc('MC_Time', 'MC_Time_' + kind)
        lines = sorted((l for l in lines if l['cfg']), key=lambda l: json.dumps(l['cfg'], sort_keys=True))
        for l in (lines if t else rng.sample(lines, min(len(lines), 220))): out.append(C11.case(kind, l, rng.choice(tables), bad, rng))
        for tab in tables:
            for ks in (('lt',), ('lte',), ('gt',), ('gte',), ('const',), ('in',), ('not_in',), ('gt', 'lt'), ('gte', 'lte')):
                c = [l for l in lines if set(l['cfg']) == set(ks)]
                if c: out.append(C11.case(kind, rng.choice(c), tab, bad, rng))
        if kind == 'duration':
            inner = [l for l in lines if C11.bounds(l['cfg']) <= {1, 2, 3}]
            for tab in C11.WIDE:
                for l in rng.sample(inner, 20): out.append(C11.case(kind, l, tab, bad, rng))
    return out

def clock(run):
    """the verdicts of Clock.tla at its first instant, half ticks being hours here"""
    lines, st = run.tlc('Clock'); now = int(time.time()); half = 3600 * 10**9; by = {}
    for l in lines: by.setdefault(text(C11.rtext(l['rule'], half)), (l['rule'], []))[1].append((l['ts'], l['log'][0]))
    out = []
    for r, vs in by.values():
        vals = [(dur_value(now + 3600 * ts, 7), [] if ok else ['now'], '%d hours from now' % ts) for ts, ok in vs]
        for req in (False, True):
            rules = C11.rtext(r, half)
            if req: rules['required'] = True
            out.append(Case('msg', {'timestamp': rules}, vals + [(None, ['required'] if req else [], 'unset')], ref='google.protobuf.Timestamp', meta='clock'))
    return out
def undefined(b):
    """rules with numbers that the enum does not define"""
    F = lambda r: {'T0': dict(mode='on', oneofs=[], file='a', parent='', fields=[dict(n='x', card='one', el=el('enum', r=r), oneof='', default=False, cr={'_': 0}, key=el('int32'))])}
    for r in ({'const': 7}, {'in': [1, 7]}, {'not_in': [1, 7]}):
        for v in (0, 1, 5, 7): b.add(F(r), 'T0', {'x': v}, go=False, cc=False, java=True, meta='undefined enum number: %s %s of %d' % (list(r)[0], list(r.values())[0], v))

def body(run):
    t, rng = run.thorough, run.rng
    cs = numbers(run) + contents(run) + instants(run) + clock(run)
    rng.shuffle(cs)
    run.log('%d fields' % len(cs))
    run_java(run, cs, per_msg=15, per_file=8)
    b = Batch(run, 'j', per_file=30)
    for f, share in (('lists', .15), ('maps', .15), ('sparse', .3), ('sizes', .4), ('unique', 1), ('presence', .6), ('defaults', 1), ('nest2', .25), ('declared', 1), ('nest3', .1), ('formats', .3), ('places', .5)):
        b.family(f, go=0, cc=0, java=1 if t else share)
    add_random(run, b, 300 if t else 60, go=False, cc=0, java=True)
    add_big(run, b, dict(lists=40 if t else 8, maps=20 if t else 4, sets=40 if t else 10, deep=12 if t else 3, wide=12 if t else 3), cc=0, go=False, java=True)
    undefined(b)
    run_all(run, b)
    run.cov['rule'] = 'the rule sets, values and message shapes of the other checks, executed by the generated Java validators'

if __name__ == '__main__': main('C18', 'model_checking', body)
