"""C09: accepted proto files yield Go and C++ code that compiles"""
import sys, os, types
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'harness'))
from common import *
import checker, cells as cellmod
from worlds import *
from compile import *

def packs(ws, n, key=None):
    """worlds in packs of n, worlds of different keys apart"""
    groups = {}
    for w in ws: groups.setdefault(key(w) if key else 0, []).append(w)
    return [g[i:i + n] for g in groups.values() for i in range(0, len(g), n)]

class Tags:
    def __init__(self): self.n = 0
    def __call__(self): self.n += 1; return 'u%dz' % self.n

SUSPECT = {'inf', 'minus_inf', 'nan', 'past_go_max', 'max', 'min', 'minus_zero', 'dup_zero', 'i63', 'u64', 'huge', 'tiny'}
def literal_units(ws, tag, n):
    def build(p, t): return cell_file([lambda name, num, pkg, w=w: literal_field(w, pkg) for w in p], t)
    return [Unit(tag(), p, build) for p in packs(ws, n, lambda w: (w['class'], w['type'] in ('duration', 'timestamp'), w['pos'] if w['class'] in ('past_go_max', 'max', 'min') else '') if w['class'] in SUSPECT else 'plain')]

EXT = {'othergo', 'other', 'nested_other', 'public'}
def plan(run):
    """the worlds and the functions that make units of them"""
    t, rng = run.thorough, run.rng
    W = {p: run.tlc('MC_World', env={'PART': p}, timeout=120)[0] for p in ('types', 'names', 'layout', 'literals', 'clashes')}
    sets = []
    for part in ('atoms', 'string', 'containers'):
        for l in run.tlc('MC_Check', env={'PART': part, 'BOUND': 2}, timeout=400)[0]:
            if not l['reject']: sets.append(l)
    if not t and len(sets) > 3000: sets = [s for s in sets if s.get('n', 1) < 2] + rng.sample([s for s in sets if s.get('n', 1) >= 2], 2200)
    run.log('specification: %s worlds, %d accepted rule sets' % ({k: len(v) for k, v in W.items()}, len(sets)))
    render = checker.Render(rng)
    cases = []
    for i, l in enumerate(sets):
        ks = NUMERIC if l['t'] == 'num' else [l['t']]
        for k in ks if t or l.get('n', 1) < 2 else [rng.choice(ks)]:
            F = dict(l['F'], k=k if l['t'] == 'num' else l['F']['k']); R = dict(t=k if l['t'] == 'num' else l['t'], r=l['r'], m=[])
            rules = render.rules(F, R)
            pos = 'field'
            if F['card'] == 'one':
                ps = ['field', 'oneof', 'item', 'value'] + (['wrapper', 'wrapped_item'] if F['k'] in WRAPPER else []) + (['key'] if F['k'] in cellmod.MAPKEYS else [])
                pos = ps[(i + run.seed) % len(ps)]
            cases.append(dict(kind='rules', F=F, rules=text(rules), pos=pos, _r=rules))
    def case_field(w, pkg):
        F, r, p = w['F'], w['_r'], w['pos']
        if p in ('wrapper', 'wrapped_item'): F = dict(F, w=True)
        f = checker.field(F, r, pkg, 'o' if p == 'oneof' else None); f.name = 'f'
        if p in ('item', 'wrapped_item'): f.card, f.rules = 'repeated', {'repeated': {'items': r}}
        elif p == 'value': f.card, f.key, f.rules = 'map', 'string', {'map': {'values': r}}
        elif p == 'key': f = Field('f', 1, 'int32', 'map', F['k'], None, {'map': {'keys': r}})
        return f
    def case_units(tag, cs, n, syntax='proto3'):
        def build(p, tg): return cell_file([lambda name, num, pkg, w=w: case_field(w, pkg) for w in p], tg, syntax)
        return [Unit(tag(), p, build) for p in packs(cs, n)]
    def matrix_units(tag, cs, n, syntax):
        ws = [dict(kind='cell', pos=a, type=b, rule=c, syntax=syntax, _mk=mk) for a, b, c, mk in cs]
        def build(p, tg): return cell_file([w['_mk'] for w in p], tg, syntax)
        return [Unit(tag(), p, build) for p in packs(ws, n)]
    def sample(xs, n): return xs if t or len(xs) <= n else rng.sample(xs, n)
    matrix = list(cellmod.cells())
    p2 = [c for c in matrix if c[0] != 'none']
    def pack_types(tag, ws, single):
        us = []
        for g in packs(ws, 10**6, lambda w: (w['home'], w['syntax'])):
            if g[0]['home'] in EXT and single: us += [Unit(tag(), p, type_files) for p in packs(g, 100, lambda w: (w['pos'], w['ref'], w['rule']))]
            else: us += [Unit(tag(), p, type_files) for p in packs(g, 40)]
        return us
    FN = [w for w in W['names'] if w['what'] == 'field']; ON = [w for w in W['names'] if w['what'] != 'field']
    def names(tag, k_field, n_file):
        fs = [w for w in FN if t or (hash_(w['name'] + w['rule']) + run.seed) % 22 < k_field]
        us = [Unit(tag(), p, name_field_file) for p in packs(fs, 100, lambda w: w['rule'] if len(fs) > 800 else 0)]
        us += [Unit(tag(), [w], lambda p, tg: name_file(p[0], tg)) for w in sample(ON, n_file)]
        return us
    def layouts(tag, n):
        one = [w for w in W['layout'] if deviations(w) < 2]
        us = []
        for w in one + sample([w for w in W['layout'] if deviations(w) == 2], n):
            tg = tag(); us.append(Unit(tg, [w], lambda p, x: layout_files(p[0], 0, 'pgvx/gen/%s/' % x)))
        return us
    def clashes(tag): return [Unit(tag(), [w], lambda p, tg: clash_files(p[0], tg)) for w in W['clashes']]
    strip(W)
    return types.SimpleNamespace(**locals())
def body(run):
    P = plan(run); t, rng, W, cases, matrix, p2 = run.thorough, run.rng, P.W, P.cases, P.matrix, P.p2
    case_units, matrix_units, sample, pack_types, names, layouts, clashes = P.case_units, P.matrix_units, P.sample, P.pack_types, P.names, P.layouts, P.clashes
    # ---- Go
    tag = Tags(); go = Go(run); cc = Cc(run, True)
    units = (literal_units(sample(W['literals'], 2000), tag, 120) + case_units(tag, cases, 120) + case_units(tag, sample(cases, 500), 120, 'proto2') + matrix_units(tag, matrix, 110, 'proto3')
             + matrix_units(tag, sample(p2, 600), 110, 'proto2') + pack_types(tag, W['types'], True) + names(tag, 22, 120) + layouts(tag, 90) + clashes(tag))
    run.log('Go: %d units, %d worlds' % (len(units), sum(len(u.worlds) for u in units)))
    compile_units(run, go, units)
    run.log('Go done')
    units = (literal_units(sample(W['literals'], 500), tag, 60) + case_units(tag, sample(cases, 700), 60) + case_units(tag, sample(cases, 120), 60, 'proto2') + matrix_units(tag, matrix, 60, 'proto3')
             + matrix_units(tag, sample(p2, 150), 60, 'proto2') + pack_types(tag, W['types'], False) + names(tag, 3, 30) + layouts(tag, 20) + clashes(tag))
    for u in rng.sample(units, 16 if not t else 100): u.full = True
    run.log('C++: %d units, %d worlds' % (len(units), sum(len(u.worlds) for u in units)))
    compile_units(run, cc, units)
    run.log('C++ done')
    for k in ('units_go', 'units_cc'): run.cov['traces_validated_against_impl'] = run.cov.get('traces_validated_against_impl', 0) + run.cov.get(k, 0)
    run.cov['rule'] = ('TLC enumerates accepted rule sets (pairs), homes of referenced types x position x rule x syntax, names x rule, file layouts with at most two deviations, and literal classes x rule x position; '
                       'each world is generated and compiled (Go: go build, C++: clang++ and, for a sample, g++ without a precompiled header)')
    run.cov['exhaustive'] = False
    run.assumptions += ['a world that protoc, protoc-gen-go or protoc\'s C++ generator cannot compile by itself is not counted']
def hash_(s): return int(hashlib.md5(s.encode()).hexdigest()[:8], 16)
BASE = dict(file='a', pkg='p', gopkg='path', syntax='proto3', content='normal')
BASE['with'] = 'alone'
def deviations(w): return sum(w[k] != v for k, v in BASE.items())
def strip(W):
    for ws in W.values(): ws.sort(key=lambda w: json.dumps(w, sort_keys=True))

if __name__ == '__main__': main('C09', 'model_checking', body)
