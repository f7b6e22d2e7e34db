"""Random schemas and values (specification form)."""
import random
from msgs import *

STR = ['', 'a', 'ab', 'abc', 'ü', 'a\u20ac', 'example.com', '1.2.3.4', '::1', 'a@b.co', 'http://x/y', '-bad-', 'b', 'AB', '\U0001F600x',
       '00000000-0000-0000-0000-000000000000']
BYT = [b'', b'a', b'ab', b'abc', b'\x00', b'\xff\xfe', b'\x7f\x00\x00\x01', b'a' * 16, b'b']
cp = lambda s: [ord(c) for c in s]
FIELD_NAMES = ['f%d', 'some_field%d', 'camelCase%d', 'x_y%d', 'snake_case_name%d', 'a%d_b']

def rand_rules(rng, k, cc_unimpl=0.15):
    """an admissible rule record for an element kind"""
    if k in NUMERIC:
        hi = 4 + NUMZ(k); a, b = rng.sample(range(0, hi + 1), 2)
        r = rng.choice([{}, {'const': a}, {'gt': a}, {'gte': a}, {'lt': a}, {'lte': a}, {'gt': a, 'lt': b}, {'gte': a, 'lte': b}, {'gt': a, 'lte': b},
                        {'in': [a, b]}, {'not_in': [a]}, {'gt': min(a, b), 'not_in': [max(a, b)]}])
        if r and rng.random() < .2: r = dict(r, ignore_empty=True)
        return r
    if k == 'bool': return rng.choice([{}, {'const': True}, {'const': False}])
    if k == 'enum': return rng.choice([{}, {'const': 1}, {'in': [1, 5]}, {'not_in': [5]}, {'defined_only': True}, {'in': [1, 5], 'defined_only': True}, {'not_in': [0], 'defined_only': True}])
    if k == 'string':
        r = rng.choice([{}, {'const': cp('ab')}, {'min_len': 2}, {'max_len': 2}, {'len': 2}, {'min_len': 1, 'max_len': 2}, {'min_bytes': 3}, {'max_bytes': 2},
                        {'prefix': cp('a')}, {'suffix': cp('b')}, {'contains': cp('b')}, {'not_contains': cp('b')}, {'in': [cp('a'), cp('ab')]}, {'not_in': [cp('a'), cp('')]},
                        {'ip': True}, {'ipv4': True}, {'ipv6': True}, {'hostname': True}, {'address': True}, {'uuid': True}, {'min_len': 2, 'prefix': cp('a')}, {'max_len': 3, 'not_contains': cp('b'), 'suffix': cp('a')}])
        if rng.random() < cc_unimpl: r = dict(r if not any(f in r for f in ('ip', 'ipv4', 'ipv6', 'hostname', 'address', 'uuid')) else {}, **{rng.choice(['email', 'uri', 'uri_ref']): True})
        if r and rng.random() < .2: r = dict(r, ignore_empty=True)
        return r
    if k == 'bytes':
        r = rng.choice([{}, {'const': list(b'ab')}, {'min_len': 2}, {'max_len': 2}, {'len': 2}, {'prefix': list(b'a')}, {'suffix': list(b'b')}, {'contains': list(b'b')},
                        {'in': [list(b'a'), list(b'ab')]}, {'not_in': [list(b'a')]}])
        if rng.random() < cc_unimpl: r = dict(r, **{rng.choice(['ip', 'ipv4', 'ipv6']): True})
        if r and rng.random() < .2: r = dict(r, ignore_empty=True)
        return r
    if k == 'any':
        return rng.choice([{}, {'required': True}, {'in': ['x/y', 'z']}, {'not_in': ['x/y', 'z']}, {'in': ['z'], 'required': True}])
    if k in ('duration', 'timestamp'):
        a, b = rng.sample(range(len(DUR)), 2)
        r = rng.choice([{}, {'const': a}, {'gt': a}, {'gte': a}, {'lt': a}, {'lte': a}, {'gt': a, 'lt': b}, {'gte': a, 'lte': b}] +
                       ([{'in': [a, b]}, {'not_in': [a, b]}] if k == 'duration' else []))
        if k == 'timestamp' and rng.random() < .6: r = {}
        if rng.random() < .3: r = dict(r, required=True)
        return r
    return {}

def rand_scalar(rng, e):
    k, r = e['k'], e['r']
    if k in NUMERIC:
        c = [e['zero']] + list(range(0, 6 + NUMZ(k)))
        return rng.choice(c)
    if k == 'bool': return rng.random() < .5
    if k == 'enum': return rng.choice([3, 1, 5] if e.get('defined') == [3, 1, 5] else [0, 1, 5, 1, 5, 9])  # proto2 enums are closed
    lits = [v for n, v in r.items() if n in ('const', 'prefix', 'suffix', 'contains', 'not_contains')] + [x for n, v in r.items() if n in ('in', 'not_in') for x in v]
    if lits and rng.random() < .5: return list(rng.choice(lits))
    return cp(rng.choice(STR)) if k == 'string' else list(rng.choice(BYT))

def rand_el(rng, types, tyidx, cc_unimpl, msg_bias=.35):
    if types and rng.random() < msg_bias:
        e = el('msg', ty=rng.choice(types), req=rng.random() < .2, skip=rng.random() < .12)
        return e
    k = rng.choice(NUMERIC + ['bool', 'string', 'string', 'string', 'bytes', 'enum', 'enum', 'any', 'duration', 'timestamp', 'int32', 'string'])
    w = k in WRAPPER and rng.random() < .2
    r = rand_rules(rng, k, cc_unimpl)
    e = el(k, w=w, r=r, zero=NUMZ(k) if k in NUMERIC else None, req=w and rng.random() < .3)
    return e

def rand_schema(rng, syntax='proto3', cc_unimpl=.05, max_fields=5, multi=True):
    n = rng.randint(1, 4); S = {}
    split = rng.randint(1, n) if multi and rng.random() < .3 else n
    names = ['T%d' % i for i in range(n)]
    modes = ['on'] + [rng.choices(['on', 'disabled', 'ignored', 'legacy'], [8, 1, 1, 1])[0] for _ in range(n - 1)]
    for i in range(n):
        fl = 'a' if i < split else 'b'
        targets = [names[j] for j in range(n) if (j >= split if fl == 'b' else True)]
        if rng.random() < .1: targets = targets + ['google.protobuf.Empty']
        T = dict(mode=modes[i], fields=[], oneofs=[], file=fl, parent='')
        par = [names[j] for j in range(i) if S[names[j]]['file'] == fl and S[names[j]]['mode'] != 'legacy']
        if par and modes[i] != 'legacy' and rng.random() < .3: T['parent'] = rng.choice(par)
        if modes[i] != 'legacy':
            oneofs = [('o%d' if j else 'my_choice%d') % j for j in range(rng.choice([0, 0, 1, 2]))]
            for o in oneofs: T['oneofs'].append(dict(n=o, required=rng.random() < .4))
            seq = []
            for o in oneofs: seq += [o] * rng.randint(1, 3)
            flds = [('one', o) for o in seq] + [(rng.choices(['one', 'rep', 'map'], [5, 3, 3])[0], '') for _ in range(rng.randint(1 if not seq else 0, max_fields))]
            for num, (card, o) in enumerate(flds):
                e = rand_el(rng, targets, i, cc_unimpl)
                while card == 'map' and syntax == 'proto2' and e['k'] == 'enum': e = rand_el(rng, targets, i, cc_unimpl)
                F = dict(n=rng.choice(FIELD_NAMES) % (num + 1), card=card, oneof=o, el=e, cr={'_': 0}, key=el('int32'))
                if card != 'one':
                    if e['req']: e['req'] = False
                    e['r'].pop('required', None)
                    a, b = sorted(rng.sample(range(0, 4), 2))
                    s = ('items' if card == 'rep' else 'pairs')
                    cr = rng.choice([{}, {}, {'min_' + s: a}, {'max_' + s: b}, {'min_' + s: a, 'max_' + s: b}, {'min_' + s: b, 'max_' + s: b}])
                    cr = {k: v for k, v in cr.items()}
                    if card == 'rep' and not msglike(e) and rng.random() < .4: cr['unique'] = True
                    if cr and rng.random() < .25: cr['ignore_empty'] = True
                    if card == 'map' and msglike(e) and rng.random() < .25: cr['no_sparse'] = True
                    F['cr'] = dict(cr, _=0)
                if card == 'map':
                    kk = rng.choice(['string', 'string', 'int32', 'uint32', 'int64', 'sint64', 'fixed64', 'bool'])
                    F['key'] = el(kk, r=rand_rules(rng, kk, 0), zero=NUMZ(kk) if kk in NUMERIC else None)
                elif syntax == 'proto2' and card == 'one' and not o and not msglike(e) and rng.random() < .5:
                    F['default'] = True; e['r'].pop('ignore_empty', None)  # 'empty' is ambiguous with an explicit default
                    e['zero'] = {'enum': lambda: rng.choice([3, 1, 5])}.get(e['k'], lambda: rand_scalar(rng, e))()
                if syntax == 'proto2' and e['k'] == 'enum':
                    e['defined'] = [3, 1, 5]
                    if not F.get('default'): e['zero'] = 3
                    if e['r'].get('defined_only'): e['r'] = {'defined_only': True, '_': 0}
                T['fields'].append(F)
        S[names[i]] = T
    if any(F['el']['ty'] == 'google.protobuf.Empty' for t in S.values() for F in t['fields']):
        S['google.protobuf.Empty'] = dict(mode='none', fields=[], oneofs=[], file='', parent='')
    return S

class TooBig(Exception): pass
def rand_value(rng, S, ty, depth, nils, budget):
    """budget: [remaining product of map orders, remaining nodes]"""
    m = {'_': 0}; T = S[ty]
    budget[1] -= 1
    if budget[1] < 0: raise TooBig()
    if T['mode'] == 'legacy':
        if rng.random() < .5: m['bad'] = True
        return m
    chosen = {}
    for F in T['fields']:
        if F['oneof']: chosen.setdefault(F['oneof'], []).append(F['n'])
    chosen = {o: (rng.choice(ns) if rng.random() < .75 else None) for o, ns in chosen.items()}
    def val(e):
        if e['k'] == 'msg':
            return [rand_value(rng, S, e['ty'], depth - 1, False, budget)]
        if e['w']: return [rand_scalar(rng, e)]
        if e['k'] == 'any': return [rng.choice(['x/y', 'z', 'w', ''])]
        if e['k'] in ('duration', 'timestamp'): return [rng.choice(list(range(len(DUR))) * 2 + [-1])]
        return rand_scalar(rng, e)
    for F in T['fields']:
        e = F['el']
        if F['oneof']:
            if chosen[F['oneof']] != F['n']: continue
        elif rng.random() < .3: continue
        if e['k'] == 'msg' and depth <= 0:
            if F['oneof'] and F['card'] == 'one': continue
            if F['card'] == 'one': continue
        if F['card'] == 'one':
            m[F['n']] = [] if F['oneof'] and nils and msglike(e) and rng.random() < .3 else val(e)
        elif F['card'] == 'rep':
            n = rng.randint(0, 3) if not (e['k'] == 'msg' and depth <= 0) else 0
            if n: m[F['n']] = [([] if nils and msglike(e) and rng.random() < .15 else val(e)) for _ in range(n)]
        else:
            n = rng.randint(0, 3) if not (e['k'] == 'msg' and depth <= 0) else 0
            seen, ents = set(), []
            for _ in range(n):
                kx = rand_scalar(rng, F['key'])
                c = conc(F['key'], kx)
                if c in seen: continue
                seen.add(c)
                kt = '[' + ('true' if c is True else 'false' if c is False else str(c)) + ']'
                ents.append({'kt': kt, 'k': kx, 'v': [] if nils and msglike(e) and rng.random() < .15 else val(e)})
            if ents:
                m[F['n']] = ents
                for i in range(1, len(ents) + 1): budget[0] /= i
                if budget[0] < 1: raise TooBig()
    return m

# ---- size ---------------------------------------------------------------------
def field(n, e, card='one', oneof='', cr=None, key=None): return dict(n=n, card=card, oneof=oneof, el=e, cr=dict(cr or {}, _=0), key=key or el('int32'))
def typ(fields, oneofs=(), mode='on'): return dict(mode=mode, fields=fields, oneofs=list(oneofs), file='a', parent='')
def entry(c, k, v): return {'kt': '[%s]' % ('true' if c is True else 'false' if c is False else c), 'k': k, 'v': v}
def ident(e, i):
    """the i-th of many distinct spec values of an element kind"""
    k = e['k']
    if k == 'string': return cp('s%d' % i)
    if k == 'bytes': return [i & 255, 7, i >> 8]
    if k == 'bool': return bool(i & 1)
    if k == 'enum': return [1, 5][i & 1]
    return i + 1
LENGTHS = [9, 10, 11, 12, 15, 16, 17, 31, 33, 64, 65, 99, 100, 101, 127, 129, 130]
def big_lists(rng):
    """(schema, values): lists much longer than those of the exhaustive families"""
    k = rng.choice(['int32', 'sint64', 'uint64', 'fixed32', 'float', 'double', 'string', 'bytes', 'msg', 'int64', 'bool', 'enum'])
    n = rng.choice(LENGTHS); size = rng.random() < .4; uniq = k not in ('msg', 'bool', 'enum') and rng.random() < .6
    inner = {}
    if k == 'msg':
        e = el('msg', ty='T1'); S1 = typ([field('x', el('int32', r={'gt': 4}, zero=2))])
        ok, bad = [dict(_=0, x=9)], [dict(_=0, x=rng.choice([1, 3, 4]))]
    else:
        r = {'string': {'prefix': cp('s')}, 'bytes': {'min_len': 3}, 'bool': {'const': True}, 'enum': {'not_in': [5]}}.get(k, {'lt': 400})
        e = el(k, r=r if rng.random() < .7 else {}, zero=None if k in ('string', 'bytes', 'bool', 'enum') else NUMZ(k)); S1 = None
    if size: cr = rng.choice([{'min_items': n}, {'max_items': n}, {'min_items': n, 'max_items': n}])
    else: cr = {}
    if uniq: cr['unique'] = True
    S = {'T0': typ([field('before', el('int32', r={'lt': 5}, zero=2)), field('items', e, 'rep', cr=cr), field('after', el('int32', r={'lt': 5}, zero=2))])}
    if S1: S['T1'] = S1
    def one(i, wrong):
        if k == 'msg': return bad if wrong else ok
        if not wrong or k not in ('string', 'bytes', 'bool', 'enum'): return 400 + i if wrong else True if k == 'bool' else 1 if k == 'enum' else ident(e, i)
        return {'string': cp('x%d' % i), 'bytes': [i & 255], 'bool': False, 'enum': 5}[k]
    vals = []
    for wrong in ([], [n - 1], [9], [10], [n // 2], sorted(rng.sample(range(n), min(n, 12)))) + ((list(range(n)),) if n < 40 else ()):
        vals.append([one(i, i in wrong) for i in range(n)])
    for d in (n - 1, n + 1): vals.append([one(i, False) for i in range(d)])
    if uniq:
        for a, b in ((0, n - 1), (n - 2, n - 1), (0, 1), (n // 2, n // 2 + 1), (1, n - 2)):
            v = list(vals[0]); v[b] = v[a]; vals.append(v)
        v = list(vals[0]); v[n - 1] = v[0]; v[n - 2] = v[1]; v[n // 2] = v[2]; vals.append(v)
    return S, [dict(_=0, items=v, **rng.choice([{}, {}, {'before': 8}, {'after': 8}])) for v in vals]
def big_maps(rng):
    kk = rng.choice(['int32', 'string', 'uint64', 'sint32']); n = rng.choice([9, 10, 11, 16, 17, 33, 64, 65, 100])
    vk = rng.choice(['int32', 'string', 'msg', 'double'])
    key = el(kk, r={'string': {'min_len': 2}}.get(kk, {'lt': 300}), zero=None if kk == 'string' else NUMZ(kk))
    e = el('msg', ty='T1') if vk == 'msg' else el(vk, r={'string': {'prefix': cp('s')}}.get(vk, {'lt': 400}), zero=None if vk == 'string' else NUMZ(vk))
    cr = rng.choice([{}, {'min_pairs': n}, {'max_pairs': n}, {'min_pairs': n, 'max_pairs': n}])
    S = {'T0': typ([field('pairs', e, 'map', cr=cr, key=key), field('after', el('int32', r={'lt': 5}, zero=2))]), 'T1': typ([field('x', el('int32', r={'gt': 4}, zero=2))])}
    if vk != 'msg': del S['T1']
    def mk(m, wk, wv):
        out = []
        for i in range(m):
            kx = (cp('s%d' % i) if i not in wk else cp(chr(65 + i % 26))) if kk == 'string' else (i + 1 if i not in wk else 300 + i)
            vx = {'msg': [dict(_=0, x=1 if i in wv else 9)], 'string': cp('x' if i in wv else 's')}.get(vk, 400 + i if i in wv else i)
            out.append(entry(conc(key, kx), kx, vx))
        return out
    vals = [mk(n, [], []), mk(n, [n - 1], []), mk(n, [], [n - 1]), mk(n, [], [n // 2]), mk(n, [0], [0]), mk(n, [2], [n - 2, 5]), mk(n - 1, [], []), mk(n + 1, [], [])]
    return S, [dict(_=0, pairs=v, **rng.choice([{}, {}, {'after': 8}])) for v in vals]
def big_sets(rng, kinds=None):
    """in and not_in lists of many members"""
    k = rng.choice(kinds or ['int32', 'sint64', 'uint64', 'fixed32', 'float', 'double', 'string', 'bytes', 'any', 'uint32']); n = rng.choice([8, 9, 16, 17, 33, 64, 70, 130])
    where = rng.choice(['one', 'one', 'rep', 'map']) if k != 'any' else 'one'
    e = el(k, w=k in WRAPPER and where == 'one' and rng.random() < .3, zero=None if k in ('string', 'bytes', 'any') else NUMZ(k))
    member = (lambda i: 'x/t%d' % i) if k == 'any' else (lambda i: ident(e, 3 * i))
    ms = [member(i) for i in range(n)]; rng.shuffle(ms)
    e['r'] = {rng.choice(['in', 'not_in']): ms, '_': 0}
    S = {'T0': typ([field('f', e, where)])}
    probes = [ms[0], ms[1], ms[-1], ms[n // 2], ms[-2], ms[7]] + ['x/t%d' % n, 'x', 'x/t'] if k == 'any' else \
             [ms[0], ms[1], ms[-1], ms[n // 2], ms[-2], ms[7]] + [ident(e, 1), ident(e, 3 * n), ident(e, 3 * n // 2 * 3 + 2)]
    shape = lambda v: [v] if e['w'] or k == 'any' else v
    if where == 'rep': vals = [probes[:6], probes, [probes[0], probes[7]]]
    elif where == 'map': vals = [[entry('1', 1 + NUMZ('int32'), v)] for v in probes]
    else: vals = [shape(v) for v in probes]
    if where == 'map': S['T0']['fields'][0]['key'] = el('int32', zero=2)
    return S, [dict(_=0, f=v) for v in vals]
def deep(rng):
    """a recursive type, nested to the given depths"""
    how = rng.choice(['one', 'rep', 'map', 'oneof'])
    F = field('next', el('msg', ty='T0'), 'one' if how == 'oneof' else how, oneof='way' if how == 'oneof' else '', key=el('string'))
    S = {'T0': typ([field('x', el('int32', r={'gt': 4}, zero=2)), F] + ([field('leaf', el('bool'), oneof='way')] if how == 'oneof' else []), [dict(n='way', required=False)] if how == 'oneof' else [])}
    def nest(d, bad):
        m = dict(_=0, x=1 if bad in (0, 'all') else 9)
        if d:
            v = nest(d - 1, bad - 1 if isinstance(bad, int) else bad)
            m['next'] = [[v]] if how == 'rep' else [entry('k', cp('k'), [v])] if how == 'map' else [v]
        return m
    vals = []
    for d in (3, 5, 9) if how == 'map' else (5, 9, 16, 33, 70): vals += [nest(d, None), nest(d, d), nest(d, d // 2)] + ([nest(d, 'all')] if d < 12 else [])
    return S, vals
def wide(rng):
    """many fields and oneofs"""
    nf, no = rng.choice([12, 33, 70]), rng.choice([4, 11])
    fs, os_ = [], []
    for i in range(nf):
        k = rng.choice(['int32', 'string', 'double', 'bool', 'msg', 'fixed64'])
        r = {'string': {'max_len': 2}, 'bool': {'const': False}}.get(k, {'lt': 5})
        fs.append(field('f%d' % (i + 1), el('msg', ty='T1') if k == 'msg' else el(k, r=r, zero=None if k in ('string', 'bool') else NUMZ(k))))
    for o in range(no):
        os_.append(dict(n='o%d' % o, required=rng.random() < .7))
        for j in range(rng.choice([1, 3, 12])): fs.append(field('o%d_m%d' % (o, j), el('int32', r={'lt': 5}, zero=2), oneof='o%d' % o))
    S = {'T0': typ(fs, os_), 'T1': typ([field('x', el('int32', r={'gt': 4}, zero=2)), field('y', el('int32', r={'gt': 4}, zero=2))])}
    def mk(bad, unset):
        m = dict(_=0)
        def put(F, wrong):
            k = F['el']['k']
            m[F['n']] = {'string': cp('xyz' if wrong else 'x'), 'bool': wrong, 'msg': [dict(_=0, x=1 if wrong else 9, y=9)]}.get(k, 9 if wrong else 3)
        for F in fs[:nf]: put(F, F['n'] in bad)
        for o in os_:
            if o['n'] in unset: continue
            F = rng.choice([F for F in fs if F['oneof'] == o['n']]); put(F, F['n'] in bad or o['n'] in bad)
        return m
    names = [F['n'] for F in fs[:nf]]; on = [o['n'] for o in os_]
    return S, [mk([], []), mk([names[-1]], []), mk([on[-1]], []), mk([], [on[-1]]), mk(names[-1:], on[-1:]), mk(rng.sample(names, 9), rng.sample(on, 2)), mk(names + on, []), mk(names, on)]
BIG = dict(lists=big_lists, maps=big_maps, sets=big_sets, deep=deep, wide=wide)
def add_big(run, b, counts, cc=1.0, go=True, java=False, **kw):
    for what, n in counts.items():
        for _ in range(n):
            S, vals = BIG[what](run.rng, **kw); x = run.rng.random() < cc
            for m in vals: b.add(S, 'T0', m, go=go, cc=x, meta='big ' + what, java=java); run.count('big_cases')
