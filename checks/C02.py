"""C02: string and bytes content rules."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'harness'))
from texts import *

SPECIAL = ['"', "\\", '\0', '\n', '\r', '\t', '%', '%d', '?', '??/', '\'', '`', '$', '{{', '}}', '/*', '//', '\x7f', '\x01', '0', '9', 'f', 'A', ' ', 'é', '\u20ac', '\U0001F600', '\ufffd', '\ufeff', '\u202e', '\u0301', '\u2028']
def lits(rng, kind):
    n = rng.choice([1, 1, 2, 2, 3, 5] * 4 + [17, 70])
    if kind == 'string': return ''.join(rng.choice(SPECIAL) for _ in range(n))
    return b''.join(rng.choice([bytes([rng.randrange(256)]), rng.choice(SPECIAL).encode()]) for _ in range(n))
def rand_rules(rng, kind):
    z = '' if kind == 'string' else b''
    L = [lits(rng, kind) for _ in range(3)]
    r = {}
    o = rng.choice(['const', 'in', 'not_in', 'affix', 'affix', 'affix', 'len', 'affixlen'])
    if o == 'const': r['const'] = L[0]
    if o in ('in', 'not_in'):
        r[o] = rng.sample(L + [z], rng.randint(1, 4))
        if rng.random() < .15:                                         # many members
            n = rng.choice([9, 17, 33, 70]); num = (lambda i: '%d' % i) if kind == 'string' else (lambda i: b'%d' % i)
            r[o] += [x for x in dict.fromkeys(rng.choice(L)[:3] + num(i) for i in range(n)) if x not in r[o]]
    if o in ('affix', 'affixlen'):
        for k in rng.sample(['prefix', 'suffix', 'contains'] + (['not_contains'] if kind == 'string' else []), rng.randint(1, 3)): r[k] = rng.choice(L)
    size = max([len(v) for k, v in r.items() if k in ('prefix', 'suffix', 'contains')] or [0])
    bsize = max([len(v.encode()) if kind == 'string' else len(v) for k, v in r.items() if k in ('prefix', 'suffix', 'contains')] or [0])
    if o in ('len', 'affixlen'):
        n = size + rng.choice([0, 1, 2, 3]) if o == 'affixlen' else rng.choice([0, 1, 5, 63, 64, 127, 128, 255, 256, 1000])
        m = n + rng.choice([0, 1, 2])
        k = rng.choice(['len', 'min_len', 'max_len', 'both', 'bytes']) if kind == 'string' else rng.choice(['len', 'min_len', 'max_len', 'both'])
        if k == 'both': r.update(min_len=n, max_len=m)
        elif k == 'bytes':
            n = max(n, bsize); m = n + 1
            r.update(rng.choice([{'len_bytes': n}, {'min_bytes': n}, {'max_bytes': n}, {'min_bytes': n, 'max_bytes': m}, {'min_bytes': n, 'max_bytes': n}]))
        else: r[k] = n
    if rng.random() < .3: r['ignore_empty'] = True
    return {k: ([spec(x) for x in v] if isinstance(v, list) else v if isinstance(v, (bool, int)) else spec(v)) for k, v in r.items()}
def values(rng, kind, r):
    """values around the literals and limits of the rules"""
    L = [conc(kind, x) for k, v in r.items() if k not in LENKEYS and not isinstance(v, bool) for x in (v if k in ('in', 'not_in') else [v])]
    if len(L) > 8: L = [L[0], L[1], L[-1], L[-2]] + rng.sample(L, 3)
    z = '' if kind == 'string' else b''
    other = (lambda: rng.choice(['a', 'é', '\u20ac', '\U0001F600', 'b'])) if kind == 'string' else (lambda: bytes([rng.choice([0, 97, 255, 128])]))
    out = [z, other()]
    for l in L:
        out += [l, l + other(), other() + l, other() + l + other(), l[:-1], l[1:], l + l]
        if l: out.append(l[:-1] + other())
        if kind == 'string': out += [l.upper(), l.lower(), l.swapcase()]
        for m in rng.sample(L, 1): out += [l + m, m + l, l + other() + m]
    for k, n in r.items():
        if k not in LENKEYS: continue
        for d in (-1, 0, 1):
            if n + d < 0: continue
            if k.endswith('bytes') and kind == 'string':
                for c, w in (('a', 1), ('é', 2), ('\u20ac', 3), ('\U0001F600', 4)):
                    out.append(c * ((n + d) // w) + 'a' * ((n + d) % w))
            else:
                for c in (('a', 'é', '\u20ac', '\U0001F600') if kind == 'string' else (b'a', b'\xff', b'\0')):
                    out.append(c * (n + d)); 
                    for l in L: out.append(l + c * max(0, n + d - len(l)))
    seen = []
    for v in out:
        if v not in seen and len(v) < 1100: seen.append(v)
    return seen[:90]

def body(run):
    t, rng = run.thorough, run.rng
    go, cc = [], []
    for kind in ('string', 'bytes'):
        lines, st = run.tlc('MC_Str', 'MC_Str_%s%s' % (kind, '_rich' if t else ''))
        run.count('rule_sets', len(lines))
        pool = lines if t else rng.sample(lines, min(len(lines), 900))
        for l in pool:
            vals = [conc(kind, v[0]) for v in l['viol']]
            w = rng.random() < .2
            c = lambda: make_case(kind, l['cfg'], vals, [v[1] for v in l['viol']], [v[1] for v in l['viol']], w)
            go.append(c())
            if rng.random() < (.35 if t else .18): cc.append(c())
    items = []
    for _ in range(3000 if t else 500):
        kind = rng.choice(['string', 'string', 'bytes'])
        r = rand_rules(rng, kind)
        items.append((kind, r, values(rng, kind, r)))
    run.log('specification: %d rule sets enumerated, %d random ones' % (run.cov['rule_sets'], len(items)))
    for (kind, r, vals), (g, c) in zip(items, oracle(run, items)):
        w = rng.random() < .2
        go.append(make_case(kind, r, vals, g, c, w))
        if rng.random() < (.5 if t else .35): cc.append(make_case(kind, r, vals, g, c, w))
    rng.shuffle(go); rng.shuffle(cc)
    for c in go[:3]: run.sample({'field': (c.typ, text(c.rules)), 'values': [(str(v[2]), v[1]) for v in c.vals[:12]]})
    go.sort(key=lambda c: len(c.vals))
    run_go(run, go, per_msg=30, per_file=8)
    run_cc(run, cc, per_msg=20, per_file=max(1, len(cc) // (20 * 3 * NCPU)))
    run.cov['traces_validated_against_impl'] = run.cov.get('go_calls', 0) + run.cov.get('cc_calls', 0)
    run.cov['rule'] = 'TLC enumerates every accepted combination of length and content rules over characters of one to four bytes (and over bytes) with every short value; random rule sets with awkward literals and long values are judged by the same specification'

if __name__ == '__main__': main('C02', 'model_checking', body)
