"""C16: Java runtime rule library."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'harness'))
from common import *
from javabuild import *
from numeric import *
from texts import oracle, conc
from regex import *
from C03 import hosts, ip4s, ip6s, uuids, emails, uris, patterns, in_uri_domain, uniq

B63 = 2**63
DURS = [['-5 0', '-1 -500000000', '0 0', '0 1', '3600 999999999'], ['-315576000000 0', '-1 0', '0 0', '1 0', '315576000000 0'], ['-1 -999999999', '0 -1', '0 0', '0 999999999', '1 0']]
TSS = [['-62135596800 0', '-1 999999999', '0 0', '0 1', '253402300799 999999999'], ['0 0', '0 1', '1600000000 0', '1600000000 1', '1600000001 0']]
STRS = [['', 'a', 'b', 'B', 'é'], ['x', 'xx', 'x ', ' x', 'X'], ['\U0001F600', '\uFFFD', '\u0000', 'e\u0301', '\u00e9']]
BYTS = [['', '00', '61', 'ff', '6100'], ['80', '7f', '8080', 'c3a9', '00000000']]
def tables(run, ordered):
    out = []
    for t, cls in (('int', 'i32'), ('long', 'i64'), ('float', 'f32'), ('double', 'f64')):
        for z in TABLES[cls]:
            for tab in TABLES[cls][z]: out.append((t, [x if t == 'int' else repr(x) for x in tab]))
    out += [('dur', d) for d in DURS] + [('ts', d) for d in TSS]
    if not ordered: out += [('string', s) for s in STRS] + [('bytes', b) for b in BYTS] + [('bool', [False, True, False, True, False])]
    return out
WITHIN = [('0 0', lambda k: (0, k)), ('1600000000 0', lambda k: (k, 0)), ('0 0', lambda k: (k * 31557600 * 90, 0)), ('0 0', lambda k: (k * 31557600 * 900, 0)), ('0 999999999', lambda k: (k, 0))]
def add(base, p):
    s, n = map(int, base.split()); s += p[0]; n += p[1]
    return '%d %d' % (s + n // 10**9, n % 10**9)

def requests(run, c, full):
    f, m, a = c['f'], c['m'], c['a']; rng = run.rng
    S = lambda x: ''.join(map(chr, x)); H = lambda x: bytes(x).hex()
    pick = lambda xs: xs if full else [rng.choice(xs)]
    if f in ('cmp', 'const', 'range', 'set'):
        for t, tab in pick(tables(run, f in ('cmp', 'range'))) if f == 'range' or f == 'set' else tables(run, f == 'cmp'):
            if t == 'bool' and (f != 'const' or a['v'] > 1 or a['l'] > 1): continue
            q = dict(c=f, m=m, t=t, v=tab[a['v']])
            if f in ('cmp', 'const'): q['l'] = tab[a['l']]
            if f == 'set': q['s'] = [tab[x] for x in a['s']]
            if f == 'range': q.update({k: None for k in ('lt', 'lte', 'gt', 'gte')}); q.update({k: tab[x] for k, x in a['r'].items()})
            yield q
    elif f == 'slen': yield dict(c='str', m=m, v=S(a['s']), n=a['n'])
    elif f == 'saff': yield dict(c='str', m=m, v=S(a['s']), p=S(a['p']))
    elif f == 'email': yield dict(c='str', m=m, v=S(a['s']))
    elif f == 'blen': yield dict(c='bytes', m=m, v=H(a['s']), n=a['n'])
    elif f == 'baff': yield dict(c='bytes', m=m, v=H(a['s']), p=H(a['p']))
    elif f == 'bip': yield dict(c='bytes', m=m, v=rng.randbytes(a['n']).hex()); yield dict(c='bytes', m=m, v='00' * a['n']); yield dict(c='bytes', m=m, v=('00' * 10 + 'ffff' + '01020304')[:2 * a['n']].ljust(2 * a['n'], '0'))
    elif f == 'list':
        for t, tab in pick([('int', [1, 1000, -1]), ('string', ['', 'a', 'A']), ('double', ['0.0', '1.0', 'NaN']), ('bytes', ['', '00', '0000']), ('long', ['1', '4294967297', '-1']), ('msg', ['', 'x', 'y'])]):
            q = dict(c='list', m=m, t=t, s=[tab[x] for x in a['s']])
            if 'n' in a: q['n'] = a['n']
            if 'bad' in a: q['bad'] = [tab[x] for x in a['bad']]
            yield q
    elif f == 'map': yield dict(c='map', m=m, **a)
    elif f == 'misc': yield dict(c='required' if m == 'required' else 'enum', m=m, **a)
    elif f == 'within':
        for base, u in WITHIN:
            d = u(abs(a['d'])); sg = -1 if a['d'] < 0 else 1
            yield dict(c='within', m=m, t='ts', v=add(base, u(a['v'])), w=add(base, u(a['w'])), d='%d %d' % (sg * d[0], sg * d[1]))

def java_uri(v):
    # java.net.URI wants something after the scheme and knows other authorities than host and port: left out, as are spaces, which both refuse
    body = v.partition('#')[0]
    # Go does not look at percent signs in queries and opaque parts
    if re.search(r'%(?![0-9A-Fa-f]{2})', body.partition('?')[2]) or re.match(r'[A-Za-z][A-Za-z0-9+.-]*:[^/]', body) and re.search(r'%(?![0-9A-Fa-f]{2})', body): return False
    return in_uri_domain(v) and JURI.fullmatch(v) is not None
import re
JURI = re.compile(r'(?:[A-Za-z][A-Za-z0-9+.-]*:(?=[^#?])|(?=[^:]*(?:/|$|[?#])))(?://[A-Za-z][A-Za-z0-9.]*(?::[0-9]+)?(?=[/?#]|$))?(?!//)(?:[^?#]*)(?:\?[^#]*)?(?:#[^#]*)?', re.S)
def text_items(run):
    rng, t = run.rng, run.thorough; out = []
    def put(kind, r, vals, n=10**9):
        vals = uniq(vals)
        out.append((kind, r, vals if len(vals) <= n else rng.sample(vals, n)))
    n = 10**6 if t else 500
    H, I4, I6, U, E = (uniq(f(rng, t)) for f in (hosts, ip4s, ip6s, uuids, emails))
    u16 = lambda vs: [v for v in vs if len(v) < 250 or v.isascii()]
    put('string', {'hostname': True}, u16(H) + I4[:40] + I6[:40], 2 * n)
    put('string', {'address': True}, u16(H)[::2] + I4[::2] + I6[::2] + ['\u4f8b.jp', 'a.\u4f8b', '\u00fc.b'], 2 * n)
    put('string', {'ip': True}, I4 + I6, 2 * n); put('string', {'ipv4': True}, I4 + I6[:200], n); put('string', {'ipv6': True}, I6 + I4[:100], 2 * n)
    put('string', {'uuid': True}, U, 3 * n)
    put('string', {'email': True}, [v for v in E if v.isascii() and len(v) < 250 and not set(v) & set('\\;,<>')], 2 * n)
    R = [v for v in uniq(uris(rng, t)) if java_uri(v)]
    put('string', {'uri': True}, R, 4 * n); put('string', {'uri_ref': True}, R, 4 * n)
    for kind, r, vals in patterns(rng, t):
        out.append((kind, {'pattern': r['pattern']}, [v for v in vals if kind == 'string' or True]))
    return out

def body(run):
    ws = JavaWS(run)
    cells, st = run.tlc('MC_JavaLib', 'MC_JavaLibDeep.cfg' if run.thorough else 'MC_JavaLib.cfg')
    run.log('specification: %d calls enumerated' % len(cells))
    reqs, exp = [], []
    for c in cells:
        for q in requests(run, c['call'], run.thorough): reqs.append(q); exp.append((c['out'], c['call']))
    # formats, judged by the grammars of the specification
    items = text_items(run)
    texts = oracle(run, items)
    for (kind, r, vals), (go, cc) in zip(items, texts):
        m = next(k for k in r if k != '_')
        for v, g, x in zip(vals, go, cc):
            q = dict(c='str' if kind == 'string' else 'bytes', m=m, v=v if kind == 'string' else v.hex())
            if m == 'pattern': q['p'] = re_text(r['pattern'])
            reqs.append(q); exp.append(('F' if x else 'T', dict(f=m, r=r)))
    for sec, nanos in [(0, 0), (1, 999999999), (-5, -7), (253402300799, 999999999), (-62135596800, 0), (2**31, 1), (-2**31 - 1, 0)]: reqs.append(dict(c='make', m='make', sec=sec, nanos=nanos)); exp.append(('T', dict(f='make')))
    run.log('%d calls of the real library' % len(reqs))
    for q, (want, cell), o in zip(reqs, exp, ws.ask('drv.LibDriver', reqs)):
        run.count('traces_validated_against_impl'); ok = o['r'] == want and 'bad' not in o
        if ok and q['m'] in ('forEach', 'validateParts'):
            s, b = cell['a']['s'], cell['a']['bad']
            ok = o.get('n') == next((i + 1 for i, x in enumerate(s) if x in b), len(s))
        if not ok: run.violation('library', call=q, expected=want, got=o)
    for q, (want, _) in list(zip(reqs, exp))[::max(1, len(reqs) // 6)][:6]: run.sample(dict(call=q, expected=want))
    run.cov['rule'] = 'every method of the Java runtime library on all argument combinations TLC enumerates over small domains, concretised in every argument type with extreme and adjacent values; formats on exhaustive small-alphabet and mutated texts judged by the TLA+ grammars'

if __name__ == '__main__': main('C16', 'model_checking', body)
