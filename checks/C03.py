"""C03: well-known string formats and patterns."""
import sys, os, re
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'harness'))
from texts import *
from msgcheck import *

def words(alpha, n): return [''.join(w) for k in range(n + 1) for w in itertools.product(alpha, repeat=k)]
def uniq(vs):
    seen = {}
    for v in vs: seen.setdefault(v)
    return list(seen)
def spoil(rng, v, chars, n):
    """n single-character edits of v"""
    out = []
    for _ in range(n):
        i = rng.randrange(len(v) + 1); c = rng.choice(chars)
        out.append(rng.choice([v[:i] + c + v[i:], v[:i] + c + v[i + 1:], v[:i] + v[i + 1:], v + c, c + v]))
    return out
ODD = ['\0', '\n', ' ', '\t', 'é', '\u212a', '\u0130', '\u3002', '\uff0e', '\u0661', '_', '*', '/', '@', '%', '[', ']', ':', '.', '-', 'g', '0', 'Z', '\x7f', '\U0001F600']

def hosts(rng, t):
    l63, l64 = 'a' * 63, 'b' * 64
    v = words('aA1-.', 4 if not t else 5)
    v += [l63, l64, l63 + '.', l64 + '.', 'a.' + l63, 'a.' + l64, l63 + '.a', l64 + '.a', l63 + '-', '-' + l63, 'a' * 62 + '-', 'é' * 31 + 'a', 'é' * 32]
    for total in (252, 253, 254, 255, 256):
        for tail in ('', '.'):
            s = ''
            while len(s) + 64 <= total - len(tail): s += 'c' * 63 + '.'
            rest = total - len(tail) - len(s)
            v.append(((s + 'd' * rest) if rest else s[:-1]) + tail)
            v.append('.'.join(['x'] * (total // 2)) + ('y' if total % 2 else '') + tail)
    for base in ('a.b', 'example.com', 'A-1.x.', l63 + '.b', 'xn--a.b'): v += spoil(rng, base, ODD, 60 if t else 25)
    return v
OCT = ['0', '00', '000', '1', '01', '001', '9', '10', '99', '099', '100', '199', '200', '249', '250', '254', '255', '256', '260', '300', '999', '1000', '0255', '', 'a', '0x1', '-1', '+1', ' 1', '1 ', '\u0661', '1e1', '%']
def ip4s(rng, t):
    v = ['.'.join(o) for o in itertools.product(['0', '255', '256', '01'], repeat=4)]
    for o in OCT:
        for i in range(4):
            q = [rng.choice(['1', '0', '255', '10']) for _ in range(4)]; q[i] = o; v.append('.'.join(q))
    for n in (1, 2, 3, 5, 6): v.append('.'.join(['1'] * n))
    v += spoil(rng, '1.2.3.4', ODD, 120 if t else 50) + spoil(rng, '255.255.255.255', ODD, 120 if t else 50)
    v += ['1.2.3.4.', '.1.2.3.4', '1..2.3', '1.2.3.4/8', '0x1.2.3.4', '1.2.3.4%a', '1.2.3.4:80', '16909060', '1.2.772', '1,2,3,4']
    return v
def ip6s(rng, t):
    v = words(':1f', 6 if not t else 7)
    grp = lambda: rng.choice(['0', '1', 'f', 'F', 'ab', 'ABC', '0000', '00ab', 'ffff', 'FFFF', '12', '9'])
    bad = ['', '00000', '12345', 'g', 'G', '1.2', '-1', ' 1', 'ffff0', '@', '`', '/', '\u0661']
    for _ in range(4000 if t else 1000):
        n = rng.choice([0, 1, 2, 5, 6, 6, 7, 7, 8, 8, 8, 9]); g = [grp() for _ in range(n)]
        if rng.random() < .25 and g: g[rng.randrange(len(g))] = rng.choice(bad)
        if rng.random() < .3: g.append(rng.choice(['1.2.3.4', '0.0.0.0', '255.255.255.255', '1.2.3', '1.2.3.256', '01.2.3.4', '1.2.3.4.5']))
        s = ':'.join(g)
        if rng.random() < .55:
            cut = rng.randint(0, len(g)); s = ':'.join(g[:cut]) + '::' + ':'.join(g[cut:])
        v.append(s)
    for p in ('::ffff:', '::FFFF:', '0:0:0:0:0:ffff:', '::0:ffff:', '0::ffff:', '::ffff:0:', '::fffe:', '::', '1::ffff:', '::1:ffff:'):
        for q in ('1.2.3.4', '102:304', '0:0', '0', 'ffff:ffff', '1.2.3', '1.2.3.4.5', '00001:1'): v.append(p + q)
    for b in ('::1', '1:2:3:4:5:6:7:8', '::ffff:1.2.3.4', 'fe80::1', '1::'):
        v += spoil(rng, b, ODD, 80 if t else 30) + ['[' + b + ']', b + '%eth0', b + '%', b + '/64', b + ':', ':' + b, b + '\0', b + '\0x', b + '\n', '0x' + b]
    return v
def uuids(rng, t):
    g = '01234567-89ab-cdef-ABCD-Ef0123456789'
    v = [g, g.lower(), g.upper(), '0' * 8 + '-0000-0000-0000-' + '0' * 12, '{' + g + '}', 'urn:uuid:' + g, g.replace('-', ''), g + '\n', '\n' + g, g + '\0', g + g, g[:-1], g + '0', g[1:], 'a' * 36, '-' * 36]
    for i in range(37):
        for c in (['-', 'g', 'G', '/', ':', '@', '`', '0', 'F', 'a', 'é', '\n', '\u0661'] if t else rng.sample(['-', 'g', 'G', '/', ':', '@', '`', '0', 'f', 'é', '\n'], 5)):
            v.append(g[:i] + c + g[i + 1:])
        v.append(g[:i] + g[i + 1:]); v.append(g[:i] + '-' + g[i:]); v.append(g[:i] + '0' + g[i:])
    for i in (8, 13, 18, 23): # a hyphen moved by one
        v += [g[:i] + g[i + 1] + '-' + g[i + 2:], g[:i - 1] + '-' + g[i - 1] + g[i + 1:]]
    return v
EMAIL_ODD = ['\u20ac', 'é', '!', '#', '$', '%', '&', "'", '*', '+', '/', '=', '?', '^', '_', '`', '{', '|', '}', '~', '.', '-', '@', 'Z', '0', '\\', ';', ',']
def emails(rng, t):
    v = words('a.@-', 5 if not t else 6)
    d = 'b.c'
    for n in (63, 64, 65, 66): v += ['a' * n + '@' + d, 'é' * (n // 2) + 'a' * (n % 2) + '@' + d, ('a' * 31 + '.' + 'b' * (n - 32)) + '@' + d]
    for total in (253, 254, 255, 256):
        for l in (1, 10, 64):
            rest = total - l - 1; dom = ''
            while rest - len(dom) > 64: dom += 'd' * 63 + '.'
            dom += 'e' * (rest - len(dom))
            v.append('a' * l + '@' + dom)
    for n in (63, 64): v += ['a@' + 'b' * n, 'a@' + 'b' * n + '.c', 'a@c.' + 'b' * n]
    for b in ('a@b', 'first.last+tag@example.com', 'x_y@a-b.c1', "o'neil@h.i"): v += spoil(rng, b, EMAIL_ODD, 150 if t else 60)
    v += ['a@b.', 'a@.b', 'a@b..c', 'a@1.2.3.4', 'a@' + '\u0430.c', 'a@b_c', 'a@b@c', '@', 'a@', '@b']
    return v
def uris(rng, t):
    v = words('a:/?#%1', 5) if t else words('a:/?#%1', 4)
    schemes = ['', '', 'http:', 'a:', 'A1+-.:', '1a:', '-a:', '+:', ':', 'a b:', 'a\x7f:', 'urn:']
    auth = ['', '', '//', '//h', '//h:', '//h:80', '//h:8a', '//a-b.c:1', '//h%41', '//:', '//:1', '///', '//a.b:99999']
    path = ['', '/', '/a', 'a', 'a:b', '/a:b', 'a/b:c', './a:b', '/%41', '/%4', '/%', '/%zz', '/%4G', '//', '/a//b', 'a%20b', '/a\x01', '/\x7f', '/a\n', '1', '/%00']
    query = ['', '', '?', '?q', '?a=b', '?%', '?%zz', '?a?b', '?/:', '?a:b', '?\x01']
    frag = ['', '', '#', '#f', '#%41', '#%', '#%4', '#a#b', '#/?', '#\n', '#:']
    query = [q.replace('=', '.') for q in query]
    for _ in range(12000 if t else 2500): v.append(rng.choice(schemes) + rng.choice(auth) + rng.choice(path) + rng.choice(query) + rng.choice(frag))
    return v
def headers(rng, t):
    chars = [chr(c) for c in range(256)] + ['\u0100', '\u2028', '\u20ac', '\ufeff', '\ufffd', '\U0001F600', '\u0661']
    v = []
    for c in chars: v += [c, 'a' + c + 'b', c + 'a', 'a' + c, ':' + c, ':a' + c]
    v += ['', ':', '::', ':a', 'a:', ':a:', 'a' * 300, ' ', 'a b', '\t', 'a\r\nb', '\r', '\n', 'a\n', '\na', 'a\0', 'A-z0', 'a\u0301']
    return v
def raws(rng, t):
    v = [bytes(range(1, n + 1)) for n in range(21)] + [b'\0' * n for n in range(21)] + [b'\xff' * n for n in (4, 16)]
    m = bytearray(10) + b'\xff\xff\x01\x02\x03\x04'
    v.append(bytes(m))
    for i in range(16):
        for d in (1, 0xff, 0xfe):
            w = bytearray(m); w[i] ^= d; v.append(bytes(w))
    v += [bytes(m[:15]), bytes(m) + b'\0', b'\0' * 12 + b'\1\2\3\4', b'1.2.3.4', b'::1', b'\0\0\0\0']
    return v
ALPHAS = ['ab', 'ab', 'ab', 'ab', 'a"', 'a\\', '\u00e9\n', '%/', '`$', 'a\x00', '\U0001F600.', '-]', '^a', '0\x7f', 'aA']
def patterns(rng, t):
    out = []
    for _ in range(2500 if t else 350):
        al = rng.choice(ALPHAS)
        vs = words(al, 4) + [''.join(rng.choice(al + 'xé') for _ in range(rng.randint(1, 7))) for _ in range(10)]
        r = {'pattern': rand_re(rng, rng.choice([2, 3, 3, 4]), al)}
        if rng.random() < .15: r['ignore_empty'] = True
        bytes_ok = all(ord(c) < 128 for c in al)
        if bytes_ok and rng.random() < .2: out.append(('bytes', r, [v.replace('é', 'y').encode() for v in vs]))
        else: out.append(('string', r, vs))
    return out

URICHARS = set('abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789+-.:/?#% \n\t\r\x01\x7f\0')
def in_uri_domain(v):
    """the values on which Go's net/url and the specification are compared: Go does not look for control characters in
    fragments and has its own view of percent signs and several colons in an authority"""
    body, _, frag = v.partition('#')
    auth = re.search(r'//([^/?]*)', body)
    return not set(v) - URICHARS and not set(frag) & set('\n\t\r\x01\x7f\0') and not (auth and (auth.group(1).count(':') > 1 or '%' in auth.group(1)))

def body(run):
    t, rng = run.thorough, run.rng
    H, I4, I6, U, E, R, W = (uniq(f(rng, t)) for f in (hosts, ip4s, ip6s, uuids, emails, uris, headers))
    cut = lambda v, n: v if t else rng.sample(v, min(n, len(v)))
    items = []
    def add(kind, r, vals, per=400):
        vals = uniq(vals)
        for k in range(0, len(vals), per):
            rr = dict(r)
            if rng.random() < .25: rr['ignore_empty'] = True
            items.append((kind, rr, vals[k:k + per] + ([''] if kind == 'string' else [b''])))
    add('string', {'hostname': True}, H + cut(I4, 60) + cut(U, 20) + cut(I6, 60))
    add('string', {'address': True}, cut(H, 500) + cut(I4, 250) + cut(I6, 900))
    add('string', {'ip': True}, I4 + cut(I6, 900) + cut(H, 80))
    add('string', {'ipv4': True}, I4 + [v for v in I6 if 'ffff' in v.lower() or '.' in v] + cut(I6, 200))
    add('string', {'ipv6': True}, cut(I4, 100) + I6)
    add('string', {'uuid': True}, U + cut(H, 40))
    add('string', {'email': True}, E + [v for v in H if set(v) <= set('aA1-.')][:100])
    plain = in_uri_domain
    add('string', {'uri': True}, [v for v in cut(R, 2600) if plain(v)])
    add('string', {'uri_ref': True}, [v for v in cut(R, 2600) + cut(H, 50) if plain(v)])
    for name in ('HTTP_HEADER_NAME', 'HTTP_HEADER_VALUE'):
        for strict in ({}, {'strict': True}, {'strict': False}): add('string', dict(well_known_regex=name, **strict), W if t or not strict else cut(W, 500))
    B = uniq(raws(rng, t))
    for k in ('ip', 'ipv4', 'ipv6'): add('bytes', {k: True}, B)
    # a format set to false is no rule
    for k in ('ip', 'hostname', 'uuid'): add('string', {k: False}, ['x y', '1.2.3.4'])
    items += patterns(rng, t)
    run.count('format_values', sum(len(v) for _, _, v in items))
    run.log('%d fields, %d values' % (len(items), run.cov['format_values']))
    go, cc = [], []
    for (kind, r, vals), (g, c) in zip(items, oracle(run, items)):
        w = rng.random() < .15
        go.append(make_case(kind, r, vals, g, c, w))
        if cc_able(kind, r): cc.append(make_case(kind, r, vals, g, c, w))
        n = sum(1 for x in g if not x); key = next(iter(r)) + ('' if kind == 'string' else '/bytes')
        run.count('accepted_' + key, n); run.count('rejected_' + key, len(g) - n)
    for c in go[::max(1, len(go) // 4)][:4]: run.sample({'field': (c.typ, text(c.rules)), 'values': [(repr(v[2]), v[1]) for v in c.vals[:10]]})
    go.sort(key=lambda c: len(c.vals)); cc.sort(key=lambda c: len(c.vals))
    b = Batch(run, 'f'); b.family('formats', cc=1 if t else .25)
    run_go(run, go, per_msg=20, per_file=6)
    run_cc(run, cc, per_msg=20, per_file=max(1, len(cc) // (20 * 2 * NCPU)))
    run_all(run, b)
    run.cov['rule'] = 'every short string over the relevant alphabet of each format, boundary lengths, and grammar-directed mutations; random regular expressions on all short strings; every format in every position (TLC family "formats"); all judged by the TLA+ grammars of PGVText'

if __name__ == '__main__': main('C03', 'model_checking', body)
