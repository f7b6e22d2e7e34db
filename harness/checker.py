"""C08: rule sets with the verdict the specification gives them -> proto files -> the plugin's verdict."""
import os, shutil, threading
from common import *
from protoir import *

# numeric rank -> concrete number: pairs of neighbours and extremes per kind
def num_table(rng, k):
    if k == 'float': c = [(0.0, 1.4e-45), (0.5, 1.5), (-3.4028234663852886e38, 3.4028234663852886e38), (-1.5, -0.25), (16777214.0, 16777215.0)]
    elif k == 'double': c = [(0.0, 5e-324), (0.1, 0.2), (-1.7976931348623157e308, 1.7976931348623157e308), (9007199254740991.0, 9007199254740992.0), (-2.5, -2.25)]
    else:
        bits = 64 if k.endswith('64') else 32
        lo, hi = (0, 2**bits - 1) if k.startswith(('u', 'f')) else (-2**(bits-1), 2**(bits-1) - 1)
        c = [(lo, hi), (lo, lo + 1), (hi - 1, hi), (0, 1), (41, 42), (lo, 0) if lo else (0, hi)]
    a, b = rng.choice(c)
    return {1: a, 2: b} if rng.random() < .5 else {1: b, 2: a}
DURS = [((1, 0), (2, 0)), ((0, 1), (0, 2)), ((-1, -5), (1, 0)), ((315576000000, 0), (315575999999, 999999999)), ((0, 0), (0, 1)), ((9223372036, 854775807), (9223372036, 854775808)),
        ((18446744073, 709551616), (0, 0))]
BAD_DUR = [(315576000001, 0), (1, -1), (-1, 1), (0, 1000000000), (-315576000001, 0)]
TSS = [((1, 0), (2, 0)), ((0, 1), (0, 2)), ((-62135596800, 0), (253402300799, 999999999)), ((-1, 0), (-1, 1)), ((0, 0), (1, 0)), ((18446744073, 709551616), (0, 0))]
BAD_TS = [(-62135596801, 0), (253402300800, 0), (0, -1), (0, 1000000000)]
WITHIN0 = [(0, 0), (-1, 0), (0, -1), (-315576000000, 0)]
WITHIN1 = [(1, 0), (0, 1), (315576000000, 0)]
GOODRE = ['a', '^a+$', '\\d{2,3}', '[[:alpha:]]', '(?i)x', 'a|b', '', '\\x{10FFFF}', '(?P<n>a)', '\\p{Greek}']
BADRE = ['(', '[', 'a{2,1}', '*a', '\\8', '(?<=a)b', 'a**', '[b-a]', ')', '(?z)', '\\', 'x{1001}', '\\p{Nope}']
inst = lambda p: dict(seconds=p[0], nanos=p[1])

class Render:
    """concrete rules for one abstract rule set"""
    def __init__(self, rng): self.rng = rng
    def rules(self, F, R):
        out = {}
        if R['t'] != 'none': out[R['t']] = self.rec(R['t'], F, R['r'])
        if R.get('m'): out['message'] = {k: v for k, v in R['m'][0].items() if k != '_'}
        return out
    def rec(self, t, F, r):
        rng, out = self.rng, {}
        if t in NUMERIC: tab = num_table(rng, t); f = lambda n, v: [tab[x] for x in v] if isinstance(v, list) else v if isinstance(v, bool) else tab[v]
        elif t in ('duration', 'timestamp'):
            a, b = rng.choice(DURS if t == 'duration' else TSS)
            if rng.random() < .5: a, b = b, a
            def f(n, v):
                if isinstance(v, bool): return v
                if isinstance(v, list): return [f(n, x) for x in v]
                if v < 0: return inst(rng.choice(BAD_DUR if t == 'duration' or n == 'within' else BAD_TS))
                if n == 'within': return inst(rng.choice(WITHIN1 if v else WITHIN0))
                return inst(a if v == 1 else b)
        elif t in ('string', 'bytes'):
            lit = (lambda x: ''.join(map(chr, x))) if t == 'string' else bytes
            def f(n, v):
                if n == 'pattern': return rng.choice(GOODRE if v == 'ok' else BADRE)
                if n == 'well_known_regex': return Raw(v)
                if isinstance(v, list): return [lit(x) for x in v] if n in ('in', 'not_in') else lit(v)
                return v
        elif t in ('repeated', 'map'):
            def f(n, v):
                if n in ('items', 'keys', 'values'):
                    E = dict(F, k=F['kk'] if n == 'keys' else F['k'], w=F['w'] and n != 'keys', card='one')
                    return self.rules(E, v)
                return v
        else: f = lambda n, v: v
        for n, v in r.items():
            if n != '_': out[n] = f(n, v)
        return out

WKT = {'any': 'google.protobuf.Any', 'duration': 'google.protobuf.Duration', 'timestamp': 'google.protobuf.Timestamp'}
def field(F, rules, pkg, oneof=None):
    if F['w']: t, ref = 'msg', 'google.protobuf.' + WRAPPER[F['k']]
    elif F['k'] in WKT: t, ref = 'msg', WKT[F['k']]
    elif F['k'] == 'msg': t, ref = 'msg', pkg + '.Other'
    elif F['k'] == 'enum': t, ref = 'enum', pkg + '.E'
    else: t, ref = F['k'], None
    return Field('value', 1, t, {'one': '', 'rep': 'repeated', 'map': 'map'}[F['card']], F['kk'] or None, ref, rules, oneof if F['card'] == 'one' else None)

ENUM = Enum('E', [('E0', 0), ('E1', 1), ('E5', 5)])
def other(): return Message('Other', [Field('x', 1, 'int32')])
def chain(modes, fld, name='M', i=0):
    m = Message(name + str(i), disabled=True if modes[0] == 'disabled' else None, ignored=True if modes[0] == 'ignored' else None)
    if len(modes) == 1: m.fields = [fld]; m.oneofs = {fld.oneof: None} if fld.oneof else {}
    else: m.msgs = [chain(modes[1:], fld, 'N', i + 1)]
    return m

class Plugin:
    """runs protoc with the plugin over sets of files"""
    def __init__(self, run):
        self.run = run; run.build_plugin(); self.n = 0; self.lock = threading.Lock()
        self.dir = run.p('check'); os.makedirs(self.dir, exist_ok=True)
    def __call__(self, files, targets, param):
        """-> (accepted, files written, stderr)"""
        with self.lock: self.n += 1; d = '%s/%d' % (self.dir, self.n)
        os.makedirs(d + '/p'); os.makedirs(d + '/o')
        for f in files:
            with open(d + '/p/' + f.path, 'w') as h: h.write(f.source())
        r = self.run.run(['protoc', '-I', d + '/p', '-I', REPO, '--plugin=protoc-gen-validate=' + self.run.plugin,
                          '--validate_out=%s:%s/o' % (param, d)] + [f.path for f in targets], check=False)
        out = sum(len(fs) for _, _, fs in os.walk(d + '/o'))
        shutil.rmtree(d, ignore_errors=True)
        return r.returncode == 0, out, r.stderr
