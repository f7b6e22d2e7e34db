"""Message-level cases: schemas and values in the specification's JSON form, their protobuf rendering, random
generation, and the comparison of real validator results with the outcomes the state machine (Validator.tla) produced."""
import json, re, zlib
from common import *
from protoir import *
from gobuild import GoWS
from ccbuild import CcWS, cc_field
from regex import re_text

# ranks of the ordered message kinds stand for these instants / lengths
DUR = [(-5, 0), (-1, -500000000), (0, 0), (0, 1), (1, 0), (90, 0), (3600, 999999999)]
TS = [(-86400, 0), (-1, 999999999), (0, 0), (0, 1), (1, 0), (1600000000, 0), (1600000000, 1)]
BAD = {'duration': (400000000000, 0), 'timestamp': (5, 1000000000)}
ENUMS = {'proto3': [('E0', 0), ('E1', 1), ('E5', 5)], 'proto2': [('E3', 3), ('E1', 1), ('E5', 5)]}

def el(k, w=False, ty='', r=None, req=False, skip=False, zero=None, defined=None):
    return dict(k=k, w=w, ty=ty, r=dict(r or {}, _=0), req=req, skip=skip,
                zero=zero if zero is not None else {'string': [], 'bytes': [], 'bool': False}.get(k, 0), defined=defined or [0, 1, 5])

# unique families: ranks stand for numbers that are easily confused
TAB = {'int32': [0, 1, -1, 2**31 - 1, -2**31], 'int64': [1, 2**32 + 1, -1, 2**63 - 1, -2**63], 'uint32': [0, 1, 2**31, 2**32 - 1, 2**16],
       'uint64': [1, 2**32 + 1, 2**63, 2**64 - 1, 2**53 + 1], 'float': [0.0, 2.0**-149, 16777216.0, 16777218.0, -16777216.0],
       'double': [0.0, 5e-324, 9007199254740992.0, 9007199254740994.0, 0.1]}
for a, b in (('sint32', 'int32'), ('sfixed32', 'int32'), ('sint64', 'int64'), ('sfixed64', 'int64'), ('fixed32', 'uint32'), ('fixed64', 'uint64')): TAB[a] = TAB[b]

NUMZ = lambda k: 0 if k.startswith('u') or k.startswith('fixed') else 2
def conc(e, x):
    """concrete proto value of a spec scalar"""
    k = e['k']
    if k == 'string': return ''.join(map(chr, x))
    if k == 'bytes': return bytes(x)
    if k in ('bool', 'enum'): return x
    if e.get('tab'): return TAB[k][x]
    if k in ('float', 'double'): return float(x - e.get('base', NUMZ(k)))
    if k in NUMERIC: return x - e.get('base', NUMZ(k))
    raise KeyError(k)
def rule_value(e, name, v):
    k = e['k']
    if isinstance(v, bool): return v
    if name in ('min_len', 'max_len', 'len', 'min_bytes', 'max_bytes', 'len_bytes'): return v
    if k in ('duration', 'timestamp'):
        tab = DUR if k == 'duration' else TS
        one = lambda i: dict(seconds=tab[i][0], nanos=tab[i][1])
        return [one(i) for i in v] if isinstance(v, list) else one(v)
    if k == 'any': return v
    if name in ('in', 'not_in'): return [conc(e, x) for x in v]
    if name == 'pattern': return re_text(v) if isinstance(v, dict) else v
    if name == 'well_known_regex': return Raw(v)
    return conc(e, v)
def proto_rules(e):
    out = {}
    rr = {n: rule_value(e, n, v) for n, v in e['r'].items() if n != '_'}
    if e['k'] != 'msg' and (rr or e['k'] in ('zzz',)): out[e['k']] = rr
    m = {}
    if e['req'] : m['required'] = True
    if e['skip']: m['skip'] = True
    if m: out['message'] = m
    return out

WKT = {'any': 'google.protobuf.Any', 'duration': 'google.protobuf.Duration', 'timestamp': 'google.protobuf.Timestamp'}
def msglike(e): return e['w'] or e['k'] in ('msg', 'any', 'duration', 'timestamp')

class Schema:
    """one schema of the specification rendered to protobuf; group: (package, file index)"""
    def __init__(self, S, syntax='proto3'):
        self.S, self.syntax, self.names = S, syntax, {}
    def place(self, gname, uid, pkg):
        """pkg: fn(file letter) -> package"""
        self.pkg = {}
        for ty in self.S:
            if ty.startswith('google.'): self.names[ty] = ty; self.pkg[ty] = None; continue
            p = pkg(self.S[ty].get('file', 'a')); self.pkg[ty] = p
            self.names[ty] = 'X%d%s' % (uid, ty)
    def parent(self, ty): return self.S[ty].get('parent') or None
    def path(self, ty):
        p = self.parent(ty)
        return (self.path(p) + '.' if p else '') + self.names[ty]
    def full(self, ty): return ty if ty.startswith('google.') else self.pkg[ty] + '.' + self.path(ty)
    def gotype(self, ty): return self.path(ty).replace('.', '_')
    def field(self, F, num, ty):
        e = F['el']; rules = {}
        if e['k'] == 'msg': t, ref = 'msg', self.full(e['ty'])
        elif e['w']: t, ref = 'msg', 'google.protobuf.' + WRAPPER[e['k']]
        elif e['k'] in WKT: t, ref = 'msg', WKT[e['k']]
        elif e['k'] == 'enum': t, ref = 'enum', self.pkg[ty] + '.E'
        else: t, ref = e['k'], None
        pr = proto_rules(e); card, key, default = '', None, None
        if F['card'] == 'one':
            rules = pr
            if self.syntax == 'proto2' and not F['oneof']:
                card = 'optional'
                if F.get('default') and t != 'msg':
                    default = Raw({3: 'E3', 1: 'E1', 5: 'E5'}[e['zero']]) if t == 'enum' else conc(e, e['zero'])
        elif F['card'] == 'rep':
            card = 'repeated'; c = {k: v for k, v in F['cr'].items() if k != '_'}
            if pr: c['items'] = pr
            if c: rules['repeated'] = c
        else:
            card = 'map'; key = F['key']['k']; c = {k: v for k, v in F['cr'].items() if k != '_'}
            kr = proto_rules(F['key'])
            if kr: c['keys'] = kr
            if pr: c['values'] = pr
            if c: rules['map'] = c
        # a rule record whose only member is required/skip still needs its type's own (empty) record nowhere
        return Field(F['n'], num, t, card, key, ref, rules, F['oneof'] or None, default)
    def message(self, ty):
        T = self.S[ty]
        m = Message(self.names[ty], [self.field(F, i + 1, ty) for i, F in enumerate(T['fields'])],
                    {o['n']: (True if o['required'] else None) for o in T['oneofs']})
        if T['mode'] == 'disabled': m.disabled = True
        if T['mode'] in ('ignored', 'legacy'): m.ignored = True
        if T['mode'] == 'legacy': m.fields = [Field('bad', 1, 'bool', 'optional' if self.syntax == 'proto2' else '')]
        m.msgs = [self.message(c) for c in self.S if self.parent(c) == ty]
        return m
    # ---- values ---------------------------------------------------------------
    def wire(self, ty, m):
        """the encoded message; zeros of floating point fields take turns in being negative"""
        self.neg = zlib.crc32(json.dumps(m, sort_keys=True).encode()) & 1
        return self.encode(ty, m)
    def val(self, e, x):
        v = conc(e, x)
        if v == 0 and e['k'] in ('float', 'double'):
            self.neg ^= 1
            return -0.0 if self.neg else 0.0
        return v
    def enc_el(self, e, x):
        """-> (wire type name, value)"""
        if e['w']: return wrap_value(e['k'], self.val(e, x[0])) if x else b''
        if e['k'] == 'msg': return self.encode(e['ty'], x[0]) if x else b''
        if e['k'] == 'any': return any_value(x[0]) if x else b''
        if e['k'] in ('duration', 'timestamp'):
            if not x: return b''
            tab = DUR if e['k'] == 'duration' else TS
            return dur_value(*(BAD[e['k']] if x[0] == -1 else tab[x[0]]))
        return self.val(e, x)
    def encode(self, ty, m):
        out = b''
        T = self.S[ty]
        if T['mode'] == 'legacy': return enc_field(1, 'bool', True) if 'bad' in m else b''
        for i, F in enumerate(T['fields']):
            if F['n'] not in m: continue
            v, e, num = m[F['n']], F['el'], i + 1
            wt = 'msg' if msglike(e) else e['k']
            if F['card'] == 'one':
                if msglike(e) and not v and not F['oneof']: continue
                out += enc_field(num, wt, self.enc_el(e, v))
            elif F['card'] == 'rep':
                for x in v: out += enc_field(num, wt, self.enc_el(e, x))
            else:
                for ent in v:
                    out += enc_field(num, 'msg', enc_field(1, F['key']['k'], conc(F['key'], ent['k'])) + enc_field(2, wt, self.enc_el(e, ent['v'])))
        return out
    def nils(self, ty, m):
        out = []
        for F in self.S[ty]['fields']:
            if F['n'] not in m or not msglike(F['el']): continue
            if F['card'] == 'one' and F['oneof'] and not m[F['n']]: out.append('!%s!%s' % (camel(F['oneof']), camel(F['n'])))
            if F['card'] == 'rep': out += ['%s:%d' % (camel(F['n']), i) for i, x in enumerate(m[F['n']]) if not x]
            if F['card'] == 'map': out += ['%s:%s' % (camel(F['n']), x['kt'][1:-1]) for x in m[F['n']] if not x['v']]
        return out

LEGACY_GO = '''package %s

import "errors"

%s'''
LEGACY_FN = '''func (m *%s) Validate() error {
	if m.GetBad() {
		return errors.New("LEGACY")
	}
	return nil
}
'''

TSAN_ENV = {'TSAN_OPTIONS': 'exitcode=0 report_signal_unsafe=0 suppressions=%s/drivers/cc/tsan.supp' % VERIF}
class Batch:
    """Many (schema, root type, value) cases: rendered, generated, compiled, run."""
    def __init__(self, run, name, per_file=40):
        self.run, self.name, self.per_file = run, name, per_file
        self.schemas, self.index, self.cases = [], {}, []
    def add(self, S, ty, m, go=True, cc=True, syntax='proto3', meta=None, java=False):
        key = syntax + json.dumps(S, sort_keys=True)
        if key not in self.index:
            self.index[key] = Schema(S, syntax); self.schemas.append(self.index[key])
        sc = self.index[key]
        if sc.nils(ty, m): cc = java = False
        self.cases.append(dict(schema=sc, ty=ty, m=m, go=go, cc=cc, java=java, meta=meta))
        return self.cases[-1]
    def family(self, name, keep=None, meta=None, cc=1.0, go=1.0, java=0.0):
        """adds the cases of a family enumerated by TLC (Families.tla); keep: fn(i, case) -> bool;
        cc, go, java: fraction of the schemas to run in that language"""
        out = self.run.p('family-%s.json' % name)
        self.run.tlc('DumpFamily', env={'FAMILY': name, 'OUT': out}, workers=1, timeout=300, heap='4g')
        cases = json.load(open(out)); os.unlink(out)
        n = 0; pick = {}
        for i, c in enumerate(cases):
            if keep and not keep(i, c): continue
            syn = 'proto2' if any(F.get('default') for T in c['S'].values() for F in T['fields']) else 'proto3'
            k = json.dumps(c['S'], sort_keys=True)
            if k not in pick: pick[k] = (self.run.rng.random() < go, self.run.rng.random() < cc) + ((self.run.rng.random() < java,) if java else (False,))
            g, x, j = pick[k]
            if not (c['go'] and g or c['cc'] and x or j): continue
            self.add(c['S'], c['ty'], c['m'], c['go'] and g, c['cc'] and x, syntax=syn, meta=meta or name, java=j); n += 1
        self.run.count('family_cases', n)
    def outcomes(self, timeout=800, heap='8g', cfg=None):
        """runs the state machine on all cases; attaches exp[mode] = list of possible results"""
        data = [dict(id=i + 1, S=c['schema'].S, ty=c['ty'], m=c['m'], go=c['go'], cc=c['cc'], java=c['java']) for i, c in enumerate(self.cases)]
        for c in self.cases: c['exp'] = {}
        path = self.run.p('cases-%s.json' % self.name)
        self.alias = {}   # TLC prints non-ASCII text wrongly: such key texts get an ASCII name
        def clean(x):
            if isinstance(x, dict): return {k: self.alias_of(v) if k == 'kt' else clean(v) for k, v in x.items()}
            return [clean(v) for v in x] if isinstance(x, list) else x
        for d in data: d['m'] = clean(d['m'])
        with open(path, 'w') as f: json.dump(data, f)
        lines, st = self.run.tlc('Validator', cfg, env={'CASES': path}, timeout=timeout, heap=heap)
        self.take(lines); os.unlink(path)
        return st
    def alias_of(self, t):
        if t.isascii(): return t
        return self.alias.setdefault(t, '[?%d?]' % len(self.alias))
    def take(self, lines):
        back = {v: k for k, v in getattr(self, 'alias', {}).items()}
        def undo(x):
            if isinstance(x, str): return back.get(x, x)
            if isinstance(x, dict): return {k: undo(v) for k, v in x.items()}
            return [undo(v) for v in x] if isinstance(x, list) else x
        for l in lines:
            if 'mode' not in l: continue
            if back: l['result'] = undo(l['result'])
            e = self.cases[l['id'] - 1]['exp'].setdefault(l['mode'], [])
            if l['result'] not in e: e.append(l['result'])
        for c in self.cases:
            want = (['all', 'first'] if c['go'] else []) + (['cc'] if c['cc'] else []) + (['java'] if c['java'] else [])
            if any(w not in c['exp'] for w in want): raise ToolError('the specification gave no outcome for %s' % json.dumps(c['m']))
    def files(self, lang):
        out, self.legacy = [], {}
        used = {id(c['schema']) for c in self.cases if c[lang]}
        pool = [s for s in self.schemas if id(s) in used]
        by = {}
        for s in pool: by.setdefault(s.syntax, []).append(s)
        g = 0; uid = 0
        for syn, ss in by.items():
            per = self.per_file if lang != 'cc' else min(self.per_file, max(2, -(-len(pool) // 16)))
            for k in range(0, len(ss), per):
                part = ss[k:k + per]; g += 1
                letters = ''.join(chr(97 + int(d)) for d in str(g))
                pkg = lambda f, b=self.name + letters: b + '_' + f
                fs = {}
                for s in part:
                    uid += 1; s.place(None, uid, pkg)
                    for ty in s.S:
                        if ty.startswith('google.'): continue
                        fl = s.S[ty].get('file', 'a')
                        if fl not in fs:
                            fs[fl] = File(pkg(fl) + '.proto', pkg(fl), syntax=syn, enums=[Enum('E', ENUMS[syn])])
                for s in part:
                    for ty in s.S:
                        if ty.startswith('google.') or s.parent(ty): continue
                        fs[s.S[ty].get('file', 'a')].messages.append(s.message(ty))
                    for ty in s.S:
                        if s.S[ty]['mode'] == 'legacy': self.legacy.setdefault(s.pkg[ty], []).append(LEGACY_FN % s.gotype(ty))
                for fl, f in fs.items():
                    if fl == 'a' and 'b' in fs: f.imports.append(fs['b'].path)
                if 'a' in fs and 'b' not in fs or True: out += [fs[k] for k in sorted(fs, reverse=True)]
        return out
    def sources(self, s):
        return '\n'.join(s.message(t).decl() for t in s.S if not t.startswith('google.') and not s.parent(t))
    # ---- real code ----------------------------------------------------------
    def run_go(self, reps=0, text=False, race=False, env=None):
        if not any(c['go'] for c in self.cases): return False
        ws = GoWS(self.run, 'go-' + self.name)
        for f in self.files('go'):
            # keep the unversioned import path equal to the proto package
            ws.add(f)
        bad = ws.generate()
        if bad:
            for f, err in bad: self.run.violation('generation_failed', lang='go', error=err[-1500:], proto=f.source()[:3000])
            return False
        for pkg, fns in self.legacy.items():
            with open(ws.dir + '/gen/%s/legacy.go' % pkg, 'w') as h: h.write(LEGACY_GO % (pkg, '\n'.join(fns)))
        ok, err = ws.build(race=race)
        if not ok:
            self.run.violation('go_compile', lang='go', error=err[:4000]); return False
        self.run.log('go: %d schemas built' % len(self.schemas))
        cs = [c for c in self.cases if c['go']]
        reqs = [self.goreq(c, text=text, reps=reps) for c in cs]
        for c, o in zip(cs, ws.ask(reqs, env=env)): c['go_out'] = o
        self.gows, self.goreqs = ws, reqs
        return True
    def goreq(self, c, **kw): return dict(m=c['schema'].full(c['ty']), b=c['schema'].wire(c['ty'], c['m']), nils=c['schema'].nils(c['ty'], c['m']), **kw)
    def ccreq(self, c): return dict(m=c['schema'].full(c['ty']), b=c['schema'].wire(c['ty'], c['m']))
    def run_java(self):
        cs = [c for c in self.cases if c['java']]
        if not cs: return True
        from javabuild import JavaWS
        ws = JavaWS(self.run, 'java-' + self.name)
        for f in self.files('java'): ws.add(f)
        bad = ws.generate()
        if bad:
            for f, err in bad: self.run.violation('generation_failed', lang='java', error=err[-1500:], proto=f.source()[:3000])
            return False
        ok, err = ws.compile()
        if not ok:
            self.run.violation('java_compile', lang='java', error=err[:4000]); return False
        self.run.log('java: %d schemas built' % len({id(c['schema']) for c in cs}))
        self.javaws = ws
        reqs = [dict(m=ws.binary[c['schema'].full(c['ty'])], b=c['schema'].wire(c['ty'], c['m']).hex()) for c in cs]
        for c, o in zip(cs, ws.ask('drv.GenDriver', reqs)): c['java_out'] = o
        return True
    def run_cc(self, tsan=False):
        cs = [c for c in self.cases if c['cc']]
        if not cs: return False
        ws = CcWS(self.run, 'cc-' + self.name, tsan=tsan)
        if not cs: return True
        for f in self.files('cc'): ws.add(f)
        bad = ws.generate()
        if bad:
            for f, err in bad: self.run.violation('generation_failed', lang='cc', error=err[-1500:], proto=f.source()[:3000])
            return False
        bad = ws.compile_all()
        if bad:
            for f, err in bad: self.run.violation('cc_compile', lang='cc', error=err[:3000], file=f.path, proto=f.source()[:2000])
            return False
        ws.link(); self.run.log('c++: %d schemas built' % len(self.schemas))
        self.ccws = ws
        for c, o in zip(cs, ws.ask([self.ccreq(c) for c in cs], env=TSAN_ENV if tsan else None)): c['cc_out'] = o
        return True

# ---- comparison ---------------------------------------------------------------
IDX = re.compile(r'^(\w+)(\[.*\])?$', re.S)
def real_node(n, detail):
    """canonical form of a real Go error node"""
    if n is None: return None
    if 'x' in n: return ('foreign',)
    if 'm' in n: return ('multi',) + tuple(real_node(x, detail) for x in n['m'])
    m = IDX.match(n['f'])
    f, i = (m.group(1), m.group(2) or '') if m else (n['f'], '')
    name = n['n'][:-len('ValidationError')] if n['n'].endswith('ValidationError') else n['n']
    c = n.get('c')
    # a cause outside PGV (net, utf8, url, timestamp parsing, ...) is explanatory text only
    cause = None if c is None or ('x' in c and c['x'] != 'LEGACY') else ('legacy',) if 'x' in c else real_node(c, detail)
    if detail: return (name, f, i, bool(n.get('k')), bool(n['r']), cause)
    return (f, cause)
def real_result(t, detail):
    if t is None: return ()
    if 'm' in t: return tuple(real_node(x, detail) for x in t['m'])
    return (real_node(t, detail),)
def spec_node(sc, n, detail):
    c = n['c']
    if not c: cause = None
    elif c[0] == 'legacy': cause = ('legacy',)
    elif c[0] == 'multi': cause = ('multi',) + tuple(spec_node(sc, x, detail) for x in c[1])
    else: cause = spec_node(sc, c[1][0], detail)
    if detail: return (sc.gotype(n['t']), camel(n['f']), n['i'], n['key'], True, cause)
    return (camel(n['f']), cause)
def spec_result(sc, r, detail): return tuple(spec_node(sc, n, detail) for n in r[1])
def bare(nodes): return tuple(n[:-1] for n in nodes)

def show(c, mode, got):
    sc = c['schema']
    return dict(message=c['ty'], value=c['m'], mode=mode, got=got, expected=c['exp'].get(mode)[:3] if mode in c['exp'] else None,
                proto='\n'.join(sc.message(t).decl() for t in sc.S if not t.startswith('google.') and not sc.parent(t))[:2500], meta=c['meta'])
