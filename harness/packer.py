"""Packs single-field cases into multi-field messages, runs them on Go and C++, and compares
the real verdicts with the specification's.

A Case is one field (already rendered rules) with a list of (value, violations) pairs, where violations is the
list of violated rule names the specification computed, per language.
"""
from common import *
from protoir import *
from gobuild import GoWS, top_errors
from ccbuild import CcWS, cc_field

class Case:
    """typ/ref/card: field shape; rules: rule dict; vals: [(concrete or None=unset, [violations], label)]"""
    __slots__ = ('typ', 'ref', 'card', 'key', 'rules', 'vals', 'meta', 'loc', 'field', 'ccvals')
    def __init__(self, typ, rules, vals, ref=None, card='', key=None, meta=None, ccvals=None):
        self.typ, self.rules, self.vals, self.ref, self.card, self.key, self.meta = typ, rules, vals, ref, card, key, meta
        self.ccvals = ccvals          # violations per value for C++ if different from Go

def make_files(cases, per_msg, per_file, prefix, package=None):
    files = []
    chunk = per_msg * per_file
    for n in range(0, len(cases), chunk):
        idx = len(files)
        name = '%s%s' % (prefix, ''.join(chr(97 + int(d)) for d in str(idx)))
        f = File(name + '.proto', name)
        part = cases[n:n + chunk]
        for k in range(0, len(part), per_msg):
            m = Message('M%d' % (k // per_msg))
            for j, c in enumerate(part[k:k + per_msg]):
                fld = Field('f%d' % (j + 1), j + 1, c.typ, c.card, c.key, c.ref, c.rules)
                c.loc, c.field = (name + '.' + m.name), fld
                m.fields.append(fld)
            f.messages.append(m)
        files.append(f)
    return files

def report_gen_failures(run, lang, bad):
    for f, err in bad:
        run.violation('generation_failed', lang=lang, file=f.path, error=err[-1500:], proto=f.source()[:3000])

def group(cases):
    by = {}
    for c in cases: by.setdefault(c.loc, []).append(c)
    return by

def run_go(run, cases, per_msg=25, per_file=10, prefix='g', wsname='go'):
    """Every field takes every one of its values, all fields of a message at once; ValidateAll must report exactly
    the expected sequence of fields and Validate the first of them."""
    files = make_files(cases, per_msg, per_file, prefix)
    ws = GoWS(run, wsname)
    for f in files: ws.add(f)
    bad = ws.generate()
    if bad:
        report_gen_failures(run, 'go', bad)
        return
    ok, err = ws.build()
    if not ok:
        run.violation('go_compile', lang='go', error=err[:4000]); return
    run.log('go: %d fields in %d messages built' % (len(cases), len(group(cases))))
    reqs, exp = [], []
    for loc, cs in group(cases).items():
        msg = Message('x', [c.field for c in cs])
        rounds = max(len(c.vals) for c in cs)
        for r in range(rounds):
            vals, want, detail = {}, [], []
            for j, c in enumerate(cs):
                v, viol, lab = c.vals[(r + 3 * j) % len(c.vals)] if rounds == len(c.vals) or True else None
                if v is not None: vals[c.field.name] = v
                want += [c.field.go()] * len(viol)
                detail.append((c, lab, viol))
            reqs.append({'m': loc, 'b': encode(msg, vals)}); exp.append((want, detail))
    res = ws.ask(reqs)
    for q, (want, detail), o in zip(reqs, exp, res):
        run.count('go_calls', 2); run.count('evaluations', len(detail))
        if o.get('panic'): run.violation('panic', lang='go', msg=q['m'], panic=o['panic']); continue
        if o.get('none'): run.violation('no_validator', lang='go', msg=q['m']); continue
        got = [e.get('f') for e in top_errors(o['a'])]
        first = [o['v'].get('f')] if o['v'] else []
        if got != want or first != want[:1] or o.get('mut') or o.get('diff'):
            blame(run, 'go', q['m'], got, first, want, detail, o)

def blame(run, lang, loc, got, first, want, detail, o):
    """one violation per field whose verdict differs"""
    hit = False
    for c, lab, viol in detail:
        n = got.count(c.field.go())
        if n != len(viol):
            hit = True
            run.violation('verdict', lang=lang, mode='all', type=c.typ if c.typ not in ('msg',) else c.ref, rules=text(c.rules), value=lab,
                          expected=viol, reported=n, meta=c.meta, field=c.field.decl())
    if not hit:
        run.violation('order_or_first', lang=lang, msg=loc, expected=want, got=got, first=first, mutated=o.get('mut'), diff=o.get('diff'))

def run_cc(run, cases, per_msg=20, per_file=5, prefix='c', wsname='cc'):
    """C++ stops at the first violation: all other fields take a value the specification accepts."""
    def vio(c, i): return c.ccvals[i] if c.ccvals is not None else c.vals[i][1]
    good = {}
    sat, unsat = [], []
    for c in cases:
        ok = [i for i in range(len(c.vals)) if not vio(c, i)]
        if ok: good[id(c)] = ok[0]; sat.append(c)
        else: unsat.append(c)
    files = make_files(sat, per_msg, per_file, prefix) + make_files(unsat, 1, 40, prefix + 'u')
    ws = CcWS(run, wsname)
    for f in files: ws.add(f)
    bad = ws.generate()
    if bad: report_gen_failures(run, 'cc', bad); return
    bad = ws.compile_all()
    if bad:
        for f, err in bad: run.violation('cc_compile', lang='cc', error=err[:3000], file=f.path, proto=f.source()[:2000])
        return
    ws.link()
    run.log('c++: %d fields in %d messages built' % (len(cases), len(group(cases))))
    reqs, exp = [], []
    for loc, cs in group(cases).items():
        msg = Message('x', [c.field for c in cs])
        for c in cs:
            for i, (v, _, lab) in enumerate(c.vals):
                vals = {d.field.name: d.vals[good[id(d)]][0] for d in cs if d is not c and d.vals[good[id(d)]][0] is not None}
                if v is not None: vals[c.field.name] = v
                reqs.append({'m': loc, 'b': encode(msg, vals)}); exp.append((c, i, lab, vio(c, i)))
    res = ws.ask(reqs); blamed = set()
    for q, (c, i, lab, viol), o in zip(reqs, exp, res):
        run.count('cc_calls'); run.count('evaluations')
        want = 'X' if viol and viol[0] == 'UNIMPLEMENTED' else 'F' if viol else 'T'
        ok = o['r'] == want and not o['mut']
        if ok and want == 'F': ok = (cc_field(o['msg']) or '').split('[')[0] == c.field.go()
        if not ok and want != 'X' and o['r'] == 'F' and (cc_field(o['msg']) or c.field.go()).split('[')[0] != c.field.go():
            # another field, which holds a value the specification accepts, is rejected: blame that one (once)
            d = next((d for d in group(cases)[q['m']] if d.field.go() == cc_field(o['msg']).split('[')[0]), None)
            if d is not None:
                if id(d) not in blamed:
                    blamed.add(id(d))
                    run.violation('verdict', lang='cc', type=d.typ if d.typ != 'msg' else d.ref, rules=text(d.rules), value=d.vals[good[id(d)]][2],
                                  expected=[], got='F', msg=o['msg'], meta=d.meta, field=d.field.decl())
                continue
        if not ok:
            run.violation('verdict', lang='cc', type=c.typ if c.typ != 'msg' else c.ref, rules=text(c.rules), value=lab, expected=viol,
                          got=o['r'], msg=o['msg'], mutated=o['mut'], meta=c.meta, field=c.field.decl())

def run_java(run, cases, per_msg=20, per_file=12, prefix='j', ws=None, viol=None):
    """like run_cc: the Java validators stop at the first violation with an exception naming the field"""
    from javabuild import JavaWS
    def vio(c, i): return viol(c, i) if viol else c.ccvals[i] if c.ccvals is not None else c.vals[i][1]
    good, sat, unsat = {}, [], []
    for c in cases:
        ok = [i for i in range(len(c.vals)) if not vio(c, i)]
        if ok: good[id(c)] = ok[0]; sat.append(c)
        else: unsat.append(c)
    files = make_files(sat, per_msg, per_file, prefix) + make_files(unsat, 1, 60, prefix + 'u')
    ws = ws or JavaWS(run)
    for f in files: ws.add(f)
    bad = ws.generate()
    if bad: report_gen_failures(run, 'java', bad); return
    ok, err = ws.compile()
    if not ok:
        run.violation('java_compile', lang='java', error=err[:4000]); return
    run.log('java: %d fields in %d messages built' % (len(cases), len(group(cases))))
    reqs, exp = [], []
    for loc, cs in group(cases).items():
        msg = Message('x', [c.field for c in cs])
        for c in cs:
            for i, (v, _, lab) in enumerate(c.vals):
                vals = {d.field.name: d.vals[good[id(d)]][0] for d in cs if d is not c and d.vals[good[id(d)]][0] is not None}
                if v is not None: vals[c.field.name] = v
                reqs.append({'m': ws.binary[loc], 'b': encode(msg, vals).hex()}); exp.append((loc, c, i, lab, vio(c, i)))
    res = ws.ask('drv.GenDriver', reqs); blamed = set()
    for (loc, c, i, lab, viol_), o in zip(exp, res):
        run.count('java_calls'); run.count('evaluations')
        if o['r'] == 'P': raise ToolError('Java driver could not run %s: %s' % (loc, o))
        want = 'F' if viol_ else 'T'
        d = next((d for d in group(cases)[loc] if o.get('field') == '.%s.%s' % (loc, d.field.name)), None) if o['r'] in 'FX' else c
        if o['r'] == want and d is c and not o.get('mut'): continue
        if d is not None and d is not c:
            # another field, which holds a value the specification accepts, is rejected: blame that one (once)
            if id(d) in blamed: continue
            blamed.add(id(d)); lab, viol_ = d.vals[good[id(d)]][2], []
        d = d or c
        run.violation('verdict', lang='java', type=d.typ if d.typ != 'msg' else d.ref, rules=text(d.rules), value=lab, expected=viol_,
                      got=o['r'], field_got=o.get('field'), msg=o.get('reason') or o.get('msg'), mutated=o.get('mut'), meta=d.meta, field=d.field.decl())
