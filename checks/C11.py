"""C11: Duration and Timestamp rules."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'harness'))
from common import *
from protoir import *
from packer import *

N9 = 999999999
GOMAX = 9223372036           # Go's time.Duration holds just over this many seconds
DMAX = 315576000000
TMIN, TMAX = -62135596800, 253402300799
DUR = [ # increasing lengths; bounds are taken from every rank
  [(-1, 0), (0, -1), (0, 0), (0, 1), (1, 0)],
  [(-2, 0), (-1, -500000000), (-1, -499999999), (-1, 0), (0, -N9)],
  [(0, 0), (0, 1), (0, 2), (0, 999), (0, 1000)],
  [(0, N9), (1, 0), (1, 1), (1, N9), (2, 0)],
  [(-GOMAX, 0), (-GOMAX + 1, -N9), (0, 5), (GOMAX - 1, N9), (GOMAX, 0)],
  [(59, N9), (60, 0), (3599, 1), (3600, 0), (86400, 1)],
  [(4294967295, 0), (4294967296, 0), (4294967296, 1), (4294967297, 0), (9007199254, 740993000)]]
WIDE = [ # bounds only from ranks 1..3, the outer values lie beyond what Go can represent
  [(-DMAX, 0), (-GOMAX, 0), (0, 0), (GOMAX, 0), (DMAX, 0)],
  [(-DMAX, 0), (-1, 0), (0, 0), (0, 1), (GOMAX * 3, N9)],
  [(-DMAX, 0), (-GOMAX * 2 - 1, -1), (0, 0), (GOMAX * 2 + 2, 0), (DMAX, 0)]]
CCWIDE = [[(-DMAX, 0), (-GOMAX * 5, -5), (GOMAX * 2, 1), (GOMAX * 2, 2), (DMAX, 0)], [(GOMAX * 2, 0), (GOMAX * 3, 0), (GOMAX * 3, 1), (DMAX - 1, N9), (DMAX, 0)]]
BADDUR = [(DMAX + 1, 0), (-DMAX - 1, 0), (0, N9 + 1), (0, -N9 - 1), (1, -1), (-1, 1), (9223372036854775807, 0), (-9223372036854775808, 0), (5, 2147483647)]
TS = [
  [(-1, 0), (-1, N9), (0, 0), (0, 1), (1, 0)],
  [(TMIN, 0), (TMIN, 1), (0, 0), (TMAX, N9 - 1), (TMAX, N9)],
  [(1600000000, 0), (1600000000, 1), (1600000000, 2), (1600000000, N9), (1600000001, 0)],
  [(-62135596799, 0), (-9223372037, 0), (-9223372036, 145224192), (-9223372036, 145224193), (9223372036, 854775807)],
  [(4294967295, N9), (4294967296, 0), (9223372036, 854775806), (9223372036, 854775808), (18446744073, 709551616)],
  [(253402300798, 0), (253402300798, N9), (253402300799, 0), (253402300799, 1), (253402300799, N9)]]
BADTS = [(TMIN - 1, 0), (TMIN - 1, N9), (TMAX + 1, 0), (0, -1), (0, N9 + 1), (1600000000, 2147483647), (-9223372036854775808, 0), (9223372036854775807, 0)]

def lit(p): return {k: v for k, v in (('seconds', p[0]), ('nanos', p[1])) if v} or {'seconds': 0}
def case(kind, l, table, bad, rng):
    rules = {}
    for k, v in l['cfg'].items():
        rules[k] = v if k == 'required' else [lit(table[x]) for x in v] if isinstance(v, list) else lit(table[v])
    o = l['out']
    vals = [(dur_value(*table[i]), o['viol'][i], table[i]) for i in range(5)]
    vals += [(dur_value(*b), o['bad'], ('invalid', b)) for b in rng.sample(bad, 2)] + [(None, o['unset'], 'unset')]
    return Case('msg', {kind: rules}, vals, ref='google.protobuf.' + kind.capitalize(), meta={'cfg': l['cfg'], 'table': table})
def bounds(cfg): return {x for k, v in cfg.items() if k != 'required' for x in (v if isinstance(v, list) else [v])}

# ---- the clock -------------------------------------------------------------------------
def rtext(r, half):
    out = {}
    for k, v in r.items(): out[k] = lit(divmod(v * half, 10**9)) if k == 'within' else v
    return out
def clock(run, half_ms):
    """replays the behaviours of Clock.tla: one message type per rule position, one real half tick per half tick"""
    lines, st = run.tlc('Clock')
    run.log('clock: %d behaviours' % len(lines))
    half = half_ms * 10**6 + 1000
    rules = []
    for l in lines:
        if l['rule'] not in rules: rules.append(l['rule'])
    offs = sorted({l['ts'] for l in lines}); n = len(lines[0]['log'])
    exp = {(rules.index(l['rule']), l['ts']): l['log'] for l in lines}
    f = File('clk.proto', 'clk'); ts = 'google.protobuf.Timestamp'; shapes = {}
    for nm in ('Plain', 'Req', 'List', 'Map', 'One', 'Far'):
        m = Message(nm); shapes[nm] = m; f.messages.append(m)
        for i, r in enumerate(rules):
            body = {'timestamp': rtext(r, half)}
            if nm == 'Req': body['timestamp']['required'] = True
            if nm == 'List': body = {'repeated': {'items': body}}
            if nm == 'Map': body = {'map': {'values': body}}
            fld = Field('f%d' % (i + 1), i + 1, 'msg', {'List': 'repeated', 'Map': 'map'}.get(nm, ''), 'string' if nm == 'Map' else None, ts, body)
            if nm == 'One': fld.oneof = 'o%d' % i; m.oneofs[fld.oneof] = None
            m.fields.append(fld)
    # bounds far away from now, with odd lengths; judged with offsets in minutes
    far = shapes['Far']; far.fields = []; fard = []
    for i, (w, d) in enumerate([(w, d) for w in (1, 59, 60, 1440, 525600, 150 * 525600) for d in (None, 'lt_now', 'gt_now')]):
        sec = 60 * w
        r = dict({d: True} if d else {}, within=lit((sec, 1 if w % 2 else N9)))
        far.fields.append(Field('f%d' % (i + 1), i + 1, 'msg', '', None, ts, {'timestamp': r})); fard.append((w, d))
    ws = GoWS(run, 'clk'); ws.add(f)
    bad = ws.generate()
    if bad: report_gen_failures(run, 'go', bad); return
    ok, err = ws.build()
    if not ok: run.violation('go_compile', lang='go', error=err[:3000]); return
    def fields(t): return [e['f'].split('[')[0] for e in top_errors(t)]
    for attempt in range(10):
        names = ['Plain', 'Req', 'List', 'Map', 'One']
        reqs = [{'m': 'clk.' + nm, 'half': half, 'offs': offs, 'n': n} for nm in names]
        res = ws.ask(reqs)
        if not any(o.get('slow') for o in res): break
        run.log('machine too slow for this clock, again')
    else: raise ToolError('the machine is too slow to hold the clock')
    for nm, o in zip(names, res):
        if o.get('panic'): run.violation('panic', lang='go', msg=nm, panic=o['panic']); continue
        k = 0
        for tick in range(n):
            for off in offs:
                v, a = o['res'][k], o['res'][k + 1]; k += 2
                want = ['F%d' % (i + 1) for i in range(len(rules)) if not exp[i, off][tick]]
                run.count('clock_calls', 2); run.count('go_calls', 2)
                got = fields(a)
                for i, r in enumerate(rules):
                    g = 'F%d' % (i + 1)
                    if (g in got) != (g in want):
                        run.violation('clock', position=nm, rule=text(shapes[nm].fields[i].rules), timestamp='%d half ticks' % off, now='%d half ticks' % (2 * tick),
                                      half_tick_ns=half, expected='rejected' if g in want else 'accepted', got='rejected' if g in got else 'accepted')
                if fields(v) != want[:1] and got == want: run.violation('clock_first', position=nm, want=want[:1], got=fields(v), half_tick_ns=half)
    now = int(time.time()); reqs, exps = [], []
    mins = sorted({s * (w + d) for w, _ in fard for d in (-1, 1) for s in (1, -1)} - {0} | {-2000 * 525600 + 1, 7000 * 525600})
    for off in mins:
        b = dur_value(now + 30 + 60 * off if off < 0 else now - 30 + 60 * off, 7)
        reqs.append({'m': 'clk.Far', 'b': encode(far, {x.name: b for x in far.fields}), 'only': 'a'})
        exps.append(['F%d' % (i + 1) for i, (w, d) in enumerate(fard) if not ((abs(off) <= w) and (d is None or (off < 0) == (d == 'lt_now')))])
    if time.time() - now > 20: raise ToolError('slow')
    for off, want, o in zip(mins, exps, ws.ask(reqs)):
        run.count('go_calls'); got = fields(o['a'])
        if got != want: run.violation('clock_far', offset_minutes=off, rules=[str(fard[int(x[1:]) - 1]) for x in set(got) ^ set(want)], expected=want, got=got)

def body(run):
    t, rng = run.thorough, run.rng
    go, cc = [], []
    for kind, tables, bad in (('duration', DUR, BADDUR), ('timestamp', TS, BADTS)):
        lines, st = run.tlc('MC_Time', 'MC_Time_' + kind)
        lines = [l for l in lines if l['cfg']]
        lines.sort(key=lambda l: json.dumps(l['cfg'], sort_keys=True))
        run.count('rule_sets', len(lines))
        simple = [l for l in lines if 'not_in' not in l['cfg'] or len(l['cfg']) == 1]
        for l in lines:
            for tab in (tables if t else [rng.choice(tables)]): go.append(case(kind, l, tab, bad, rng))
        for tab in tables: # every table with every kind of rule
            for ks in (('lt',), ('lte',), ('gt',), ('gte',), ('const',), ('in',), ('not_in',), ('gt', 'lt'), ('gte', 'lte')):
                c = [l for l in lines if set(l['cfg']) == set(ks)]
                for l in rng.sample(c, min(len(c), 3)): go.append(case(kind, l, tab, bad, rng))
        if kind == 'duration':
            inner = [l for l in lines if bounds(l['cfg']) <= {1, 2, 3}]
            for tab in WIDE[:2]:
                for l in (inner if t else rng.sample(inner, 60)): go.append(case(kind, l, tab, bad, rng))
            for l in (lines if t else rng.sample(lines, 200)): cc.append(case(kind, l, rng.choice(tables + CCWIDE), bad, rng))
            for l in rng.sample(inner, 80 if t else 30): cc.append(case(kind, l, rng.choice(WIDE), bad, rng))
            for tab in CCWIDE:
                for l in rng.sample([l for l in lines if len(bounds(l['cfg'])) == 2 and 'lt' in l['cfg']], 10): cc.append(case(kind, l, tab, bad, rng))
    rng.shuffle(go); rng.shuffle(cc)
    for c in go[:3]: run.sample({'field': (c.ref, text(c.rules)), 'values': [(str(v[2]), v[1]) for v in c.vals]})
    run_go(run, go, per_msg=30, per_file=6)
    run_cc(run, cc, per_msg=20, per_file=max(1, len(cc) // (20 * 2 * NCPU)))
    clock(run, 150)
    run.cov['traces_validated_against_impl'] = run.cov.get('go_calls', 0) + run.cov.get('cc_calls', 0)
    run.cov['rule'] = 'TLC enumerates every accepted combination of absolute bounds over five instants (tables adjacent to the nanosecond, at the ends of the representable ranges), invalid and unset values; and every behaviour of a clock advancing past a timestamp, replayed in real time'

if __name__ == '__main__': main('C11', 'model_checking', body)
