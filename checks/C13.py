"""C13: purity and concurrency."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'harness'))
from common import *
from msgcheck import *

RACE_ENV = {'GORACE': 'halt_on_error=0 exitcode=0'}
def go_ok(c, mode, tree):
    return real_result(tree, True) in [spec_result(c['schema'], r, True) for r in c['exp'][mode]]
def cc_ok(c, r, msg):
    return [r] + ([cc_field(msg)] if r == 'F' else []) in [[x[0]] + [camel(y) for y in x[1:]] for x in c['exp']['cc']]

def body(run):
    t = run.thorough
    run.tlc('History', 'HistorySteps')                       # isolation in the step-level model
    hists, st = run.tlc('History', 'History4' if t else 'History')
    hists = [h['hist'] for h in hists]
    run.log('specification: %d histories of calls' % len(hists))
    if t: hists = run.rng.sample(hists, min(len(hists), 20000))
    b = Batch(run, 'h')
    b.family('lists', go=.4 if t else .06, cc=.1 if t else .02)
    b.family('maps', go=.2 if t else .03, cc=.05 if t else .01)
    add_random(run, b, 150 if t else 40, per=4, cc=.5 if t else .3)
    b.outcomes()
    groups = {}
    for c in b.cases: groups.setdefault(id(c['schema']), []).append(c)
    def plan(lang, n):
        """a pair of messages of one schema for every history"""
        pool = [[c for c in g if c[lang]] for g in groups.values()]
        pool = [g for g in pool if g]
        # messages with errors are the interesting ones
        out = []
        for k in range(n):
            g = run.rng.choice(pool)
            bad = [c for c in g if len(str(c['exp'])) > 120] or g
            out.append((hists[k % len(hists)], [run.rng.choice(bad), run.rng.choice(g)]))
        return out
    # ---- Go, with the race detector
    if b.run_go(race=True, env=RACE_ENV, reps=4):
        races = b.gows.stderr
        if b.gows.crash: run.violation('go_crash', report=b.gows.crash)
        def fresh(c, mode):
            r = b.gows.ask([b.goreq(c, only='a' if mode == 'all' else 'v')], env=dict(RACE_ENV))[0]
            return r['a' if mode == 'all' else 'v']
        suspects = []
        for c in b.cases:
            if not c['go']: continue
            o = c['go_out']
            if o.get('none') or o.get('panic'): continue
            if o.get('mut'): run.violation('go_mutates', **show(c, 'go', o))
            if o.get('diff') and not any(len(x) > 1 for x in c['exp'].values()): run.violation('go_repeated_call_differs', diff=o['diff'], **show(c, 'go', o))
            for mode, key in (('first', 'v'), ('all', 'a')):
                if not go_ok(c, mode, o[key]): suspects.append((c, mode, o[key], None))
        pl = plan('go', 20000 if t else 2 * len(hists))
        outs = b.gows.ask([dict(objs=[b.goreq(c) for c in objs], ev=h) for h, objs in pl], env=RACE_ENV)
        races += b.gows.stderr
        if b.gows.crash: run.violation('go_crash', report=b.gows.crash)
        for (h, objs), o in zip(pl, outs):
            if o.get('panic'):
                run.violation('go_history_panics', history=h, panic=o['panic'], **show(objs[0], 'go', o)); continue
            if o.get('mut'): run.violation('go_mutates', history=h, **show(objs[0], 'go', o))
            if o.get('res') != o.get('late'): run.violation('go_error_changes_later', history=h, then=o['res'], later=o['late'], **show(objs[0], 'go', o))
            started = {}; k = 0
            for e in h:
                if e[0] == 'b': started[e[1]] = (objs[e[2] - 1], e[3]); continue
                c, mode = started[e[1]]; tr = o['res'][k]; k += 1
                if not go_ok(c, mode, tr): suspects.append((c, mode, tr, h))
            run.count('go_calls', k)
        run.count('traces_validated_against_impl', len(pl))
        for c, mode, tr, h in suspects[:60]:
            # wrong in company: is it also wrong alone?  (then it is no matter of purity)
            lone = fresh(c, mode)
            if go_ok(c, mode, lone): run.violation('go_call_depends_on_other_calls', alone=lone, history=h, **show(c, mode, tr))
        if 'DATA RACE' in races:
            i = races.index('DATA RACE'); run.violation('go_data_race', report=races[max(0, i - 30):i + 3000])
    # ---- C++, with the thread sanitizer
    if b.run_cc(tsan=True):
        races = b.ccws.stderr; suspects = []
        for c in b.cases:
            if not c['cc']: continue
            o = c['cc_out']
            if o['mut']: run.violation('cc_mutates', **show(c, 'cc', o))
            if not cc_ok(c, o['r'], o['msg']): suspects.append((c, (o['r'], o['msg']), None))
        pl = plan('cc', 10000 if t else len(hists))
        outs = b.ccws.ask([dict(objs=[b.ccreq(c) for c in objs], ev=h) for h, objs in pl], env=TSAN_ENV)
        races += b.ccws.stderr
        for (h, objs), o in zip(pl, outs):
            if o['r'] == 'C':
                if all(b.ccws.ask([b.ccreq(c)], env=TSAN_ENV)[0]['r'] != 'C' for c in objs): run.violation('cc_crash', history=h, **show(objs[0], 'cc', o['msg']))
                continue
            if o['mut']: run.violation('cc_mutates', history=h, **show(objs[0], 'cc', o))
            started = {}; k = 0
            for e in h:
                if e[0] == 'b': started[e[1]] = objs[e[2] - 1]; continue
                c = started[e[1]]; x = o['res'][k]; k += 1
                if not cc_ok(c, *x): suspects.append((c, x, h))
            run.count('cc_calls', k)
        run.count('traces_validated_against_impl', len(pl))
        for c, x, h in suspects[:60]:
            lone = b.ccws.ask([b.ccreq(c)], env=TSAN_ENV)[0]
            if cc_ok(c, lone['r'], lone['msg']): run.violation('cc_call_depends_on_other_calls', alone=lone, history=h, **show(c, 'cc', x))
        if 'WARNING: ThreadSanitizer' in races:
            i = races.index('WARNING: ThreadSanitizer'); run.violation('cc_data_race', report=races[i:i + 3000])
    for h, objs in pl[:3]: run.sample({'history': h, 'messages': [c['m'] for c in objs]})
    run.cov['histories'] = len(hists)
    run.cov['rule'] = 'TLC enumerates every interleaving of begin and end events of calls by several callers on shared messages; each is replayed with real overlapping calls under the race detectors'

if __name__ == '__main__': main('C13', 'model_checking', body)
