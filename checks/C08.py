"""C08: which rules the plugin refuses"""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'harness'))
from common import *
from checker import *

LANGS = ['go', 'cc', 'java']
def body(run):
    t, rng = run.thorough, run.rng
    cases = []
    def take(lines, keep):
        for l in lines:
            if 'F' not in l: continue
            R = l.get('R') or dict(t=l['t'], r=l['r'], m=[])
            n = l.get('n', 1)
            kinds = NUMERIC if R['t'] == 'num' else [R['t']]
            for k in kinds:
                if n <= 2 or rng.random() < (keep if not l['reject'] else keep / 4):
                    cases.append(dict(F=dict(l['F'], k=k if R['t'] == 'num' else l['F']['k']), R=dict(R, t=k if R['t'] == 'num' else R['t']), reject=l['reject']))
    pl, st = run.tlc('MC_CheckShapes', timeout=200)
    places = [x for x in pl if 'place' in x]
    shapes = [x for x in pl if 'R' in x]
    for x in shapes:
        if t or not x['reject'] or rng.random() < .35: cases.append(x)
    take(run.tlc('MC_Check', env={'PART': 'atoms', 'BOUND': 3 if t else 3}, timeout=300)[0], 1 if t else .5)
    lines = run.tlc('MC_Check', env={'PART': 'string', 'BOUND': 3 if t else 2}, timeout=300)[0]
    take(lines, 1)
    lines = run.tlc('MC_Check', env={'PART': 'containers', 'BOUND': 3 if t else 2}, timeout=600)[0]
    take([l for l in lines if not l['reject']], .3)
    rej = [l for l in lines if l['reject']]
    take(rng.sample(rej, min(len(rej), 12000 if t else 1000)), 1)
    run.log('specification: %d rule sets (%d refused), %d placements' % (len(cases), sum(c['reject'] for c in cases), len(places)))
    render = Render(rng)
    for c in cases: c['rules'] = render.rules(c['F'], c['R'])
    pg = Plugin(run)
    run_accepted(run, pg, [c for c in cases if not c['reject']])
    run.log('accepted rule sets done')
    run_refused(run, pg, [c for c in cases if c['reject']], places)
    run.log('refused rule sets done')
    run_lang(run, pg)
    run.cov['rule'] = ('TLC grows rule sets one rule at a time for every kind (all pairs, triples) and enumerates field shape x rule type, container rules with nested rules, message rules and placements; '
                       'accepted ones are generated together for Go, C++ and Java, refused ones one plugin run each')
    run.cov['exhaustive'] = False

def single(c, i, modes=('on',), pkg='d', name='d.proto'):
    f = File(name, pkg, [chain(list(modes), field(c['F'], c['rules'], pkg, 'o' if i % 3 == 0 else None)), other()], [ENUM])
    return f
def describe(c, **kw): return dict(F=c['F'], R=c['R'], rules=text(c['rules']), **kw)

def run_accepted(run, pg, cs):
    """many fields per file; a refused file is split until the refused field is found"""
    def mkfile(part):
        msgs = []
        for i, c in part:
            m = chain(['on'], field(c['F'], c['rules'], 'd', 'o' if i % 3 == 0 else None)); m.name = 'M%d' % i; msgs.append(m)
        return File('d.proto', 'd', msgs + [other()], [ENUM])
    def go(part):
        for lang in LANGS: split(part, lang)
    def split(part, lang):
        ok, n, err = pg([mkfile(part)], [mkfile(part)], 'lang=' + lang)
        if ok and n: return
        if len(part) == 1:
            c = part[0][1]
            run.violation('accepted_rules_refused', **describe(c, lang=lang, error=err[-600:])); return
        h = len(part) // 2
        split(part[:h], lang); split(part[h:], lang)
    ics = list(enumerate(cs))
    pmap(go, [ics[k:k + 150] for k in range(0, len(ics), 150)])
    run.count('accepted', len(cs)); run.count('plugin_runs_accepting', pg.n)
    for c in cs[::max(1, len(cs) // 3)][:3]: run.sample(describe(c, expected='accept'))

def run_refused(run, pg, cs, places):
    good = dict(F=dict(card='one', k='int32', w=False, kk=''), rules={'int32': {'gt': 1}})
    def go(ic):
        i, c = ic
        p = places[i % len(places)] if i % 4 == 0 else None
        if p: modes, looked, targeted = p['place']['modes'], p['looked'], p['place']['targeted']
        else: modes, looked, targeted = ['on'], True, True
        lang = LANGS[i % 3]
        bad = single(c, i, modes, 'd', 'd.proto')
        extra = single(good, 0, ['on'], 'e', 'e.proto')
        if p:
            extra.imports.append('d.proto')
            files, targets = [bad, extra], ([bad, extra] if i % 8 else [extra, bad]) if targeted else [extra]
        else: files = targets = [bad]
        ok, n, err = pg(files, targets, 'lang=' + lang)
        if looked and (ok or n): run.violation('contradictory_rules_accepted', **describe(c, lang=lang, place=p and p['place'], files=n))
        if not looked and not ok: run.violation('unchecked_rules_refused', **describe(c, lang=lang, place=p and p['place'], error=err[-600:]))
    pmap(go, list(enumerate(cs)))
    run.count('refused', len(cs)); run.count('traces_validated_against_impl', pg.n)
    for c in cs[::max(1, len(cs) // 3)][:3]: run.sample(describe(c, expected='refuse'))

def run_lang(run, pg):
    f = single(dict(F=dict(card='one', k='int32', w=False, kk=''), rules={'int32': {'gt': 1}}), 0)
    for param, want in [('lang=go', True), ('lang=cc', True), ('lang=java', True), ('lang=', False), ('', False), ('lang=GO', False), ('lang=python', False), ('lang=gogo', False),
                        ('lang=c++', False), ('lang=cpp', False), ('lang=go2', False), ('lang= go', False), ('paths=source_relative', False), ('paths=source_relative,lang=go', True), ('lang=jav', False)]:
        ok, n, err = pg([f], [f], param)
        if ok != want or (n > 0) != want: run.violation('lang', param=param, accepted=ok, files=n, error=err[-300:])
        run.count('lang_parameters')

if __name__ == '__main__': main('C08', 'model_checking', body)
