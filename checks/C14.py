"""C14: Java validator indexes."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'harness'))
from common import *
from javabuild import *

WORLDS = [[('E', 'none')], [('E', 'valid')], [('E', 'invalid')], [('E', 'next'), ('E', 'invalid')], [('E', 'next'), ('E', 'none')], [('R', 'none')], [('R', 'valid')], [('R', 'invalid')],
          [('R', 'next'), ('E', 'invalid')], [('R', 'next'), ('E', 'none')], [('E', 'next'), ('R', 'invalid')], [('E', 'next'), ('R', 'next'), ('E', 'valid')],
          [('R', 'next'), ('R', 'next'), ('E', 'invalid')]]
CLS = ['Plain', 'Outer', 'In', 'Deep', 'Orphan', 'Alone', 'Odd', 'Sub', 'Twin']
DEL = {'Outer': ['In', 'Plain', 'Alone'], 'In': ['Plain', 'Alone'], 'Plain': ['Alone']}
ALL = ['Plain', 'In', 'Outer', 'Alone']

def script(rng, n):
    w = [dict(kind=k, fb=f) for k, f in rng.choice(WORLDS)]
    es = [i + 1 for i, x in enumerate(w) if x['kind'] == 'E']
    ops, handles = [], 0
    few = rng.sample(CLS, rng.randint(2, 5))
    for _ in range(n):
        x = rng.random()
        if x < .3 and es:
            c = rng.choice(few)
            ops.append(dict(op='add', ix=rng.choice(es), c=c, impl=rng.choice(['ok', 'rej', 'chk', 'chk', 'boom'] + DEL.get(c, ALL[3:] if c not in ALL else []))))
        elif x < .5: ops.append(dict(op='look', ix=rng.randint(1, len(w)), c=rng.choice(few))); handles += 1
        elif x < .75 and handles: ops.append(dict(op='val', h=rng.randint(1, handles), v=rng.choice(['good', 'bad'])))
        else: ops.append(dict(op='fresh', ix=rng.randint(1, len(w)), c=rng.choice(few), v=rng.choice(['good', 'bad'])))
    return dict(world=w, ops=ops)

def body(run):
    ws = JavaWS(run)
    cases, st = run.tlc('ValidatorIndexes', 'ValidatorIndexesDeep.cfg' if run.thorough else 'ValidatorIndexes.cfg')
    run.log('specification: %d histories enumerated' % len(cases))
    scripts = [script(run.rng, run.rng.randint(4, 14)) for _ in range(30000 if run.thorough else 5000)]
    for w in WORLDS:                        # every class in every world, alone, twice and after a registration of another class
        for c in CLS:
            for v in ('good', 'bad'):
                scripts.append(dict(world=[dict(kind=k, fb=f) for k, f in w], ops=[dict(op='fresh', ix=1, c=c, v=v), dict(op='look', ix=1, c=c), dict(op='val', h=1, v=v), dict(op='val', h=1, v='good')]))
    path = run.p('scripts.json')
    with open(path, 'w') as f: json.dump(scripts, f)
    more, st2 = run.tlc('ValidatorIndexes', 'ValidatorIndexesScript.cfg', env={'SCRIPTS': path})
    cases += more
    run.log('specification: %d long histories' % len(more))
    reqs = [dict(world=c['world'], hist=c['hist'], inst=run.rng.random() < .4) for c in cases]
    for c, q, o in zip(cases, reqs, ws.ask('drv.IndexDriver', reqs)):
        run.count('traces_validated_against_impl'); run.count('operations', len(c['hist']))
        if isinstance(o, dict): run.violation('index_threw', world=c['world'], history=c['hist'], byInstance=q['inst'], got=o); continue
        for i, (want, got) in enumerate(zip(c['obs'], o)):
            if got['out'] != want['out'] or got['calls'] != want['calls'] or got['same']:
                run.violation('index', world=c['world'], history=c['hist'][:i + 1], byInstance=q['inst'], expected=want, got=got); break
    for c in cases[::len(cases) // 4][:4]: run.sample(dict(world=c['world'], hist=c['hist'], obs=c['obs']))
    n = 400 if run.thorough else 90
    r = json.loads(ws.java(['drv.IndexDriver', 'race', str(n)]))
    run.count('concurrent_lookups', 4 * n)
    if r['diff'] or r['wrong']: run.violation('concurrent_lookup', rounds=n, **r)
    generated(run, ws)
    run.cov['rule'] = 'every history of %d operations over 8 index chains, %d longer ones over 9 class shapes; forced overlapping lookups; real generated classes' % (4 if run.thorough else 3, len(scripts))

def generated(run, ws):
    """real generated code: top-level, nested, deeper, ignored and rule-free messages, one class per file and one per message"""
    req = []
    for multi in (False, True):
        p = 'gx' + ('m' if multi else 's'); f = p + '_file.proto'
        src = '''syntax = "proto3";
package %s;
option java_multiple_files = %s;
import "validate/validate.proto";
message Top { int32 x = 1 [(validate.rules).int32.lt = 10]; Nest n = 2; Other o = 3; Skipped s = 4;
  message Nest { int32 x = 1 [(validate.rules).int32.lt = 10]; message Deep { int32 x = 1 [(validate.rules).int32.lt = 10]; } Deep d = 2;
    message Quiet { option (validate.ignored) = true; int32 x = 1 [(validate.rules).int32.lt = 10]; } } }
message Other { int32 x = 1 [(validate.rules).int32.lt = 10]; }
message Skipped { option (validate.ignored) = true; int32 x = 1 [(validate.rules).int32.lt = 10]; }
message Off { option (validate.disabled) = true; int32 x = 1 [(validate.rules).int32.lt = 10]; }
''' % (p, 'true' if multi else 'false')
        with open(ws.dir + '/protos/' + f, 'w') as h: h.write(src)
        with open(ws.dir + '/protos/%s_plain.proto' % p, 'w') as h: h.write('syntax = "proto3";\npackage %s;\noption java_multiple_files = %s;\nmessage Free { int32 x = 1; }\n' % (p, 'true' if multi else 'false'))
        run.run(['protoc', '-I', ws.dir + '/protos', '-I', REPO, '--plugin=protoc-gen-validate=' + run.build_plugin(), '--java_out=' + ws.dir + '/gen', '--validate_out=lang=java:' + ws.dir + '/gen', f, p + '_plain.proto'])
        o = p + '.' + ('' if multi else 'Gx%sFile$' % p[2])
        q = p + '.' + ('' if multi else 'Gx%sPlain$' % p[2])
        bad = lambda *path: b''.join([]) if not path else None
        X = enc_field(1, 'int32', 11); G = enc_field(1, 'int32', 1)
        for cls, b, want in [(o + 'Top', X, 'F'), (o + 'Top', G, 'T'), (o + 'Top$Nest', X, 'F'), (o + 'Top$Nest', G, 'T'), (o + 'Top$Nest$Deep', X, 'F'), (o + 'Top$Nest$Deep', G, 'T'),
                             (o + 'Top', enc_field(2, 'msg', X), 'F'), (o + 'Top', enc_field(2, 'msg', enc_field(2, 'msg', X)), 'F'), (o + 'Top', enc_field(2, 'msg', enc_field(2, 'msg', G)), 'T'),
                             (o + 'Top', enc_field(3, 'msg', X), 'F'), (o + 'Top', enc_field(4, 'msg', X), 'T'), (o + 'Top$Nest$Quiet', X, 'T'),
                             (o + 'Other', X, 'F'), (o + 'Other', G, 'T'), (o + 'Off', X, 'T'), (q + 'Free', X, 'T'), (o + 'Skipped', X, 'T')]:
            req.append((dict(m=cls, b=b.hex()), want))
    src = glob.glob(ws.dir + '/gen/**/*.java', recursive=True)
    r = run.run(['javac'] + OPTS + ['-cp', ws.cp, '-d', ws.dir + '/gen'] + src, check=False)
    if r.returncode: run.violation('java_compile', error=r.stderr[:3000]); return
    for (q, want), o in zip(req, ws.ask('drv.GenDriver', [q for q, _ in req], procs=1)):
        run.count('generated_validations')
        if o['r'] != want: run.violation('generated_class', cls=q['m'], bytes=q['b'], expected=want, got=o)

if __name__ == '__main__': main('C14', 'model_checking', body)
