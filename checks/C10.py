"""C10: names and contents of the plugin's outputs."""
import sys, os, json, shutil, re
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'harness'))
from common import *
from plugreq import Protos
import worlds, cells as cellmod

def go_package(g):
    path = '/'.join(g['path'])
    return {'plain': path, 'alias': path + ';other', 'same_alias': path + ';' + g['path'][-1].replace('.', '_'), 'bare': path, 'dot': './' + path}[g['form']]
def join(d, n): return '/'.join(list(d) + [n])
def param(w):
    p = ['lang=' + w['lang']]
    if w['par']['paths']: p.append('paths=' + w['par']['paths'])
    if w['par']['module']: p.append('module=' + '/'.join(w['par']['module']))
    return ','.join(p)
def head(f, imports, validate):
    s = 'syntax = "proto3";\npackage %s;\noption go_package = "%s";\n' % ('.'.join(f['pkg']), go_package(f['go']))
    j = f['java']
    if j['pkg']: s += 'option java_package = "%s";\n' % '.'.join(j['pkg'][0])
    if j['multi']: s += 'option java_multiple_files = true;\n'
    if j['outer']: s += 'option java_outer_classname = "%s";\n' % j['outer']
    if validate: s += 'import "validate/validate.proto";\n'
    return s + ''.join('import %s;\n' % i for i in imports)
def put(d, path, text):
    p = os.path.join(d, path); os.makedirs(os.path.dirname(p), exist_ok=True)
    with open(p, 'w') as f: f.write(text)

ALT = {False: ('int32.gt = 3', 'string = {in: ["a", "b"]}', 'enum = {in: [1]}', 'string.pattern = "^a$"', 'string.uuid = true', '1'),
       True: ('int32 = {in: [7, 9]}', 'string = {in: ["b", "c", "a"]}', 'enum = {not_in: [2]}', 'string.pattern = "^b+$"', 'string.hostname = true', '2')}
def world_file(d, w, alt=None):
    """writes the file of a world; alt picks one of two sets of rules, so that files can have the same names and differ"""
    f = w['f']; path = join(f['dir'], f['base'] + '.proto')
    use = w.get('use', 'direct'); imports = []
    if use in ('public', 'public2'):
        put(d, 'pub/lib.proto', 'syntax = "proto3";\npackage pub;\noption go_package = "x.y/pub";\nimport public "validate/validate.proto";\n')
        imports = ['"pub/lib.proto"']
        if use == 'public2':
            put(d, 'pub/outer.proto', 'syntax = "proto3";\npackage pub;\noption go_package = "x.y/pub";\nimport public "pub/lib.proto";\n')
            imports = ['"pub/outer.proto"']
    rule = '' if use == 'no' else ' [(validate.rules).int32.gt = 3]'
    more = ''
    if alt is not None and use != 'no':
        A = ALT[alt]; rule = ' [(validate.rules).%s]' % A[0]
        more = ' enum E { Z = 0; O = %s; } string s = 2 [(validate.rules).%s]; E e = 3 [(validate.rules).%s]; string p = 4 [(validate.rules).%s]; string q = 5 [(validate.rules).%s];' % ((A[5],) + A[1:5])
    k, n = w.get('kind'), w.get('name')
    body = ''
    for m in f['msgs']:
        inner = ''
        if m == 'Msg' and k == 'nested_message': inner = ' message %s { int32 y = 1; }' % n
        if m == 'Msg' and k == 'nested_enum': inner = ' enum %s { ZERO = 0; }' % n
        body += 'message %s { int32 x = 1%s;%s%s }\n' % (m, rule, inner, more)
    if k == 'enum': body += 'enum %s { ZERO = 0; }\n' % n
    if k == 'service': body += 'service %s { }\n' % n
    put(d, path, head(f, imports, use == 'direct') + body)
    return path
def name_world(run, i, w):
    d = run.p('names', str(i)); path = world_file(d, w)
    extra = []
    if w['lang'] == 'java': os.makedirs(d + '/j'); extra = ['--java_out=' + d + '/j']
    P = Protos(run, d, [path], extra)
    if P.err: shutil.rmtree(d, ignore_errors=True); return ('invalid', P.err[:200])
    err, files = P.ask([path], param(w))
    other = None
    if w['lang'] == 'java':
        other = sorted(os.path.relpath(os.path.join(a, x), d + '/j') for a, _, fs in os.walk(d + '/j') for x in fs)
    elif w['lang'] == 'go':
        e2, f2 = P.ask([path], param(w).replace('lang=go', '').strip(','), plugin=run.p('bin/protoc-gen-go'))
        if not e2: other = sorted(n for n, _ in f2)
    shutil.rmtree(d, ignore_errors=True)
    return (err, sorted(n for n, _ in files), other)

def names(run, ls):
    res = pmap(lambda il: name_world(run, *il), [(i, l['w']) for i, l in enumerate(ls)])
    for l, r in zip(ls, res):
        w, want = l['w'], sorted(l['names'])
        if r[0] == 'invalid': run.count('worlds_protoc_refuses'); continue
        run.count('name_worlds'); run.count('traces_validated_against_impl')
        err, got, other = r
        d = dict(what=w['what'], lang=w['lang'], path=join(w['f']['dir'], w['f']['base'] + '.proto'), world=w)
        if err: run.violation('refused', error=err[:300], **d); continue
        if got != want: run.violation('names', expected=want, got=got, **d)
        # the specification itself against protobuf's own generators
        if other is None: continue
        run.count('compared_with_protobuf_names')
        if w['lang'] == 'java':
            if any(x[:-len('Validator.java')] + '.java' not in other for x in want): raise ToolError('specification disagrees with protoc on Java names: %s %s' % (want, other))
        elif [x.replace('.pb.go', '.pb.validate.go') for x in other] != want and 'dot' != w['f']['go']['form']:
            raise ToolError('specification disagrees with protoc-gen-go: %s %s %s' % (want, other, w))
        run.sample({'world': w, 'names': got}, 3)

def twins(run, ls):
    """two files with the same base name (and mostly the same names inside) in one run"""
    def one(il):
        i, l = il; w, d = l['w'], run.p('twins', str(i)); ps = [world_file(d, w['a'], False), world_file(d, w['b'], True)]
        P = Protos(run, d, ps); shutil.rmtree(d, ignore_errors=True)
        if P.err: raise ToolError(P.err)
        return ps, [P.ask(o, 'lang=' + w['lang'], k) for o in (ps[:1], ps[1:], ps, ps[::-1]) for k in [P.order(random.Random(i), set(P.files))]]
    for l, (ps, rs) in zip(ls, pmap(one, list(enumerate(ls)))):
        d = dict(world=l['w'], lang=l['w']['lang']); run.count('twins'); run.count('traces_validated_against_impl', 2)
        if any(e for e, _ in rs): run.violation('twins_refused', error=[e for e, _ in rs if e][0][:300], **d); continue
        want = dict(rs[0][1] + rs[1][1])
        for o, (_, files) in zip((ps, ps[::-1]), rs[2:]):
            if sorted(n for n, _ in files) != sorted(l['names']) or sorted(want) != sorted(l['names']):
                run.violation('twins_names', files=o, expected=sorted(l['names']), got=sorted(n for n, _ in files), alone=sorted(want), **d)
            else:
                for n, c in files:
                    if want[n] != c: run.violation('twins_content', files=o, file=n, differs=differing(want[n], c), **d)
                    else: run.count('contents_equal')

# ---- runs -----------------------------------------------------------------------------------
PATHS = ['a', 'sub/b', 'c_d', 'sub/deep/plain', 'other/a', 'bad']
def corpus(d, C):
    def rules(name, inner=''): return 'message %s {\n%s%s}\n' % (name, inner, ''.join(worlds.fld('f%d' % i, r, i + 1) for i, r in enumerate(worlds.TABLE)))
    imp = ['"google/protobuf/%s.proto"' % x for x in ('any', 'duration', 'timestamp', 'wrappers')]
    E = 'enum %s { %s_ZERO = 0; %s_ONE = 1; %s_FIVE = 5; }\n'
    R = '[(validate.rules).%s]'
    body = {
     1: (imp, 'message M { string s = 1 %s; Sub sub = 2 %s; repeated E e = 3 %s; oneof o { option (validate.required) = true; int32 x = 4 %s; bytes y = 5 %s; } }\nmessage Sub { string id = 1 %s; map<string, M> m = 2 %s; }\n' %
        tuple(R % r for r in ('string.pattern = "^a+$"', 'message.required = true', 'repeated.items.enum.defined_only = true', 'int32 = {in: [3, 1, 2]}', 'bytes.min_len = 2', 'string.uuid = true', 'map.keys.string.email = true'))
        + E % (('E',) * 4) + rules('Rules')),
     2: (imp + ['"a.proto"'], 'message UseA { p.a.M m = 1 %s; repeated p.a.E e = 2 %s; F f = 3 %s; Inner2 i = 4; map<int32, p.a.E> me = 5 %s; message Nest { string s = 1 %s; Nest again = 2; } Nest n = 6 %s; }\nmessage Inner2 { google.protobuf.Duration d = 1 %s; }\n' %
        tuple(R % r for r in ('message.required = true', 'repeated = {min_items: 1, items: {enum: {defined_only: true, not_in: [5]}}}', 'enum.in: [1, 5]'.replace('.in:', '= {in:') + '}', 'map.values.enum.defined_only = true', 'string.hostname = true', 'message.skip = true', 'duration = {gt: {seconds: 1}, not_in: [{seconds: 7}, {nanos: 3}]}'))
        + E % (('F',) * 4) + rules('Rules', 'message Sub { int32 x = 1; }\n' + E % (('E',) * 4))),
     3: (imp + ['"a.proto"'], 'message MQ { M m = 1; E e = 2 %s; CD c = 3 %s; google.protobuf.Timestamp t = 4 %s; }\n' % tuple(R % r for r in ('enum.defined_only = true', 'enum.const = 1', 'timestamp = {lt_now: true, within: {seconds: 3}}'))
        + E % (('CD',) * 4) + rules('RulesQ')),
     4: ([], 'message NoRules { string s = 1; int32 i = 2; message In { bool b = 1; } In in = 3; repeated In l = 4; }\n'),
     5: (['"a.proto"', '"sub/b.proto"', '"c_d.proto"', '"sub/deep/plain.proto"'], 'message All { p.a.M m = 1 %s; repeated p.b.UseA.Nest n = 2 %s; map<string, p.a.MQ> q = 3; q.NoRules r = 4; p.b.F f = 5 %s; p.a.CD cd = 6 %s; Off off = 7; }\nmessage Off { option (validate.ignored) = true; int32 x = 1 %s; }\n' %
        tuple(R % r for r in ('message.required = true', 'repeated.max_items = 3', 'enum.defined_only = true', 'enum.defined_only = true', 'int32.gt = 3'))),
     6: ([], 'message Wrong { int32 x = 1 %s; }\n' % (R % 'int32 = {gt: 3, lt: 3}'))}
    for i, f in enumerate(C): put(d, join(f['dir'], f['base'] + '.proto'), head(f, body[i + 1][0], i != 3) + body[i + 1][1])
    return [join(f['dir'], f['base'] + '.proto') for f in C]

def differing(a, b):
    for x, y in zip(a.decode('utf-8', 'replace').split('\n'), b.decode('utf-8', 'replace').split('\n')):
        if x != y: return [x[:200], y[:200]]
    return 'lengths %d %d' % (len(a), len(b))

def runs(run, ls, C):
    d = run.p('corpus'); paths = corpus(d, C)
    P = Protos(run, d, paths)
    if P.err: raise ToolError(P.err)
    alone = {}
    todo = [(l, run.rng.random(), run.rng.randrange(1 << 30)) for l in ls]
    def one(x):
        l, how, seed = x
        targets = [paths[i - 1] for i in l['order']]
        order = None
        if how > 0.3: order = P.order(random.Random(seed), P.closure(targets) if how < 0.7 else set(P.files))
        return P.ask(targets, param(l['w']), order)
    for l, (err, files) in zip(ls, pmap(one, todo)):
        run.count('runs'); run.count('traces_validated_against_impl')
        d = dict(lang=l['w']['lang'], param=param(l['w']), files=[paths[i - 1] for i in l['order']])
        if l['failed']:
            if not err or files: run.violation('run_with_bad_file_produced_output', error=err, names=[n for n, _ in files], **d)
            continue
        if err: run.violation('run_failed', error=err[:300], **d); continue
        got = sorted(n for n, _ in files)
        if got != sorted(o['name'] for o in l['out']): run.violation('run_names', expected=sorted(o['name'] for o in l['out']), got=got, **d); continue
        src = {o['name']: paths[o['from'] - 1] for o in l['out']}
        for n, c in files:
            key = (l['w']['lang'], src[n], os.path.basename(n))     # contents do not depend on where they are put
            if key not in alone: alone[key] = (c, d)
            elif alone[key][0] != c: run.violation('content', file=n, differs=differing(alone[key][0], c), other_run=alone[key][1], **d)
            else: run.count('contents_equal')
    run.cov['contents'] = len(alone)

def together(run, name, d, paths, langs, par, tries):
    """the files of one tree together, in several orders, against each of them alone"""
    P = Protos(run, d, paths)
    if P.err: run.count('trees_protoc_refuses'); return
    jobs = [(l, [p], None, par) for l in langs for p in paths]
    for l in langs:
        for k in range(tries):
            o = list(paths); run.rng.shuffle(o); jobs.append((l, o, P.order(run.rng, set(P.files)), par))
    res = pmap(lambda j: P.ask(j[1], 'lang=' + j[0] + j[3], j[2]), jobs) if len(jobs) > 20 else [P.ask(j[1], 'lang=' + j[0] + j[3], j[2]) for j in jobs]
    single = {}
    for (l, o, _, _), (err, files) in zip(jobs, res):
        if len(o) == 1 and l in langs:
            single[l, o[0]] = None if err else files
    for (l, o, _, _), (err, files) in zip(jobs, res):
        if len(o) < 2: continue
        run.count('trees_together'); run.count('traces_validated_against_impl')
        d = dict(tree=name, lang=l, files=o[:50], param='lang=' + l + par)
        bad = [p for p in o if single[l, p] is None]
        if bool(err) != bool(bad): run.violation('tree_failed', error=(err or '')[:300], alone_failing=bad, **d); continue
        if err: continue
        want = {}
        for p in o:
            for n, c in single[l, p]:
                if n in want: run.violation('name_twice', file=n, **d)
                want[n] = c
        if sorted(want) != sorted(n for n, _ in files): run.violation('tree_names', expected=sorted(want), got=sorted(n for n, _ in files), **d); continue
        for n, c in files:
            if want[n] != c: run.violation('content', file=n, differs=differing(want[n], c), **d)
            else: run.count('contents_equal')

def body(run):
    t, rng = run.thorough, run.rng
    run.build_plugin()
    nl = run.tlc('MC_Output', env={'PART': 'names', 'LONG': 1 if t else 0}, timeout=300)[0]
    rl = run.tlc('MC_Output', env={'PART': 'runs', 'LONG': 0}, timeout=300)[0]
    C = next(l['corpus'] for l in rl if 'corpus' in l); rl = [l for l in rl if 'order' in l]
    lay = [w for w in run.tlc('MC_World', env={'PART': 'layout'}, timeout=120)[0] if w['with'] not in ('alone',)]
    tw = run.tlc('MC_Output', env={'PART': 'twins', 'LONG': 0}, timeout=120)[0]
    for x in (nl, rl, tw, lay): x.sort(key=lambda l: json.dumps(l, sort_keys=True))
    run.log('specification: %d name worlds, %d runs, %d layouts' % (len(nl), len(rl), len(lay)))
    names(run, nl); run.log('names done')
    twins(run, tw); run.log('twins done')
    runs(run, rl, C); run.log('runs done')
    # the same runs again: nothing may depend on chance
    runs(run, rng.sample(rl, 300 if not t else len(rl)), C)
    d = run.p('cases'); src = REPO + '/tests/harness/cases'
    shutil.copytree(src, d + '/tests/harness/cases')
    cases = sorted('tests/harness/cases/' + os.path.relpath(os.path.join(a, x), src) for a, _, fs in os.walk(src) for x in fs if x.endswith('.proto'))
    together(run, 'cases', d, cases, ['go', 'cc', 'java'], '', 6 if not t else 30); run.log('cases done')
    # every rule of every kind in every position
    d = run.p('matrix'); ps = []
    for syntax in ('proto3', 'proto2'):
        cs = list(cellmod.cells()); cs = [cs[i::24] for i in range(24)]
        for i, c in enumerate(cs):
            f = cellmod.cell_file('m%d_%s' % (i, syntax), [(x[0], x[1], x[2], x[3]) for x in c], syntax); f.gopkg = 'x.y/' + f.package
            if i % 2: f.options.append('java_multiple_files = true')
            put(d, f.path, f.source()); ps.append(f.path)
    together(run, 'matrix', d, ps, ['go', 'cc', 'java'], '', 2 if not t else 12); run.log('matrix done')
    ws = lay if t else rng.sample(lay, 160)
    def one(iw):
        i, w = iw; d = run.p('lay', str(i)); fs = worlds.layout_files(w, i)
        for f in fs: put(d, f.path, f.source())
        together(run, 'layout %s' % json.dumps({k: v for k, v in w.items()}), d, [f.path for f in fs], ['go', 'cc'], '', 1); shutil.rmtree(d)
    pmap(one, list(enumerate(ws)))
    # a Go import mapping of a file that is itself generated
    d = run.p('mapped'); paths = corpus(d, C)
    together(run, 'import mapping of a generated file', d, [paths[0], paths[1]], ['go'], ',Ma.proto=x.y/mapped', 1)
    run.cov['exhaustive'] = False
    run.cov['rule'] = ('TLC enumerates file names over an alphabet, name conflicts, packages, Go package forms x module x path mode (each answered by the plugin and compared with protoc and protoc-gen-go), '
       'and every ordered subset of a corpus x settings; contents must be byte-identical in every run, with any order and superset of descriptors')
    run.assumptions += ['protoc gives the plugin valid descriptors in topological order', 'a module parameter that is not a prefix of the output path leaves the path as it is']

if __name__ == '__main__': main('C10', 'model_checking', body)
