"""Generates and builds Go validators + driver from protoir Files, and runs requests through it."""
import base64, json, os, re, shutil
from common import *
from protoir import *

class GoWS:
    """A Go workspace under scratch: module pgvx, replace PGV => repo."""
    def __init__(self, run, name='go'):
        self.run, self.dir = run, run.p(name)
        run.build_plugin()
        os.makedirs(self.dir + '/protos', exist_ok=True); os.makedirs(self.dir + '/gen', exist_ok=True)
        gm = open(REPO + '/go.mod').read().split('require', 1)[1]
        with open(self.dir + '/go.mod', 'w') as f:
            f.write('module pgvx\n\ngo 1.17\n\nrequire %s v0.0.0\n\nreplace %s => %s\n\nrequire%s' % (PGV, PGV, REPO, gm))
        sums = set(open(REPO + '/go.sum').read().split('\n')) | set(open(VERIF + '/drivers/go/extra.sum').read().split('\n'))
        with open(self.dir + '/go.sum', 'w') as f: f.write('\n'.join(sorted(s for s in sums if s)) + '\n')
        self.files, self.extra = [], []
        self.env = dict(run.env, GOFLAGS='-mod=mod', PATH=run.p('bin') + ':' + run.env['PATH'])
    def add(self, f):
        if not f.gopkg: f.gopkg = 'pgvx/gen/' + f.path.replace('.proto', '').replace('/', '_').replace('-', '_')
        self.files.append(f)
        p = os.path.join(self.dir, 'protos', f.path); os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, 'w') as h: h.write(f.source())
    def protoc(self, files):
        """runs protoc-gen-go and the plugin on the given files; returns (ok, stderr)"""
        pl = [self.run.p('bin/protoc-gen-go'), self.run.plugin]
        par = 'module=pgvx,' + MPARAMS
        r = self.run.run(['protoc', '-I', self.dir + '/protos', '-I', REPO, '--plugin=protoc-gen-go=' + pl[0], '--plugin=protoc-gen-validate=' + pl[1],
              '--go_out=' + par + ':' + self.dir, '--validate_out=' + par + ',lang=go:' + self.dir] + [f.path for f in files],
              env=self.env, check=False)
        return r.returncode == 0, r.stderr
    def generate(self):
        bad = []
        groups = [self.files[i::NCPU] for i in range(NCPU)]
        res = pmap(lambda g: self.protoc(g) if g else (True, ''), groups)
        for g, (ok, err) in zip(groups, res):
            if ok: continue
            for f in g:                                   # find the culprits
                ok1, e1 = self.protoc([f])
                if not ok1: bad.append((f, e1))
        return bad
    def build(self, out='driver', race=False, main=None, pkgs=None):
        d = self.dir + '/cmd_' + out; os.makedirs(d, exist_ok=True)
        for s in (main or [VERIF + '/drivers/go/driver.go']): shutil.copy(s, d)
        imps = sorted({f.gopkg.split(';')[0] for f in (pkgs if pkgs is not None else self.files)})
        with open(d + '/imports.go', 'w') as f:
            f.write('package main\n\nimport (\n' + ''.join('\t_ "%s"\n' % i for i in imps) + ')\n')
        env = dict(self.env)
        flags = ['-ldflags=-s -w', '-gcflags=-e']
        if race: env['CGO_ENABLED'] = '1'; flags = ['-race', '-gcflags=-e']
        r = self.run.run(['go', 'build'] + flags + ['-o', self.dir + '/' + out, './cmd_' + out], cwd=self.dir, env=env, check=False)
        return r.returncode == 0, r.stderr
    def ask(self, reqs, out='driver', env=None):
        """reqs: dicts with m, b(bytes) etc.  Returns responses in order."""
        lines = []
        for i, q in enumerate(reqs):
            q = dict(q, i=i)
            if 'objs' in q: q['objs'] = [dict(x, b=base64.b64encode(x['b']).decode()) for x in q['objs']]
            if 'b' in q: q['b'] = base64.b64encode(q['b']).decode()
            lines.append(json.dumps(q))
        r = self.run.run([self.dir + '/' + out], input='\n'.join(lines) + '\n', env=dict(self.run.env, **(env or {})), check=False)
        self.crash = None
        if r.returncode != 0 and len(r.stdout.splitlines()) < len(reqs):
            # a call brought the process down: ask one after the other and leave out the culprits
            self.crash = r.stderr[-3000:]; got, todo, err, n = [], lines, r.stderr, 0
            while todo:
                r = self.run.run([self.dir + '/' + out], input='\n'.join(todo) + '\n', env=dict(self.run.env, DRIVER_SEQ='1', **(env or {})), check=False)
                part = r.stdout.split('\n')[:-1]; got += part; todo = todo[len(part):]; err += r.stderr
                if r.returncode == 0 and not todo: break
                if not part and not n and not r.stderr: raise ToolError('driver failed: exit %d' % r.returncode)
                n += 1; dead = todo[:1] if n < 4 else todo
                got += [json.dumps(dict(i=json.loads(l)['i'], panic='the process ended: ' + r.stderr[:1500])) for l in dead]; todo = todo[len(dead):]
            r.stdout = ''.join(l + '\n' for l in got); r.stderr = err
        res = [json.loads(l) for l in r.stdout.splitlines()]
        if len(res) != len(reqs): raise ToolError('driver answered %d of %d: %s' % (len(res), len(reqs), r.stderr[-3000:]))
        for x in res:
            if x.get('bad'): raise ToolError('driver could not build a value: %s %s' % (x, reqs[x['i']]))
        self.stderr = r.stderr
        return res

def top_errors(t):
    """list of error nodes of a ValidateAll tree, or of the single error"""
    if t is None: return []
    return t['m'] if 'm' in t else [t]
