"""Compiles what the plugin generates, in Go and C++, and finds the world that does not compile."""
import os, re, shutil
from common import *
from protoir import *
from gobuild import GoWS

class Unit:
    """worlds generated together: build(worlds, tag) -> files"""
    def __init__(self, tag, worlds, build): self.tag, self.worlds, self.build = tag, worlds, build; self.files = build(worlds, tag)

def write(d, files):
    for f in files:
        p = os.path.join(d, f.path); os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, 'w') as h: h.write(f.source())

class Go:
    lang = 'go'
    def __init__(self, run): self.run, self.ws, self.n = run, GoWS(run, 'gocompile'), 0
    def protoc(self, u, pgv=True, base=True):
        d = self.ws.dir + '/in/' + u.tag; write(d, u.files)
        par = 'module=pgvx,' + MPARAMS
        cmd = ['protoc', '-I', d, '-I', REPO, '--plugin=protoc-gen-go=' + self.run.p('bin/protoc-gen-go'), '--plugin=protoc-gen-validate=' + self.run.plugin]
        if base: cmd.append('--go_out=' + par + ':' + self.ws.dir)
        if pgv: cmd.append('--validate_out=' + par + ',lang=go:' + self.ws.dir)
        r = self.run.run(cmd + [f.path for f in u.files], env=self.ws.env, check=False)
        return r.returncode == 0, r.stderr
    def build(self, units):
        """-> {tag: error} of units that do not compile (go build stops early, so until the rest does compile)"""
        bad = {}
        while True:
            rest = [u for u in units if u.tag not in bad]
            if not rest: return bad
            r = self.run.run(['go', 'build', '-gcflags=-e'] + sorted({'./gen/' + u.tag + '/...' for u in rest}), cwd=self.ws.dir, env=self.ws.env, check=False)
            if r.returncode == 0: return bad
            tags, cur, n = {u.tag for u in rest}, None, len(bad)
            for l in r.stderr.split('\n'):
                m = re.search(r'(?:pgvx/|\b|/)gen/([A-Za-z0-9]+)', l)
                if m and m.group(1) in tags: cur = m.group(1)
                if cur and not l.startswith('#'): bad[cur] = (bad.get(cur, '') + l + '\n')[:1500]
            if len(bad) == n: raise ToolError('go build: ' + r.stderr[:3000])
    def good_base(self, u):
        """does the unit compile without the validators?"""
        for root, _, fs in os.walk(self.ws.dir + '/gen/' + u.tag):
            for f in fs:
                if f.endswith('.pb.validate.go'): os.unlink(os.path.join(root, f))
        return not self.build([u])

class Cc:
    lang = 'cc'
    PRE = '#include "validate/validate.h"\n'
    def __init__(self, run, pch):
        self.run, self.dir, self.usepch = run, run.p('cccompile'), pch
        run.build_plugin(); os.makedirs(self.dir + '/base/validate', exist_ok=True)
        shutil.copy(REPO + '/validate/validate.h', self.dir + '/base/validate/')
        run.run(['protoc', '-I', REPO, '--cpp_out=' + self.dir + '/base', 'validate/validate.proto'])
        self.quick = ['clang++', '-std=c++14', '-O0', '-w', '-fsyntax-only', '-fno-caret-diagnostics', '-I' + self.dir + '/base']
        self.full = ['g++', '-std=c++14', '-O0', '-w', '-fsyntax-only', '-fno-diagnostics-show-caret', '-I' + self.dir + '/base']
        import ccbuild
        with open(self.dir + '/pch.h', 'w') as h: h.write(ccbuild.PCH.replace('#include "reg.h"\n', ''))
        self.run.run(self.quick[:-1] + ['-I' + self.dir + '/base', '-x', 'c++-header', '-fpch-instantiate-templates', '-o', self.dir + '/pch.h.pch', self.dir + '/pch.h'][0:] if False else
                     ['clang++', '-std=c++14', '-O0', '-w', '-I' + self.dir + '/base', '-x', 'c++-header', '-fpch-instantiate-templates', '-o', self.dir + '/pch.h.pch', self.dir + '/pch.h'])
        self.quick += ['-include-pch', self.dir + '/pch.h.pch']
    def protoc(self, u, pgv=True, base=True):
        d = self.dir + '/in/' + u.tag; o = self.dir + '/out/' + u.tag; write(d, u.files); os.makedirs(o, exist_ok=True)
        cmd = ['protoc', '-I', d, '-I', REPO, '--plugin=protoc-gen-validate=' + self.run.plugin]
        if base: cmd.append('--cpp_out=' + o)
        if pgv: cmd.append('--validate_out=lang=cc:' + o)
        r = self.run.run(cmd + [f.path for f in u.files], check=False)
        return r.returncode == 0, r.stderr
    def cc(self, u, src, full):
        o = self.dir + '/out/' + u.tag
        r = self.run.run((self.full if full else self.quick) + ['-I' + o, o + '/' + src], check=False)
        return '' if r.returncode == 0 else (r.stderr or 'failed')
    def build(self, units):
        jobs = [(u, f, full) for u in units for f in u.files for full in ([False, True] if getattr(u, 'full', False) else [False])]
        bad = {}
        for (u, f, full), e in zip(jobs, pmap(lambda j: self.cc(j[0], j[1].path[:-6] + '.pb.validate.cc', j[2]), jobs)):
            if e: bad.setdefault(u.tag, e[:1500])
        return bad
    def good_base(self, u): return not any(self.cc(u, f.path[:-6] + '.pb.cc', False) for f in u.files)

def compile_units(run, tool, units, limit=60):
    """generates and compiles every unit; reports worlds whose code does not compile"""
    res = pmap(lambda u: tool.protoc(u), units)
    failed = {u.tag: (e, True) for u, (ok, e) in zip(units, res) if not ok}
    good = [u for u in units if u.tag not in failed]
    for tag, e in tool.build(good).items(): failed[tag] = (e, False)
    run.count('units_' + tool.lang, len(units)); run.count('worlds_' + tool.lang, sum(len(u.worlds) for u in units))
    reported = [0]
    def locate(u, err, gen):
        """halve a failing unit until single worlds fail"""
        if len(u.worlds) == 1:
            if gen: ok, _ = tool.protoc(u, pgv=False)
            else: ok = tool.good_base(u)
            if not ok:
                run.count('not_a_program_' + tool.lang)
                if os.environ.get('SHOWBAD'): run.log('not a program: %s' % u.worlds[0])
                return
            run.count('failing_worlds_' + tool.lang)
            if run.violation('generation_failed' if gen else 'does_not_compile', lang=tool.lang, world=u.worlds[0], error=err.strip()[:900], source=''.join(f.source() for f in u.files)[:1500]): reported[0] += 1
            return
        if reported[0] >= limit: return
        h = len(u.worlds) // 2
        parts = [Unit(u.tag + x, p, u.build) for x, p in (('a', u.worlds[:h]), ('b', u.worlds[h:]))]
        bad = 0
        for x in parts:
            ok, e = tool.protoc(x)
            if not ok: locate(x, e, True); bad += 1
            else:
                e = tool.build([x])
                if e: locate(x, e[x.tag], False); bad += 1
        if not bad: run.violation('does_not_compile_together', lang=tool.lang, worlds=u.worlds[:20], error=err[:900])
    by = {u.tag: u for u in units}
    for tag, (e, gen) in sorted(failed.items()): locate(by[tag], e, gen)
