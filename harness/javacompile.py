"""Generates and compiles Java validators for units of worlds (see compile.py)."""
import glob, hashlib, json, os, shutil
from common import *
from javabuild import JavaWS, LIB
from compile import Unit

STYLES = ('plain', 'outer', 'multi', 'package', 'both')
class Java:
    lang = 'java'
    def __init__(self, run):
        self.run, self.ws = run, JavaWS(run, 'javacompile'); self.dir = self.ws.dir
        run.build_plugin()
    def style(self, u):
        """a world may choose how its files name their Java classes; otherwise it goes by the unit's tag"""
        s = getattr(u.worlds[0], 'get', lambda k: None)('style') if len({w.get('style') for w in u.worlds}) == 1 else None
        u.style = (s if s != 'any' else None) or getattr(u, 'style', None) or STYLES[int(hashlib.md5(u.tag.encode()).hexdigest(), 16) % len(STYLES)]
        return u.style
    def write(self, u):
        d = self.dir + '/in/' + u.tag; s = self.style(u)
        for i, f in enumerate(u.files):
            p = os.path.join(d, f.path); os.makedirs(os.path.dirname(p), exist_ok=True)
            o = ['optimize_for = CODE_SIZE']; own = getattr(f, 'own', False)
            if own: pass
            elif s == 'outer': o.append('java_outer_classname = "Out%d"' % i)
            if not own and s in ('multi', 'both'): o.append('java_multiple_files = true')
            if not own and s in ('package', 'both'): o.append('java_package = "jq.%s"' % u.tag)
            src = f.source(); l, rest = src.split('\n', 1)
            # options come after the syntax and package statements
            if rest.startswith('package'): l2, rest = rest.split('\n', 1); l += '\n' + l2
            with open(p, 'w') as h: h.write(l + '\n' + ''.join('option %s;\n' % x for x in o) + rest)
        return d
    def protoc(self, u, pgv=True, base=True):
        d = self.write(u); o = self.dir + '/out/' + u.tag; v = self.dir + '/val/' + u.tag
        for x in (o, v): shutil.rmtree(x, ignore_errors=True); os.makedirs(x)
        cmd = ['protoc', '-I', d, '-I', REPO, '--plugin=protoc-gen-validate=' + self.run.plugin]
        if base: cmd.append('--java_out=' + o)
        if pgv: cmd.append('--validate_out=lang=java:' + v)
        r = self.run.run(cmd + [f.path for f in u.files], check=False)
        return r.returncode == 0, r.stderr
    def build(self, units, val=True):
        reqs = []
        for u in units:
            fs = sorted(sum((glob.glob(self.dir + '/%s/%s/**/*.java' % (x, u.tag), recursive=True) for x in (('out', 'val') if val else ('out',))), []))
            if fs: reqs.append(dict(tag=u.tag, files=fs, cp=self.ws.cp))
        if not reqs: return {}
        procs = 2 if len(reqs) > 8 else 1
        def one(k):
            part = reqs[k::procs]
            out = self.run.run(['java', '-XX:+UseParallelGC', '-XX:ParallelGCThreads=2', '-Xss8m', '-Xmx5g', '-cp', self.ws.cp, 'drv.Compile', '4'], input=''.join(json.dumps(q) + '\n' for q in part), timeout=850).stdout
            return [json.loads(l) for l in out.splitlines()]
        bad = {}
        for o in sum(pmap(one, range(procs)), []):
            if 'fail' in o: raise ToolError('javac: ' + o['fail'])
            if not o['ok']: bad[o['tag']] = '\n'.join(o['err'])[:1500]
        return bad
    def good_base(self, u): return not self.build([u], val=False)
