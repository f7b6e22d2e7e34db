"""Compiles the Java runtime of the tree under test (with the real protobuf-java and grpc classes found on this machine and
stand-ins for RE2/J and Commons Validator), generated Java validators, and the drivers, and talks to them."""
import glob, os, re
from common import *
from protoir import *

LIB = '/opt/veriftools/apalache-0.58.0/lib/apalache.jar'     # bundles protobuf-java, protobuf-java-util, guava, gson and grpc
DRV = VERIF + '/drivers/java'
OPTS = ['-J-Xshare:auto', '-J-XX:TieredStopAtLevel=1', '-nowarn', '-proc:none', '-Xlint:none', '-g:none', '-encoding', 'UTF-8']

class JavaWS:
    def __init__(self, run, name='java', grpc=True):
        self.run, self.dir, self.files, self.binary = run, run.p(name), [], {}
        if not os.path.exists(LIB): raise ToolError('no protobuf-java on this machine: ' + LIB)
        for d in ('base', 'gen', 'src', 'protos'): os.makedirs(self.dir + '/' + d, exist_ok=True)
        if getattr(run, 'javabase', None): self.cp = run.javabase; return     # the runtime is compiled once per check
        self.cp = run.javabase = self.dir + '/base:' + LIB
        run.run(['protoc', '-I', REPO, '-I', DRV + '/proto', '--java_out=' + self.dir + '/src', 'validate/validate.proto', 'enums.proto'])
        src = glob.glob(self.dir + '/src/**/*.java', recursive=True) + glob.glob(DRV + '/**/*.java', recursive=True)
        for m in ('pgv-java-stub', 'pgv-java-grpc'): src += glob.glob(REPO + '/java/%s/src/main/**/*.java' % m, recursive=True)
        with open(self.dir + '/base.txt', 'w') as f: f.write('\n'.join(src))
        r = run.run(['javac'] + OPTS + ['-cp', LIB, '-d', self.dir + '/base', '@' + self.dir + '/base.txt'], check=False)
        if r.returncode: raise ToolError('the Java runtime does not compile:\n' + r.stderr[-4000:])
        run.log('java: runtime and drivers compiled')
    def java(self, args, input=None, timeout=600, heap='1500m'):
        r = self.run.run(['java', '-XX:+UseSerialGC', '-XX:TieredStopAtLevel=1', '-Xss16m', '-Xmx' + heap, '-Dfile.encoding=UTF-8', '-cp', self.dir + '/gen:' + self.cp] + args, input=input, timeout=timeout, check=False)
        if r.returncode: raise ToolError('Java driver exit %d: %s\n%s' % (r.returncode, args, r.stderr[-3000:]))
        return r.stdout
    def ask(self, cls, reqs, procs=NCPU):
        """reqs: JSON-able objects, one per line; answers in order"""
        lines = [json.dumps(q) for q in reqs]
        def one(w):
            return [json.loads(l) for l in self.java([cls], input='\n'.join(lines[w::procs]) + '\n').splitlines()]
        res = [None] * len(reqs)
        ws = [w for w in range(procs) if lines[w::procs]]
        for w, out in zip(ws, pmap(one, ws)):
            if len(out) != len(lines[w::procs]): raise ToolError('Java driver answered %d of %d' % (len(out), len(lines[w::procs])))
            res[w::procs] = out
        return res

    # ---- generated validators -----------------------------------------------------------
    # how a file names its Java classes: by default, by an explicit outer class, one class per file, another package
    STYLES = ('plain', 'outer', 'multi', 'package', 'both')
    def options(self, k, f):
        s = self.STYLES[k % len(self.STYLES)]
        o = ['optimize_for = CODE_SIZE']
        if s == 'outer': o.append('java_outer_classname = "Outer%s"' % ''.join(chr(97 + int(d)) for d in str(k)))
        if s in ('multi', 'both'): o.append('java_multiple_files = true')
        if s in ('package', 'both'): o.append('java_package = "jp.q%s"' % f.package)
        return s, o
    def add(self, f):
        k = len(self.files); self.files.append(f)
        style, opts = self.options(k, f)
        pkg = ('jp.q' + f.package) if style in ('package', 'both') else f.package
        base = f.path.rsplit('/', 1)[-1][:-6]
        outer = re.sub(r'(?:^|_)([a-z])', lambda m: m.group(1).upper(), base)
        if any(n.split('.')[-1] == outer for n, _ in f.all_messages()) or any(e.name == outer for e in f.enums): outer += 'OuterClass'
        if style == 'outer': outer = opts[1].split('"')[1]
        for n, m in f.all_messages():
            path = n[len(f.package) + 1:] if f.package else n
            self.binary[n] = (pkg + '.' if pkg else '') + (path if style in ('multi', 'both') else outer + '.' + path).replace('.', '$')
        p = os.path.join(self.dir, 'protos', f.path); os.makedirs(os.path.dirname(p), exist_ok=True)
        old = f.options; f.options = old + opts
        with open(p, 'w') as h: h.write(f.source())
        f.options = old
    def protoc(self, files):
        r = self.run.run(['protoc', '-I', self.dir + '/protos', '-I', REPO, '--plugin=protoc-gen-validate=' + self.run.plugin,
              '--java_out=' + self.dir + '/gensrc', '--validate_out=lang=java:' + self.dir + '/gensrc'] + [f.path for f in files], check=False)
        return r.returncode == 0, r.stderr
    def generate(self):
        self.run.build_plugin(); os.makedirs(self.dir + '/gensrc', exist_ok=True)
        bad = []; groups = [self.files[i::NCPU] for i in range(NCPU)]
        for g, (ok, err) in zip(groups, pmap(lambda g: self.protoc(g) if g else (True, ''), groups)):
            if ok: continue
            for f in g:
                ok1, e1 = self.protoc([f])
                if not ok1: bad.append((f, e1))
        return bad
    def compile(self):
        """-> (ok, javac's messages)"""
        src = sorted(glob.glob(self.dir + '/gensrc/**/*.java', recursive=True))
        # protobuf's own classes first, then the validators, which use nothing but those, on all cores
        msgs = [s for s in src if not s.endswith('Validator.java')]; vals = [s for s in src if s.endswith('Validator.java')]
        def javac(name, files, cp):
            with open(self.dir + '/' + name, 'w') as f: f.write('\n'.join(files))
            return self.run.run(['javac'] + OPTS + ['-J-Xmx3g', '-cp', cp, '-d', self.dir + '/gen', '@' + self.dir + '/' + name], check=False)
        r = javac('msgs.txt', msgs, self.cp)
        if r.returncode: return False, 'protobuf classes: ' + r.stderr[-4000:]
        n = min(4, max(1, len(vals) // 6)); parts = [vals[i::n] for i in range(n)]
        err = ''
        for r in pmap(lambda i: javac('vals%d.txt' % i, parts[i], self.dir + '/gen:' + self.cp), [i for i in range(n) if parts[i]]):
            if r.returncode: err += r.stderr[-4000:]
        return not err, err
