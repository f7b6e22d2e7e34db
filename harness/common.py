"""Shared machinery: scratch space, building the plugin and drivers from /repo, running TLC, evidence."""
import atexit, base64, hashlib, json, os, random, shutil, signal, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
SPEC = os.path.join(VERIF, 'spec')
NCPU = os.cpu_count() or 4
PGV = 'github.com/envoyproxy/protoc-gen-validate'
GOOGLE_GO = {'any':'google.golang.org/protobuf/types/known/anypb','duration':'google.golang.org/protobuf/types/known/durationpb',
 'struct':'google.golang.org/protobuf/types/known/structpb','timestamp':'google.golang.org/protobuf/types/known/timestamppb',
 'wrappers':'google.golang.org/protobuf/types/known/wrapperspb','empty':'google.golang.org/protobuf/types/known/emptypb',
 'descriptor':'google.golang.org/protobuf/types/descriptorpb'}
MPARAMS = ','.join(['Mvalidate/validate.proto=%s/validate' % PGV] + ['Mgoogle/protobuf/%s.proto=%s' % kv for kv in GOOGLE_GO.items()])

class ToolError(Exception):
    """something the check needs failed; never a verdict"""

class Run:
    def __init__(self, prop, level):
        self.prop, self.level = prop, level
        self.tier = os.environ.get('VERIF_TIER', 'quick')
        self.seed = int(os.environ.get('VERIF_SEED', '1') or '1')
        self.rng = random.Random('%s-%d' % (prop, self.seed))
        self.t0 = time.time()
        self.scratch = tempfile.mkdtemp(prefix='pgvcheck-%s-' % prop, dir='/tmp')
        atexit.register(self.cleanup)
        signal.signal(signal.SIGTERM, lambda *a: sys.exit(3))
        self.violations, self.known_hits = [], []
        self.cov = {}
        self.samples = []
        self.assumptions = []
        self.known = load_known(prop)
        self.env = dict(os.environ, HOME=os.environ.get('HOME', '/root'), LANG='C.UTF-8', GOTOOLCHAIN='local', GOPROXY='off',
                        GOFLAGS='-mod=readonly', GOMODCACHE='/root/go/pkg/mod', GOPATH='/root/go', CGO_ENABLED='0',
                        GOCACHE=self.p('gocache'), GOTMPDIR=self.p('gotmp'))
        self.env.pop('GOWORK', None)
        os.makedirs(self.p('gotmp'), exist_ok=True)
        self.plugin = None
        self.log('tier=%s seed=%d' % (self.tier, self.seed))
    thorough = property(lambda self: self.tier == 'thorough')
    def p(self, *a): return os.path.join(self.scratch, *a)
    def log(self, *a): print('[%s %6.1fs]' % (self.prop, time.time() - self.t0), *a, flush=True)
    def cleanup(self):
        if self.scratch and os.path.isdir(self.scratch) and not os.environ.get('VERIF_KEEP'):
            shutil.rmtree(self.scratch, ignore_errors=True)
    # ---- verdicts -----------------------------------------------------------
    def violation(self, kind, **data):
        """Report a mismatch between the specification and the real code (unless it is a known finding)."""
        d = dict(kind=kind, **data)
        for k in self.known:
            if matches(k['match'], d):
                if k['id'] not in self.known_hits:
                    self.known_hits.append(k['id'])
                return False
        self.violations.append(d)
        if len(self.violations) <= 5: self.log('MISMATCH', json.dumps(d, default=str, ensure_ascii=False)[:1500])
        return True
    def count(self, key, n=1): self.cov[key] = self.cov.get(key, 0) + n
    def sample(self, s, cap=6):
        if len(self.samples) < cap: self.samples.append(s)
    def finish(self):
        for k in self.known:
            if k['id'] in self.known_hits:
                print('KNOWN-FINDING: property=%s %s' % (self.prop, k['what']), flush=True)
        wall = time.time() - self.t0
        self.cov.setdefault('samples', self.samples)
        ev = {'property': self.prop, 'tier': self.tier, 'seed': self.seed, 'level': self.level, 'coverage': self.cov,
              'assumptions': self.assumptions, 'wall_s': round(wall, 2), 'violations': len(self.violations)}
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', self.prop + '.json'), 'w') as f: json.dump(ev, f, indent=1, default=str, ensure_ascii=False)
        self.log('coverage', json.dumps({k: v for k, v in self.cov.items() if k not in ('samples', 'rule')}, default=str))
        if self.violations:
            d = os.path.join(VERIF, 'evidence', 'replays'); os.makedirs(d, exist_ok=True)
            path = os.path.join(d, '%s-%d.json' % (self.prop, self.seed))
            with open(path, 'w') as f: json.dump({'property': self.prop, 'seed': self.seed, 'tier': self.tier,
                'total': len(self.violations), 'violations': self.violations[:500]}, f, indent=1, default=str, ensure_ascii=False)
            print('VIOLATION property=%s replay=%s' % (self.prop, path), flush=True)
            self.cleanup(); os._exit(1) if False else sys.exit(1)
        self.log('OK'); sys.exit(0)
    # ---- processes ----------------------------------------------------------
    def run(self, cmd, cwd=None, env=None, input=None, timeout=600, check=True, binary=False):
        try:
            r = subprocess.run(cmd, cwd=cwd, env=env or self.env, input=input, timeout=timeout,
                               stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=not binary)
        except subprocess.TimeoutExpired:
            raise ToolError('timeout: %s' % (cmd,))
        if check and r.returncode != 0:
            err = r.stderr if not binary else r.stderr.decode('utf-8', 'replace')
            out = r.stdout if not binary else ''
            raise ToolError('failed (%d): %s\n%s\n%s' % (r.returncode, cmd if isinstance(cmd, str) else ' '.join(map(str, cmd))[:400], out[-3000:], err[-5000:]))
        return r
    # ---- the plugin under test -------------------------------------------------
    def build_plugin(self):
        if self.plugin: return self.plugin
        warm = '/opt/vp/gocache'
        if not os.path.isdir(self.p('gocache')):
            if os.path.isdir(warm):
                try: shutil.copytree(warm, self.p('gocache'))
                except Exception: pass
            os.makedirs(self.p('gocache'), exist_ok=True)
        os.makedirs(self.p('bin'), exist_ok=True)
        self.run(['go', 'build', '-o', self.p('bin/protoc-gen-validate'), '.'], cwd=REPO)
        self.run(['go', 'build', '-o', self.p('bin/protoc-gen-go'), 'google.golang.org/protobuf/cmd/protoc-gen-go'], cwd=REPO)
        self.plugin = self.p('bin/protoc-gen-validate')
        # the proto of the rules is used from the tree under test
        self.log('plugin built')
        return self.plugin
    # ---- TLC --------------------------------------------------------------------
    def tlc(self, module, cfg=None, env=None, workers=None, timeout=800, expect_ok=True, heap='6g', extra=(), dfs=False):
        """Runs TLC; returns (lines printed as JSON strings, stats).  A model that fails its own invariants is a tool error."""
        meta = tempfile.mkdtemp(prefix='tlc-', dir=self.scratch)
        e = dict(self.env)
        e.update({k: str(v) for k, v in (env or {}).items()})
        jopts = ['-XX:+UseParallelGC', '-Xmx' + heap, '-Xss64m']
        cp = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
        cmd = ['java'] + jopts + ['-cp', cp, 'tlc2.TLC', '-workers', str(workers or NCPU), '-metadir', meta, '-noGenerateSpecTE',
               '-config', cfg if cfg and os.path.isabs(cfg) else os.path.join(SPEC, cfg or module + '.cfg')] + list(extra) + [os.path.join(SPEC, module + '.tla')]
        out = self.p('tlc-%s.out' % os.path.basename(meta))
        with open(out, 'w') as f:
            try: r = subprocess.run(cmd, cwd=meta, env=e, stdout=f, stderr=subprocess.STDOUT, timeout=timeout)
            except subprocess.TimeoutExpired: raise ToolError('TLC timeout on %s' % module)
        lines, stats, tail = [], {}, []
        with open(out) as f:
            for ln in f:
                if ln.startswith('"'):
                    try: lines.append(json.loads(json.loads(ln)))
                    except ValueError:
                        raise ToolError('unreadable TLC line: ' + ln[:200])
                else:
                    tail.append(ln)
                    if 'states generated,' in ln and 'distinct states found' in ln:
                        w = ln.replace(',', '').split()
                        stats = {'states': int(w[3]), 'transitions': int(w[0])}
        ok = any('No error has been found' in l for l in tail)
        if expect_ok and not ok:
            raise ToolError('TLC failed on %s:\n%s' % (module, ''.join(tail[-40:])))
        shutil.rmtree(meta, ignore_errors=True); os.unlink(out)
        self.count('states', stats.get('states', 0)); self.count('transitions', stats.get('transitions', 0))
        return lines, dict(stats, ok=ok, tail=tail)

def matches(pat, d):
    """pat is a subset of d (recursively for dicts; lists in pat mean 'one of')."""
    for k, v in pat.items():
        if k not in d: return False
        x = d[k]
        if isinstance(v, dict):
            if not isinstance(x, dict) or not matches(v, x): return False
        elif isinstance(v, list):
            if x not in v: return False
        elif x != v: return False
    return True

def load_known(prop):
    p = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(p): return []
    return [k for k in json.load(open(p))['findings'] if k['property'] == prop]

def pmap(fn, items, n=None):
    with ThreadPoolExecutor(n or NCPU) as ex: return list(ex.map(fn, items))

def main(prop, level, body):
    run = Run(prop, level)
    try:
        body(run)
    except ToolError as e:
        print('ERROR (no verdict): %s' % e, flush=True); run.cleanup(); sys.exit(2)
    except SystemExit: raise
    except BaseException:
        import traceback; traceback.print_exc(); run.cleanup(); sys.exit(2)
    run.finish()
