"""Helpers for the demonstrations: everything is written below a temporary directory that is removed at the end."""
import os, shutil, subprocess, sys, tempfile
REPO = os.getcwd()
HERE = os.path.dirname(os.path.abspath(__file__))
PGV = 'github.com/envoyproxy/protoc-gen-validate'
GOOGLE = {'any': 'anypb', 'duration': 'durationpb', 'struct': 'structpb', 'timestamp': 'timestamppb', 'wrappers': 'wrapperspb', 'empty': 'emptypb'}
MP = ','.join(['Mvalidate/validate.proto=%s/validate' % PGV] +
              ['Mgoogle/protobuf/%s.proto=google.golang.org/protobuf/types/known/%s' % kv for kv in GOOGLE.items()] +
              ['Mgoogle/protobuf/descriptor.proto=google.golang.org/protobuf/types/descriptorpb'])
W = tempfile.mkdtemp(prefix='pgvdemo-')
ENV = dict(os.environ, HOME='/root', LANG='C.UTF-8', GOTOOLCHAIN='local', GOPROXY='off', GOFLAGS='-mod=mod', GOMODCACHE='/root/go/pkg/mod',
           GOPATH='/root/go', CGO_ENABLED='0', GOCACHE=os.environ.get('DEMO_GOCACHE', '/opt/vp/gocache'))
ENV.pop('GOWORK', None)

def sh(cmd, cwd=None, inp=None, must=True):
    r = subprocess.run(cmd, cwd=cwd or W, env=ENV, input=inp, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=280)
    if must and r.returncode: done(3, 'cannot run %s\n%s' % (' '.join(cmd)[:300], r.stdout[-4000:]))
    return r

def done(code, msg=''):
    print(msg); shutil.rmtree(W, ignore_errors=True); sys.exit(code)

def plugin():
    p = W + '/bin/protoc-gen-validate'
    if not os.path.exists(p):
        os.makedirs(W + '/bin', exist_ok=True)
        e = dict(ENV, GOFLAGS='-mod=readonly')
        for o, pk in ((p, '.'), (W + '/bin/protoc-gen-go', 'google.golang.org/protobuf/cmd/protoc-gen-go')):
            r = subprocess.run(['go', 'build', '-o', o, pk], cwd=REPO, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if r.returncode: done(3, r.stdout)
    return p

def protos(files):
    for n, t in files.items():
        os.makedirs(os.path.dirname(W + '/p/' + n), exist_ok=True)
        open(W + '/p/' + n, 'w').write(t)

def generate(files, lang, out, extra='', names=None, must=True):
    """runs the plugin alone; returns the finished process"""
    protos(files); os.makedirs(out, exist_ok=True)
    return sh(['protoc', '-I', W + '/p', '-I', REPO, '--plugin=protoc-gen-validate=' + plugin(),
               '--validate_out=lang=%s%s:%s' % (lang, extra and ',' + extra or '', out)] + (names or list(files)), must=must)

def go(files, main, race=False):
    """generates Go code for files (go_package demo/gen...), builds main.go against it and runs it"""
    plugin(); protos(files)
    gm = open(REPO + '/go.mod').read().split('require', 1)[1]
    open(W + '/go.mod', 'w').write('module demo\n\ngo 1.17\n\nrequire %s v0.0.0\n\nreplace %s => %s\n\nrequire%s' % (PGV, PGV, REPO, gm))
    sums = set(open(REPO + '/go.sum').read().split('\n'))
    for x in ('/opt/vp/tests.extra.sum', REPO + '/tests/go.sum'):
        if os.path.exists(x): sums |= set(open(x).read().split('\n'))
    open(W + '/go.sum', 'w').write('\n'.join(sorted(s for s in sums if s)) + '\n')
    sh(['protoc', '-I', W + '/p', '-I', REPO, '--plugin=protoc-gen-go=' + W + '/bin/protoc-gen-go', '--plugin=protoc-gen-validate=' + plugin(),
        '--go_out=module=demo,' + MP + ':' + W, '--validate_out=module=demo,' + MP + ',lang=go:' + W] + list(files))
    os.makedirs(W + '/cmd', exist_ok=True); open(W + '/cmd/main.go', 'w').write(main)
    if race: ENV['CGO_ENABLED'] = '1'
    r = sh(['go', 'build'] + (['-race'] if race else []) + ['-o', W + '/demo', './cmd'], must=False)
    if r.returncode: done(1, 'does not build:\n' + r.stdout[-3000:])
    r = sh([W + '/demo'], must=False); done(1 if r.returncode else 0, r.stdout[-3000:])

def cc(files, main, flags=()):
    plugin(); protos(files); src = W + '/src'; os.makedirs(src + '/validate', exist_ok=True)
    shutil.copy(REPO + '/validate/validate.h', src + '/validate/')
    sh(['protoc', '-I', REPO, '--cpp_out=' + src, 'validate/validate.proto'])
    sh(['protoc', '-I', W + '/p', '-I', REPO, '--plugin=protoc-gen-validate=' + plugin(), '--cpp_out=' + src, '--validate_out=lang=cc:' + src] + list(files))
    open(src + '/main.cc', 'w').write(main)
    srcs = ['main.cc', 'validate/validate.pb.cc'] + [n[:-6] + x for n in files for x in ('.pb.cc', '.pb.validate.cc')]
    r = sh(['g++', '-std=c++14', '-O0', '-w', '-I', src] + list(flags) + [src + '/' + s for s in srcs] + ['-o', W + '/demo', '-lprotobuf', '-lre2', '-lpthread'], must=False)
    if r.returncode: done(1, 'does not compile:\n' + r.stdout[-3000:])
    r = sh([W + '/demo'], must=False); done(1 if r.returncode else 0, r.stdout[-3000:])

JLIB = '/opt/veriftools/apalache-0.58.0/lib/apalache.jar'      # protobuf-java, gson, guava and grpc are in there
def java(main, files=None, extra=None, cls='Main'):
    """compiles the Java runtime, the classes and validators generated for files, the stand-ins beside this file (Stub*.java, for
    libraries that are not installed) and main, and runs it"""
    import glob, re
    out, src = W + '/jclasses', W + '/jsrc'; os.makedirs(out); os.makedirs(src)
    def put(text, name):
        m = re.search(r'^package ([\w.]+);', text, re.M); d = src + '/' + (m.group(1).replace('.', '/') if m else '')
        os.makedirs(d, exist_ok=True); open(d + '/' + name, 'w').write(text)
    for p in glob.glob(HERE + '/Stub*.java'): put(open(p).read(), os.path.basename(p)[4:])
    for n, t in (extra or {}).items(): put(t, n)
    put(main, cls + '.java')
    sh(['protoc', '-I', REPO, '--java_out=' + src, 'validate/validate.proto'])
    if files:
        plugin(); protos(files)
        r = sh(['protoc', '-I', W + '/p', '-I', REPO, '--plugin=protoc-gen-validate=' + plugin(), '--java_out=' + src, '--validate_out=lang=java:' + src] + list(files), must=False)
        if r.returncode: done(1, 'cannot be generated:\n' + r.stdout[-3000:])
    srcs = glob.glob(src + '/**/*.java', recursive=True)
    for m in ('pgv-java-stub', 'pgv-java-grpc'): srcs += glob.glob(REPO + '/java/%s/src/main/**/*.java' % m, recursive=True)
    r = sh(['javac', '-nowarn', '-proc:none', '-encoding', 'UTF-8', '-cp', JLIB, '-d', out] + srcs, must=False)
    if r.returncode: done(1, 'does not compile:\n' + r.stdout[-3000:])
    r = sh(['java', '-Dfile.encoding=UTF-8', '-cp', out + ':' + JLIB, cls], must=False); done(1 if r.returncode else 0, r.stdout[-3000:])
