"""Generates and compiles C++ validators + driver from protoir Files, and runs requests through it."""
import os, re, shutil
from common import *
from protoir import *

# Everything generated files include (and what the driver needs), compiled once per run.
PCH = '''#include "reg.h"
#include <google/protobuf/message.h>
#include <google/protobuf/util/time_util.h>
#include <google/protobuf/any.pb.h>
#include <google/protobuf/duration.pb.h>
#include <google/protobuf/timestamp.pb.h>
#include <google/protobuf/wrappers.pb.h>
#include <google/protobuf/wire_format.h>
#include <google/protobuf/map.h>
#include <google/protobuf/map_entry.h>
#include <google/protobuf/map_field_inl.h>
#include <google/protobuf/generated_message_reflection.h>
#include <google/protobuf/reflection_ops.h>
#include <google/protobuf/extension_set.h>
#include <google/protobuf/repeated_field.h>
#include <google/protobuf/generated_enum_reflection.h>
#include <google/protobuf/unknown_field_set.h>
#include "re2/re2.h"
#include <algorithm>
#include <string>
#include <sstream>
#include <unordered_set>
#include <vector>
#include "validate/validate.pb.h"
#include "validate/validate.h"
'''
class CcWS:
    # fast: a precompiled header and protobuf messages that work by reflection; both only shorten compilation.
    # What generated files include by themselves is C09's question, which compiles them without this.
    CXX = ['clang++', '-std=c++14', '-O0', '-w', '-fno-caret-diagnostics']
    LIBS = ['-lprotobuf', '-lre2', '-lpthread']
    def __init__(self, run, name='cc', tsan=False, fast=True):
        self.flags = ['-O1', '-fsanitize=thread', '-g'] if tsan else []
        self.fast = fast = fast and not tsan
        if not fast: self.CXX = ['g++', '-std=c++14', '-O0', '-w', '-fno-diagnostics-show-caret']
        self.run, self.dir = run, run.p(name)
        run.build_plugin()
        os.makedirs(self.dir + '/protos', exist_ok=True); os.makedirs(self.dir + '/src/validate', exist_ok=True); os.makedirs(self.dir + '/obj', exist_ok=True)
        shutil.copy(REPO + '/validate/validate.h', self.dir + '/src/validate/')
        for f in ('driver.h', 'reg.h', 'driver.cc'): shutil.copy(VERIF + '/drivers/cc/' + f, self.dir + '/src/')
        run.run(['protoc', '-I', REPO, '--cpp_out=' + self.dir + '/src', 'validate/validate.proto'])
        self.files = []
        if fast:
            with open(self.dir + '/src/pch.h', 'w') as h: h.write(PCH)
            self.pch = ThreadPoolExecutor(1).submit(run.run, self.CXX + self.flags + ['-I' + self.dir + '/src', '-x', 'c++-header', '-fpch-instantiate-templates',
                                                    '-o', self.dir + '/src/pch.h.pch', self.dir + '/src/pch.h'])
    def add(self, f):
        self.files.append(f)
        p = os.path.join(self.dir, 'protos', f.path); os.makedirs(os.path.dirname(p), exist_ok=True)
        src = f.source()
        if self.fast: src = src.replace(';\n', ';\noption optimize_for = CODE_SIZE;\n', 1) if not f.package else src.replace('package ', 'option optimize_for = CODE_SIZE;\npackage ', 1)
        with open(p, 'w') as h: h.write(src)
    def protoc(self, files):
        r = self.run.run(['protoc', '-I', self.dir + '/protos', '-I', REPO, '--plugin=protoc-gen-validate=' + self.run.plugin,
              '--cpp_out=' + self.dir + '/src', '--validate_out=lang=cc:' + self.dir + '/src'] + [f.path for f in files], check=False)
        return r.returncode == 0, r.stderr
    def generate(self):
        bad = []
        groups = [self.files[i::NCPU] for i in range(NCPU)]
        res = pmap(lambda g: self.protoc(g) if g else (True, ''), groups)
        for g, (ok, err) in zip(groups, res):
            if ok: continue
            for f in g:
                ok1, e1 = self.protoc([f])
                if not ok1: bad.append((f, e1))
        return bad
    def reg_source(self, f):
        base = f.path[:-6]
        hdr = open(self.dir + '/src/' + base + '.pb.validate.h').read()
        m = re.search(r'#define\s+(X_\w+)\(X\)', hdr)
        if not m: raise ToolError('no X_ macro in generated header of ' + f.path)
        mac = m.group(1)
        return '''#include "reg.h"
#include "%s.pb.validate.h"
namespace { struct Reg { Reg() {
#define ADD(C) table()[C::descriptor()->full_name()] = [](const std::string& b) { \\
  return Make<C>(b, static_cast<bool(*)(const C&, pgv::ValidationMsg*)>(%s::Validate)); };
%s(ADD)
} } reg; }
''' % (base, ('::' + f.package.replace('.', '::') if f.package else ''), mac)
    def compile_all(self):
        """compiles every file; returns list of (file, stderr) that fail"""
        jobs = []
        for f in self.files:
            base = f.path[:-6]; flat = base.replace('/', '_')
            with open(self.dir + '/src/reg_%s.cc' % flat, 'w') as h:
                h.write('#include "%s.pb.cc"\n#include "%s.pb.validate.cc"\n' % (base, base) + self.reg_source(f))
            jobs.append((f, 'reg_%s.cc' % flat, 'obj/%s.o' % flat))
        jobs.append((None, 'validate/validate.pb.cc', 'obj/validate_pb.o')); jobs.append((None, 'driver.cc', 'obj/driver.o'))
        inc = []
        if self.fast: self.pch.result(); inc = ['-include-pch', self.dir + '/src/pch.h.pch']
        def one(j):
            f, src, obj = j
            r = self.run.run(self.CXX + self.flags + (inc if f else []) + ['-I' + self.dir + '/src', '-c', '-o', self.dir + '/' + obj, self.dir + '/src/' + src], check=False)
            return (f, r.returncode, r.stderr)
        bad = []
        for f, rc, err in pmap(one, jobs):
            if rc:
                if f is None: raise ToolError('C++ driver: ' + err[-3000:])
                bad.append((f, err))
        self.badfiles = {id(f) for f, _ in bad}
        return bad
    def link(self):
        objs = ['obj/validate_pb.o', 'obj/driver.o'] + ['obj/%s.o' % f.path[:-6].replace('/', '_') for f in self.files if id(f) not in self.badfiles]
        self.run.run([self.CXX[0]] + self.flags + ['-o', 'driver'] + objs + self.LIBS, cwd=self.dir)
    def ask(self, reqs, env=None):
        def line(i, q):
            if 'objs' in q:
                return '%d H %d %s %s' % (i, len(q['objs']), ' '.join('%s %s' % (o['m'], o['b'].hex() or '-') for o in q['objs']),
                                          ' '.join('b %d %d' % (e[1], e[2]) if e[0] == 'b' else 'e %d' % e[1] for e in q['ev']))
            return '%d %s %s' % (i, q['m'], q['b'].hex())
        lines = [line(i, q) for i, q in enumerate(reqs)]; self.stderr = ''
        n = NCPU
        def one(w):
            """a call that brings the process down answers C; the rest is asked of a new process"""
            todo, out, crashes = lines[w::n], [], 0
            while todo:
                r = self.run.run([self.dir + '/driver'], input='\n'.join(todo) + '\n', check=False, env=dict(self.run.env, **(env or {})))
                self.stderr += r.stderr
                got = r.stdout.split('\n')[:-1]; out += got
                if r.returncode == 0: break
                todo = todo[len(got):]; crashes += 1
                why = ('exit %d: ' % r.returncode + r.stderr[-1500:]).encode().hex()
                dead = todo[:1] if crashes < 4 else todo
                out += ['%s C 0 %s' % (l.split(' ', 1)[0], why) for l in dead]; todo = todo[len(dead):]
            return out
        res = [None] * len(reqs)
        def read(out):
            for l in out:
                p = l.split(' ')
                try:
                    if p[1] == 'H':
                        v = {'r': 'H', 'mut': p[2] == '1', 'res': [(x[0], bytes.fromhex(x[1:]).decode('utf-8', 'replace')) for x in p[3].split(';') if x]}
                    else:
                        v = {'r': p[1], 'mut': p[2] == '1', 'res': [], 'msg': bytes.fromhex(p[3] if len(p) > 3 else '').decode('utf-8', 'replace')}
                    yield int(p[0]), v
                except (ValueError, IndexError): pass          # a line garbled by a damaged process: no answer
        for out in pmap(one, [w for w in range(n) if lines[w::n]]):
            for i, v in read(out):
                if 0 <= i < len(res): res[i] = v
        for i, x in enumerate(res):
            if x is not None and x['r'] not in ('P', 'N'): continue
            # no usable answer: if a process of its own gives one, the calls before it damaged the process
            r = self.run.run([self.dir + '/driver'], input=lines[i] + '\n', check=False, env=dict(self.run.env, **(env or {})))
            alone = dict(read(r.stdout.split('\n')[:-1])).get(i)
            if alone is None and r.returncode == 0 or alone is not None and alone['r'] in ('P', 'N'):
                raise ToolError('C++ driver could not run %s: %s, alone %s' % (lines[i][:2000], x, alone))
            res[i] = {'r': 'C', 'mut': False, 'res': [], 'msg': 'answered %s after other calls in the same process, %s alone' % (x and x['r'], alone and alone['r'])}
        return res

ERR = re.compile(r'^(?:invalid )?(key for )?(\w+)ValidationError\.(\w+)(.*)$', re.S)
def cc_field(msg):
    """name (Go form) of the field or oneof a C++ validation message is about"""
    m = ERR.match(msg)
    if m: return m.group(3)
    m = re.match(r'^field: \\?"?(\w+)', msg)
    return camel(m.group(1)) if m else '?'
