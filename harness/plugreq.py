"""Talks to a protoc plugin directly: CodeGeneratorRequest in, CodeGeneratorResponse out."""
import os, subprocess
from common import *

def varint(n):
    out = b''
    while True:
        b = n & 127; n >>= 7
        if n: out += bytes([b | 128])
        else: return out + bytes([b])
def ld(num, data): return varint(num << 3 | 2) + varint(len(data)) + data
def parse(data):
    i, out = 0, []
    def rd():
        nonlocal i
        s = n = 0
        while True:
            b = data[i]; i += 1; n |= (b & 127) << s; s += 7
            if b < 128: return n
    while i < len(data):
        t = rd(); k = t & 7
        if k == 0: out.append((t >> 3, rd()))
        elif k == 2: n = rd(); out.append((t >> 3, data[i:i + n])); i += n
        elif k == 1: out.append((t >> 3, data[i:i + 8])); i += 8
        elif k == 5: out.append((t >> 3, data[i:i + 4])); i += 4
        else: raise ToolError('bad wire type')
    return out
VERSION = ld(3, varint(1 << 3) + varint(3) + varint(2 << 3) + varint(21) + varint(3 << 3) + varint(12))
class Protos:
    """the descriptors protoc makes of a tree of .proto files"""
    def __init__(self, run, d, paths, extra=()):
        r = run.run(['protoc', '-I', d, '-I', REPO, '--include_imports', '--descriptor_set_out=' + d + '/.set'] + list(extra) + paths, check=False)
        self.err = r.stderr if r.returncode else None
        self.run = run
        if self.err: return
        with open(d + '/.set', 'rb') as f: data = f.read()
        self.files = {}                       # path -> (descriptor bytes, imports), in topological order
        for n, v in parse(data):
            fs = parse(v); self.files[[x for k, x in fs if k == 1][0].decode()] = (v, [x.decode() for k, x in fs if k == 3])
    def closure(self, targets):
        seen = set()
        def walk(p):
            if p in seen: return
            seen.add(p)
            for q in self.files[p][1]: walk(q)
        for t in targets: walk(t)
        return seen
    def order(self, rng, within):
        """a topological order of the given files, drawn at random"""
        left, out = sorted(within), []
        while left:
            ready = [p for p in left if all(q in out for q in self.files[p][1])]
            p = rng.choice(ready); left.remove(p); out.append(p)
        return out
    def ask(self, targets, param, order=None, plugin=None):
        """-> (error or None, [(name, content)])"""
        if order is None: c = self.closure(targets); order = [p for p in self.files if p in c]
        req = b''.join(ld(1, t.encode()) for t in targets) + ld(2, param.encode()) + VERSION + b''.join(ld(15, self.files[p][0]) for p in order)
        r = self.run.run([plugin or self.run.plugin], input=req, binary=True, check=False, timeout=120)
        if r.returncode: return 'exit %d: %s' % (r.returncode, r.stderr.decode('utf-8', 'replace')[-500:]), []
        err, files = None, []
        for n, v in parse(r.stdout):
            if n == 1: err = v.decode('utf-8', 'replace')
            if n == 15:
                d = dict(parse(v)); files.append((d.get(1, b'').decode(), d.get(15, b'')))
        return err, files
