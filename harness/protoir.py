"""Proto intermediate representation: proto source text, wire encoding."""
import struct

WT = {'int32':0,'int64':0,'uint32':0,'uint64':0,'sint32':0,'sint64':0,'bool':0,'enum':0,
      'fixed64':1,'sfixed64':1,'double':1,'string':2,'bytes':2,'msg':2,'fixed32':5,'sfixed32':5,'float':5}
NUMERIC = ['float','double','int32','int64','uint32','uint64','sint32','sint64','fixed32','fixed64','sfixed32','sfixed64']
WRAPPER = {'float':'FloatValue','double':'DoubleValue','int32':'Int32Value','int64':'Int64Value','uint32':'UInt32Value',
           'uint64':'UInt64Value','bool':'BoolValue','string':'StringValue','bytes':'BytesValue'}
WKT_IMPORT = {'Any':'any','Duration':'duration','Timestamp':'timestamp'}
WKT_IMPORT.update({w:'wrappers' for w in WRAPPER.values()})
WKT_IMPORT.update({'Struct':'struct','Empty':'empty'})

class Raw(str):
    """text emitted unquoted in an option (enum identifiers, inf, ...)"""

def quote_bytes(b):
    out = ['"']
    for c in b:
        if 32 <= c < 127 and c not in (34, 92): out.append(chr(c))
        else: out.append('\\%03o' % c)
    return ''.join(out) + '"'

def render_float(x):
    if x != x: return 'nan'
    if x == float('inf'): return 'inf'
    if x == float('-inf'): return '-inf'
    return repr(float(x))

def text(v):
    """text-format rendering of a rule value"""
    if isinstance(v, bool): return 'true' if v else 'false'
    if isinstance(v, Raw): return str(v)
    if isinstance(v, str): return quote_bytes(v.encode('utf-8'))
    if isinstance(v, bytes): return quote_bytes(v)
    if isinstance(v, int): return str(v)
    if isinstance(v, float): return render_float(v)
    if isinstance(v, dict):
        return '{' + ', '.join(text_field(k, x) for k, x in v.items()) + '}'
    raise TypeError(type(v))

def text_field(k, v):
    if isinstance(v, (list, tuple)):
        return '%s: [%s]' % (k, ', '.join(text(x) for x in v))
    return '%s: %s' % (k, text(v))

class Field:
    def __init__(self, name, num, type, card='', key=None, ref=None, rules=None, oneof=None, default=None, opts=None):
        self.name, self.num, self.type, self.card, self.key, self.ref = name, num, type, card, key, ref
        self.rules, self.oneof, self.default, self.opts = rules, oneof, default, opts
    def typename(self):
        return '.' + self.ref if self.type in ('msg', 'enum') else self.type
    def decl(self):
        t = self.typename()
        if self.card == 'map': t = 'map<%s, %s>' % (self.key, t)
        elif self.card in ('repeated', 'optional', 'required'): t = self.card + ' ' + t
        opts = list(self.opts or [])
        if self.default is not None: opts.append('default = ' + text(self.default))
        for k, v in (self.rules or {}).items():
            opts.append('(validate.rules).%s = %s' % (k, text(v)))
        return '%s %s = %d%s;' % (t, self.name, self.num, (' [' + ', '.join(opts) + ']') if opts else '')
    def go(self): return camel(self.name)

def camel(s):
    """pgsgo.PGGUpperCamelCase for the simple names the harness uses"""
    if s[0] == '_': return 'X' + ''.join(p[:1].upper() + p[1:] for p in s.split('_'))
    out, up = '', True
    for i, c in enumerate(s):
        if c == '_' and i + 1 < len(s) and s[i+1].islower(): up = True; continue
        if c.isdigit(): out += c; up = True; continue
        out += c.upper() if up and c.islower() else c
        up = False
    return out

class Enum:
    def __init__(self, name, values, alias=False): self.name, self.values, self.alias = name, values, alias
    def decl(self, ind):
        s = ind + 'enum %s {%s\n' % (self.name, ' option allow_alias = true;' if self.alias else '')
        for n, v in self.values: s += ind + '  %s = %d;\n' % (n, v)
        return s + ind + '}\n'

class Message:
    def __init__(self, name, fields=None, oneofs=None, disabled=None, ignored=None, msgs=None, enums=None):
        self.name, self.fields, self.oneofs = name, fields or [], oneofs or {}   # oneofs: name -> required (None/True/False)
        self.disabled, self.ignored, self.msgs, self.enums = disabled, ignored, msgs or [], enums or []
    def field(self, name): return next(f for f in self.fields if f.name == name)
    def decl(self, ind=''):
        s = ind + 'message %s {\n' % self.name; i2 = ind + '  '
        if self.disabled is not None: s += i2 + 'option (validate.disabled) = %s;\n' % text(self.disabled)
        if self.ignored is not None: s += i2 + 'option (validate.ignored) = %s;\n' % text(self.ignored)
        for e in self.enums: s += e.decl(i2)
        for m in self.msgs: s += m.decl(i2)
        for o, req in self.oneofs.items():
            s += i2 + 'oneof %s {\n' % o
            if req is not None: s += i2 + '  option (validate.required) = %s;\n' % text(req)
            for f in self.fields:
                if f.oneof == o: s += i2 + '  ' + f.decl() + '\n'
            s += i2 + '}\n'
        for f in self.fields:
            if not f.oneof: s += i2 + f.decl() + '\n'
        return s + ind + '}\n'

class File:
    def __init__(self, path, package, messages=None, enums=None, imports=None, syntax='proto3', gopkg=None, options=None):
        self.path, self.package, self.messages, self.enums = path, package, messages or [], enums or []
        self.imports, self.syntax, self.gopkg, self.options = imports or [], syntax, gopkg, options or []
    def refs(self):
        out = set()
        def walk(m):
            for f in m.fields:
                if f.ref and f.ref.startswith('google.protobuf.'): out.add(WKT_IMPORT[f.ref.split('.')[-1]])
            for n in m.msgs: walk(n)
        for m in self.messages: walk(m)
        return sorted(out)
    def source(self):
        s = 'syntax = "%s";\n' % self.syntax
        if self.package: s += 'package %s;\n' % self.package
        if self.gopkg: s += 'option go_package = "%s";\n' % self.gopkg
        for o in self.options: s += 'option %s;\n' % o
        s += 'import "validate/validate.proto";\n'
        for i in self.imports: s += 'import "%s";\n' % i
        for w in self.refs(): s += 'import "google/protobuf/%s.proto";\n' % w
        for e in self.enums: s += e.decl('')
        for m in self.messages: s += m.decl()
        return s
    def all_messages(self):
        out = []
        def walk(m, prefix):
            n = prefix + m.name; out.append((n, m))
            for c in m.msgs: walk(c, n + '.')
        for m in self.messages: walk(m, (self.package + '.') if self.package else '')
        return out

# ---- wire encoding ---------------------------------------------------------
def varint(n):
    n &= (1 << 64) - 1
    out = bytearray()
    while True:
        b = n & 0x7f; n >>= 7
        if n: out.append(b | 0x80)
        else: out.append(b); return bytes(out)
def zigzag(n, bits=64): return ((n << 1) ^ (n >> (bits - 1))) & ((1 << bits) - 1)

def enc_scalar(t, v):
    if t in ('int32','int64','uint32','uint64','enum'): return varint(v)
    if t == 'bool': return varint(1 if v else 0)
    if t == 'sint32': return varint(zigzag(v, 32))
    if t == 'sint64': return varint(zigzag(v, 64))
    if t == 'fixed32': return struct.pack('<I', v)
    if t == 'sfixed32': return struct.pack('<i', v)
    if t == 'fixed64': return struct.pack('<Q', v)
    if t == 'sfixed64': return struct.pack('<q', v)
    if t == 'float': return struct.pack('<f', v)
    if t == 'double': return struct.pack('<d', v)
    if t == 'string':
        b = v.encode('utf-8') if isinstance(v, str) else v
        return varint(len(b)) + b
    if t == 'bytes': return varint(len(v)) + v
    if t == 'msg': return varint(len(v)) + v        # already-encoded bytes
    raise ValueError(t)

def enc_field(num, t, v): return varint(num << 3 | WT[t]) + enc_scalar(t, v)

def wrap_value(scalar, v):
    """encoding of a google.protobuf wrapper holding v"""
    return enc_field(1, scalar, v)
def dur_value(sec, nanos):
    return (enc_field(1, 'int64', sec) if sec else b'') + (enc_field(2, 'int32', nanos) if nanos else b'')
def any_value(url, data=b''): return (enc_field(1, 'string', url) if url else b'') + (enc_field(2, 'bytes', data) if data else b'')

def encode(msg, vals):
    """vals: {field name: concrete value}; messages are given as encoded bytes; absent key = unset."""
    out = b''
    for f in msg.fields:
        if f.name not in vals: continue
        v = vals[f.name]
        if f.card == 'repeated':
            for x in v: out += enc_field(f.num, f.type, x)
        elif f.card == 'map':
            for k, x in v:
                out += enc_field(f.num, 'msg', enc_field(1, f.key, k) + enc_field(2, f.type, x))
        else:
            out += enc_field(f.num, f.type, v)
    return out
