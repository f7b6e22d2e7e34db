"""Proto files for the worlds of MC_World: where types live, names, layout, literals."""
from protoir import *

class Text:
    """a proto file given by its text"""
    def __init__(self, path, text, gopkg, package=''): self.path, self.text, self.gopkg, self.package = path, text, gopkg, package
    def source(self): return self.text

def head(syntax, pkg, gopkg, imports=(), validate=True, opts=()):
    s = 'syntax = "%s";\n' % syntax
    if pkg: s += 'package %s;\n' % pkg
    s += 'option go_package = "%s";\n' % gopkg
    for o in opts: s += 'option %s;\n' % o
    if validate: s += 'import "validate/validate.proto";\n'
    for i in imports: s += 'import %s;\n' % (i if i.startswith('public') else '"%s"' % i)
    return s

# ---- where types live --------------------------------------------------------------
def enum_text(name, pre): return 'enum %s { %s_ZERO = 0; %s_ONE = 1; %s_FIVE = 5; }\n' % (name, pre, pre, pre)
def type_rule(w):
    """the field's rules in text form"""
    if w['ref'] == 'enum':
        r = {'none': '', 'const': 'const: 1', 'defined_only': 'defined_only: true', 'in': 'in: [0, 1]', 'not_in': 'not_in: [5, 7]', 'in_defined': 'defined_only: true, in: [0, 5]'}[w['rule']]
        r = 'enum: {%s}' % r if r else ''
    else: r = {'none': '', 'required': 'message: {required: true}', 'skip': 'message: {skip: true}'}[w['rule']]
    if w['pos'] in ('item', 'value'):
        parts = []
        if r: parts.append(('items' if w['pos'] == 'item' else 'values') + ': {%s}' % r)
        e = w['extra']
        if e == 'min': parts.append('min_items: 1' if w['pos'] == 'item' else 'min_pairs: 1')
        elif e: parts.append(e + ': true')
        r = ('repeated' if w['pos'] == 'item' else 'map') + ': {%s}' % ', '.join(parts) if parts else ''
    return '{%s}' % r if r else ''
def type_files(ws, tag, gen='pgvx/gen/'):
    """files for type worlds of one home and one syntax: (user file first, files it needs)"""
    home, syntax = ws[0]['home'], ws[0]['syntax']
    pkg, gopkg = tag, gen + tag
    opt = 'optional ' if syntax == 'proto2' else ''
    files, imports, pre = [], [], ''
    names = {'enum': 'E', 'msg': 'Sub'}
    defs = enum_text('E', 'E') + 'message Sub { %sstring s = 1 [(validate.rules).string.min_len = 2]; }\n' % opt
    body = ''
    if home == 'here': body += defs
    elif home in ('sibling', 'in_disabled', 'in_ignored'):
        o = {'sibling': '', 'in_disabled': 'option (validate.disabled) = true;', 'in_ignored': 'option (validate.ignored) = true;'}[home]
        body += 'message H { %s\n%s}\n' % (o, defs); names = {'enum': 'H.E', 'msg': 'H.Sub'}
    elif home == 'inner': pass
    else:
        opkg, ogo = tag, gopkg
        if home in ('otherproto', 'other', 'nested_other', 'public'): opkg = tag + '_o.sub'
        if home in ('othergo', 'other', 'nested_other', 'public'): ogo = gen + tag + '/types'
        odefs = defs
        if home == 'nested_other': odefs = 'message Outer { message Mid {\n%s} }\n' % defs
        path = tag + '_types.proto'
        files.append(Text(path, head(syntax, opkg, ogo) + odefs, ogo, opkg))
        q = '.' + opkg + ('.Outer.Mid' if home == 'nested_other' else '')
        names = {'enum': q + '.E', 'msg': q + '.Sub'}
        if home == 'public':
            files.append(Text(tag + '_via.proto', head(syntax, tag + '_v', gen + tag + '/via', ['public "%s"' % path]) + 'message Via {}\n', gen + tag + '/via', tag + '_v')); path = tag + '_via.proto'
        imports.append(path)
    for i, w in enumerate(ws):
        t = names[w['ref']]; r = type_rule(w); r = ' [(validate.rules) = %s]' % r if r else ''
        fld = {'field': opt + '%s f = 1%s;' % (t, r), 'oneof': 'oneof o { %s f = 1%s; }' % (t, r), 'item': 'repeated %s f = 1%s;' % (t, r), 'value': 'map<string, %s> f = 1%s;' % (t, r)}[w['pos']]
        body += 'message W%d { %s%s }\n' % (i, defs if home == 'inner' else '', fld)
    return [Text(tag + '.proto', head(syntax, pkg, gopkg, imports) + body, gopkg, pkg)] + files

# ---- names ---------------------------------------------------------------------------
TABLE = {  # rule name -> (type, card, key, rules text)
 'in_string': ('string %s', 'string: {in: ["a", "b"]}'), 'not_in_int': ('int32 %s', 'int32: {not_in: [1, 2]}'), 'pattern': ('string %s', 'string: {pattern: "a+"}'),
 'in_enum': ('E %s', 'enum: {in: [0, 1]}'), 'uuid': ('string %s', 'string: {uuid: true}'), 'hostname': ('string %s', 'string: {hostname: true}'), 'email': ('string %s', 'string: {email: true}'),
 'in_double': ('double %s', 'double: {in: [1.5, 2]}'), 'not_in_bytes': ('bytes %s', 'bytes: {not_in: ["a", "b"]}'), 'in_any': ('google.protobuf.Any %s', 'any: {in: ["a", "b"]}'),
 'in_duration': ('google.protobuf.Duration %s', 'duration: {in: [{seconds: 1}], required: true}'), 'ts_within': ('google.protobuf.Timestamp %s', 'timestamp: {lt_now: true, within: {seconds: 5}}'),
 'items_in': ('repeated string %s', 'repeated: {items: {string: {in: ["a"]}}}'), 'items_pattern': ('repeated string %s', 'repeated: {items: {string: {pattern: "a"}}}'),
 'keys_in': ('map<string, string> %s', 'map: {keys: {string: {in: ["a"]}}}'), 'values_in': ('map<string, int32> %s', 'map: {values: {int32: {in: [1]}}}'),
 'keys_values_in': ('map<string, string> %s', 'map: {keys: {string: {in: ["a"], min_len: 1}}, values: {string: {not_in: ["b"]}}}'),
 'unique': ('repeated string %s', 'repeated: {unique: true, min_items: 1}'), 'unique_enum': ('repeated E %s', 'repeated: {unique: true}'),
 'wrapper_in': ('google.protobuf.StringValue %s', 'string: {in: ["a"]}'), 'message': ('Sub %s', 'message: {required: true}'), 'const': ('int64 %s', 'int64: {const: 4}')}
WELL = ['google/protobuf/any.proto', 'google/protobuf/duration.proto', 'google/protobuf/timestamp.proto', 'google/protobuf/wrappers.proto']
SUBS = 'enum E { E_ZERO = 0; E_ONE = 1; }\nmessage Sub { string s = 1 [(validate.rules).string.min_len = 2]; }\n'
def fld(name, rule, num=1):
    t, r = TABLE[rule]; return '%s = %d [(validate.rules) = {%s}];' % (t % name, num, r)
def name_field_file(ws, tag, gen='pgvx/gen/'):
    body = SUBS + ''.join('message W%d { %s }\n' % (i, fld(w['name'], w['rule'])) for i, w in enumerate(ws))
    return [Text(tag + '.proto', head('proto3', tag, gen + tag, WELL) + body, gen + tag, tag)]
def name_file(w, tag, gen='pgvx/gen/'):
    if w['what'] == 'message': body = 'message %s { %s }\nmessage User { %s u = 1 [(validate.rules).message.required = true]; }\n' % (w['name'], fld('f', w['rule']), w['name'])
    elif w['what'] == 'nested': body = 'message Outer { message %s { %s } repeated %s u = 1; }\n' % (w['name'], fld('f', w['rule']), w['name'])
    else: body = 'message W { oneof %s { %s %s %s } }\n' % (w['name'], 'option (validate.required) = true;' if w['what'] == 'oneof_required' else '', fld('f', w['rule']), fld('g', 'uuid', 2))
    return [Text(tag + '.proto', head('proto3', tag, gen + tag, WELL) + SUBS + body, gen + tag, tag)]

# ---- layout --------------------------------------------------------------------------
def content(kind, opt, sfx=''):
    sub = 'enum E%(x)s { Z%(x)s = 0; ONE%(x)s = 1; }\nmessage Sub%(x)s { %(o)sstring s = 1 [(validate.rules).string.min_len = 2]; }\n'
    full = ('message M%(x)s { %(o)sstring s = 1 [(validate.rules).string.in = "a"]; %(o)sstring u = 2 [(validate.rules).string.uuid = true]; %(o)sSub%(x)s sub = 3 [(validate.rules).message.required = true];\n'
            ' repeated E%(x)s e = 4 [(validate.rules).repeated.items.enum.defined_only = true]; oneof o { option (validate.required) = true; int32 a = 5 [(validate.rules).int32.gt = 1]; string b = 6 [(validate.rules).string.hostname = true]; } %(n)s}\n')
    d = {'x': sfx, 'o': opt, 'n': ''}
    if kind == 'normal': t = sub + full
    elif kind == 'blank': t = ''
    elif kind == 'enum_only': t = 'enum E%(x)s { Z%(x)s = 0; }\n'
    elif kind == 'no_fields': t = 'message M%(x)s {}\n'
    elif kind in ('no_rules', 'no_validate_import'): t = 'message M%(x)s { %(o)sstring s = 1; repeated M%(x)s l = 2; map<int32, bytes> m = 3; oneof o { double d = 4; M%(x)s q = 5; } }\n'
    elif kind in ('disabled', 'ignored'): t = sub + full; d['n'] = 'option (validate.%s) = true;' % kind
    elif kind == 'nested_only': t = 'message Holder%(x)s { ' + sub.replace('%(x)s', '') + full.replace('%(x)s', '') + '}\n'
    elif kind == 'recursive': t = 'message M%(x)s { %(o)sM%(x)s m = 1 [(validate.rules).message.required = true]; repeated M%(x)s l = 2 [(validate.rules).repeated.min_items = 1]; map<string, M%(x)s> p = 3 [(validate.rules).map.no_sparse = true]; }\n'
    elif kind == 'mutual': t = 'message M%(x)s { %(o)sQ%(x)s q = 1; %(o)sM%(x)s.In i = 2; message In { %(o)sM%(x)s m = 1; repeated Q%(x)s.In x = 2; } }\nmessage Q%(x)s { %(o)sM%(x)s m = 1 [(validate.rules).message.skip = true]; message In { %(o)sM%(x)s.In i = 1; } }\n'
    elif kind == 'oneof_only': t = 'message M%(x)s { oneof o { option (validate.required) = true; bool b = 1 [(validate.rules).bool.const = true]; } oneof q { bytes y = 2 [(validate.rules).bytes.min_len = 1]; M%(x)s m = 3; } }\n'
    elif kind == 'extension': t = ('message M%(x)s { optional string s = 1 [(validate.rules).string.min_len = 1]; extensions 100 to 200; }\nextend M%(x)s { optional int32 ext%(x)s = 100; }\n' if opt else
                                    'import "google/protobuf/descriptor.proto";\nextend google.protobuf.FieldOptions { string note%(x)s = 50123; }\nmessage M%(x)s { string s = 1 [(note%(x)s) = "n", (validate.rules).string.min_len = 1]; }\n')
    elif kind == 'big':
        t = ''.join('message B%%(x)s%d { %%(o)sint32 a = 1 [(validate.rules).int32 = {in: [%s]}]; %%(o)sstring b = 2 [(validate.rules).string = {pattern: "^%s$", not_in: ["x"]}]; message N { repeated string c = 1 [(validate.rules).repeated = {unique: true, items: {string: {in: ["a"]}}}]; } }\n' % (i, ', '.join(map(str, range(60))), 'a|' * 50) for i in range(20))
    return t % d
def layout_files(w, n, gen='pgvx/gen/', java=''):
    """all files of a layout world; paths are relative to the world's own root"""
    opt = 'optional ' if w['syntax'] == 'proto2' else ''
    root = gen + 'w%d' % n
    gp = {'path': root + '/pa', 'path;alias': root + '/pa;other', 'dotted': root + '/p.a', 'dashed': root + '/p-a', 'path;fmt': root + '/pa;fmt'}[w['gopkg']]
    path = w['file'] + '.proto'
    c = w['content']
    def text(path, pkg, gopkg, body, imports=(), validate=True):
        return Text(path, head(w['syntax'], pkg, gopkg, imports, validate, [java] if java else []) + body, gopkg, pkg)
    files = [text(path, w['pkg'], gp, content(c, opt), validate=c != 'no_validate_import')]
    k = w['with']; c2 = c if k in ('same_package', 'same_gopkg') else 'normal'
    v2 = c2 != 'no_validate_import'
    if k == 'same_package': files.append(text('second.proto', w['pkg'], gp, content(c2, opt, 'Q'), validate=v2))
    elif k == 'same_gopkg': files.append(text('second.proto', 'another.one', gp, content(c2, opt, 'Q'), validate=v2))
    elif k == 'importing':
        b = content('normal', opt, 'Q')
        if c in ('normal', 'disabled', 'ignored', 'recursive', 'mutual', 'no_fields', 'no_rules', 'oneof_only', 'extension', 'no_validate_import'):
            q = ('.' + w['pkg'] if w['pkg'] else '') + '.M'
            b += 'message UserQ { %s%s m = 1 [(validate.rules).message.required = true]; repeated %s l = 2 [(validate.rules).repeated.min_items = 1]; map<string, %s> p = 3; }\n' % (opt, q, q, q)
        files.append(text('user/second.proto', 'user.of', root + '/user', b, [path]))
    elif k == 'same_base':
        b = w['file'].split('/')[-1]
        alt = {'a_b': 'aB', 'aB': 'a_b', 'a': 'A', 'A': 'a'}.get(b, b + b)
        alt = '/'.join(w['file'].split('/')[:-1] + [alt])
        files.append(text(alt + '.proto', w['pkg'], gp, content('normal', opt, 'Q')))
    return files

# ---- literals ------------------------------------------------------------------------
TEXTS = {'empty': '', 'quote': 'a"b\'c"', 'backslash': 'a\\b\\\\n\\', 'newline': 'a\nb\r\n\t', 'percent': '%d %s %% %', 'nul': 'a\0b', 'nul_digit': '\x001\x0007', 'control': '\x01\x02\x1b\x07\x08\x0b\x0c', 'trigraph': '??/ ??= ??)',
 'astral': '\U0001F600\U0010FFFF', 'latin': 'éÿ\x80\x9f', 'backtick': '`a`$b', 'template': '{{ . }} {{end}} {%x%}', 'comment': '*/ // /* \\', 'hexlike': '\x01f\x02a\xffe', 'octallike': '\x010\x0277\\012', 'del': '\x7f', 'bom': '\ufeffa\ufffd',
 'line_sep': 'a\u2028b\u2029\x85', 'long': 'long"\\' * 3000, 'mixed': 'é"\\\n\0%\U0001F600'}
BYTESS = {'empty': b'', 'all': bytes(range(256)), 'ff': b'\xff\xfe\x80', 'nul_digit': b'\x001\x0007', 'hexlike': b'\x01f\xffa\x0b0', 'quote': b'"\'"', 'trigraph': b'??/??=', 'high_digit': b'\x801\xff7', 'utf8': 'éß'.encode(), 'backslash': b'\\n\\'}
RANGE = {'int32': (-2**31, 2**31-1), 'int64': (-2**63, 2**63-1), 'uint32': (0, 2**32-1), 'uint64': (0, 2**64-1)}
for a, b in (('sint32', 'int32'), ('sint64', 'int64'), ('fixed32', 'uint32'), ('fixed64', 'uint64'), ('sfixed32', 'int32'), ('sfixed64', 'int64')): RANGE[a] = RANGE[b]
FMAX = {'float': 3.4028234663852886e38, 'double': 1.7976931348623157e308}; FMIN = {'float': 1.401298464324817e-45, 'double': 5e-324}
GOMAX = 9223372036
SIZES = {'0': 0, '1': 1, 'i31': 2**31, 'u32': 2**32 + 1, 'i63max': 2**63 - 1, 'i63': 2**63, 'u64': 2**64 - 1}
def num_lit(k, c):
    if k in FMAX:
        return {'zero': 0.0, 'minus_zero': -0.0, 'min': -FMAX[k], 'max': FMAX[k], 'minus_one': -1.0, 'tiny': FMIN[k], 'huge': 1e30, 'fraction': 0.1, 'inf': float('inf'), 'minus_inf': float('-inf'), 'nan': float('nan')}[c]
    return {'zero': 0, 'min': RANGE[k][0], 'max': RANGE[k][1], 'minus_one': -1}[c]
def inst_lit(t, c):
    D = {'zero': (0, 0), 'nano': (0, 1), 'minus': (-1, -1), 'min': (-315576000000, -999999999), 'max': (315576000000, 999999999), 'fraction': (12, 345678901), 'go_max': (GOMAX, 0), 'past_go_max': (GOMAX + 1, 0), 'dup': (5, 0)}
    T = dict(D, minus=(-1, 999999999), min=(-62135596800, 0), max=(253402300799, 999999999), mixed_sign=(-5, 7))
    s, n = (D if t == 'duration' else T)[c]
    return {k: v for k, v in (('seconds', s), ('nanos', n)) if v}
def literal_rules(w):
    t, c, r = w['type'], w['class'], w['rule']
    if c in SIZES:
        n = SIZES[c]
        if r.startswith('both_'): r = r[5:]; return {'min_' + r: n, 'max_' + r: n}
        return {r: n}
    if t in ('string', 'any'):
        v = TEXTS[c]
        if r == 'pattern':
            import re; v = ''.join('\\x{%x}' % ord(x) if not x.isalnum() and ord(x) < 128 and c != 'template' else x for x in v) if c not in ('comment', 'mixed') else '[' + '/*"' + ']\\n[é\\\\]'
            if c == 'long': v = v[:6000]
            v = v.replace('{', '[{]').replace('}', '[}]') if c == 'template' else v
        return {r: ['x', v, v + 'y'] if r in ('in', 'not_in') else v}
    if t == 'bytes': return {r: [b'x', BYTESS[c], BYTESS[c] + b'y'] if r in ('in', 'not_in') else BYTESS[c]}
    if t in ('duration', 'timestamp'):
        if c == 'dup': return {r: [{'seconds': 5}, {'seconds': 5}, {'nanos': 1}]}
        v, o = inst_lit(t, c), {'seconds': 77, 'nanos': 5}
        if r == 'within': return {'within': v or {'seconds': 1}}
        if r in ('inside', 'outside'):
            key = lambda x: (x.get('seconds', 0), x.get('nanos', 0)); lo, hi = sorted([v, o], key=key)
            if r == 'outside': lo, hi = hi, lo
            return {'gte': lo, 'lt': hi}
        return {r: [v, o]} if r in ('in', 'not_in') else {r: v}
    if t in NUMERIC:
        if c == 'dup': return {r: [num_lit(t, 'max'), num_lit(t, 'zero'), num_lit(t, 'max')]}
        if c == 'dup_zero': return {r: [0.0, -0.0, 1.0]}
        v = num_lit(t, c); o = 7.5 if t in FMAX else 7
        if r in ('inside', 'outside'):
            lo, hi = (v, o) if v < o else (o, v)
            if r == 'outside': lo, hi = hi, lo
            return {'gt': lo, 'lte': hi}
        return {r: [v, o]} if r in ('in', 'not_in') else {r: v}
def literal_field(w, pkg, name='f', num=1):
    t, p = w['type'], w['pos']; rr = {t: literal_rules(w)}
    if t == 'repeated': return Field(name, num, 'int32', 'repeated', rules=rr)
    if t == 'map': return Field(name, num, 'int32', 'map', 'string', rules=rr)
    ref = {'any': 'google.protobuf.Any', 'duration': 'google.protobuf.Duration', 'timestamp': 'google.protobuf.Timestamp'}.get(t)
    pt = 'msg' if ref else t
    if p == 'field': return Field(name, num, pt, ref=ref, rules=rr)
    if p == 'oneof': return Field(name, num, pt, ref=ref, rules=rr, oneof='o')
    if p == 'wrapper': return Field(name, num, 'msg', ref='google.protobuf.' + WRAPPER[t], rules=rr)
    if p == 'item': return Field(name, num, pt, 'repeated', ref=ref, rules={'repeated': {'items': rr}})
    if p == 'value': return Field(name, num, pt, 'map', 'int32', ref, {'map': {'values': rr}})
    return Field(name, num, 'int32', 'map', t, None, {'map': {'keys': rr}})
def cell_file(cs, tag, syntax='proto3', gen='pgvx/gen/', labels=None):
    """cs: functions (name, num, pkg) -> Field, one message each"""
    msgs = []
    for i, mk in enumerate(cs):
        f = mk('f', 1, tag)
        if syntax == 'proto2' and not f.card and not f.oneof: f.card = 'optional'
        msgs.append(Message('W%d' % i, [f], {f.oneof: None} if f.oneof else {}))
    sub = Field('s', 1, 'string', 'optional' if syntax == 'proto2' else '', rules={'string': {'min_len': 2}})
    F = File(tag + '.proto', tag, msgs + [Message('Sub', [sub]), Message('Other', [Field('x', 1, 'int32', 'optional' if syntax == 'proto2' else '')])],
             [Enum('E', [('E0', 0), ('E1', 1), ('E5', 5)])], syntax=syntax, gopkg=gen + tag)
    return [F]

# ---- names that meet -----------------------------------------------------------------
IN = '[(validate.rules).string = {in: ["a"], pattern: "a"}]'.replace(', pattern: "a"', '')
def clash_files(w, tag, gen='pgvx/gen/'):
    k, n = w['what'], w['name']; H = lambda imports=(): head('proto3', tag, gen + tag, imports)
    one = lambda body, imports=(): [Text(tag + '.proto', H(imports) + body, gen + tag, tag)]
    t = 'string %%s = %%d %s;' % IN
    if k == 'nested_tables': return one('message A { message B { string C = 1 %s; } string B_C = 2 %s; B b = 3; }' % (IN, IN))
    if k == 'nested_twice': return one(''.join('message %s { message N { string c = 1 %s; repeated string u = 2 [(validate.rules).repeated = {unique: true, items: {string: {pattern: "a"}}}]; } }\n' % (x, IN) for x in 'PQ') + 'message N { string c = 1 %s; }' % IN)
    if k == 'key_value_tables': return one('message A { map<string, string> f = 1 [(validate.rules).map = {keys: {string: {in: ["a"], pattern: "a"}}, values: {string: {in: ["b"]}}}]; repeated string g = 2 [(validate.rules).repeated = {items: {string: {in: ["a"]}}}]; }'.replace('in: ["a"], pattern: "a"', 'in: ["a"]'))
    if k == 'case_tables': return one('message A { string fooBar = 1 %s; string foobar = 2 %s; string FOObar = 3 %s; }' % (IN, IN, IN))
    if k == 'user_error_types': return one('message A { string s = 1 %s; }\nmessage AValidationError { string s = 1 %s; }\nmessage AMultiError { int32 i = 1; }' % (IN, IN))
    if k == 'same_enum_names': return one('message A { enum E { X = 0; } E e = 1 [(validate.rules).enum.defined_only = true]; }\nmessage B { enum E { X = 0; Y = 1; } E e = 1 [(validate.rules).enum = {in: [0, 1]}]; repeated A.E l = 2 [(validate.rules).repeated.items.enum.in = 0]; }')
    if k == 'same_package_ends':
        fs = [Text('%s_%s.proto' % (tag, x), head('proto3', tag + '.%s.v1' % x, gen + tag + '/%s/v1' % x) + enum_text('E' + x, 'E' + x), gen + tag + '/%s/v1' % x, tag + '.%s.v1' % x) for x in 'xy']
        return one('message A { %s.x.v1.Ex e = 1 [(validate.rules).enum.defined_only = true]; %s.y.v1.Ey f = 2 [(validate.rules).enum = {in: [0, 5]}]; }' % (tag, tag), [f.path for f in fs]) + fs
    if k == 'oneof_tables': return one('message A { oneof o { string a = 1 %s; string b = 2 %s; } oneof p { string c = 3 %s; } }' % (IN, IN, IN))
    if k == 'two_same_rules': return one('message A { string a = 1 [(validate.rules).string.uuid = true]; string b = 2 [(validate.rules).string.uuid = true]; string c = 3 [(validate.rules).string.hostname = true]; repeated string d = 4 [(validate.rules).repeated.items.string.email = true]; message B { string e = 1 [(validate.rules).string.email = true]; } }')
    if k == 'sub_and_file': return [Text(tag + '/a.proto', H() + 'message A { string s = 1 [(validate.rules).string.uuid = true]; }', gen + tag, tag), Text(tag + '/x/a_b.proto', H() + 'message B { string s = 1 [(validate.rules).string.uuid = true]; }', gen + tag, tag)]
    if k == 'same_message_two_packages':
        return [Text('%s_%s.proto' % (tag, x), head('proto3', tag + '.' + x, gen + tag + '/' + x) + 'message A { string s = 1 [(validate.rules).string = {in: ["a"]}]; }', gen + tag + '/' + x, tag + '.' + x) for x in 'xy']
    if k == 'field': return one('message A { string %s = 1 %s; }' % (n, IN))
    if k == 'enum_package':
        o = Text(tag + '_e.proto', head('proto3', tag + '.e', gen + tag + '/' + n) + enum_text('E', 'E'), gen + tag + '/' + n, tag + '.e')
        return one('message A { %s.e.E e = 1 [(validate.rules).enum.defined_only = true]; repeated %s.e.E f = 2 [(validate.rules).repeated = {unique: true, items: {enum: {in: [0, 1]}}}]; map<string, %s.e.E> g = 3 [(validate.rules).map.values.enum.defined_only = true]; google.protobuf.Any any = 4 [(validate.rules).any.required = true]; string s = 5 [(validate.rules).string.email = true]; }' % (tag, tag, tag), [o.path, 'google/protobuf/any.proto']) + [o]

# ---- what Java makes of names -----------------------------------------------------------
def java_decl(shape, name, num, sep=''):
    """a field of the given shape, with a rule"""
    return {'scalar': 'int32 %s = %d [(validate.rules).int32.gt = 1];', 'required': 'Sub %s = %d [(validate.rules).message.required = true];',
            'repeated': 'repeated string %s = %d [(validate.rules).repeated = {min_items: 1, unique: true, items: {string: {in: ["a"]}}}];',
            'map': 'map<string, Sub> %s = %d [(validate.rules).map = {min_pairs: 1, keys: {string: {not_in: ["a"]}}, values: {message: {required: true}}}];',
            'enum': 'E %s = %d [(validate.rules).enum = {defined_only: true, in: [0, 1]}];', 'oneof': 'oneof o%d_ { option (validate.required) = true; string %%s = %%d [(validate.rules).string.uuid = true]; }' % num,
            'in': 'string %s = %d [(validate.rules).string = {in: ["a", "b"], pattern: "a|b"}];'.replace(', pattern: "a|b"', '')}[shape] % (name, num)
JSHAPES = ('scalar', 'required', 'repeated', 'map', 'enum', 'oneof', 'in')
JSUBS = SUBS.replace('Sub', 'Sub')
def jall(n=1): return ' '.join(java_decl(s, '%sf' % s, n + i) for i, s in enumerate(JSHAPES))
def kinds():
    """a field of every kind with a rule that needs a Java type"""
    out = []
    for k in NUMERIC: out.append('%s k%s = {N} [(validate.rules).%s = {in: [1, 2], gt: 0}];'.replace(', gt: 0', '') % (k, k, k))
    out += ['bool kb = {N} [(validate.rules).bool.const = true];', 'bytes ky = {N} [(validate.rules).bytes = {prefix: "a", min_len: 1}];', 'string kp = {N} [(validate.rules).string = {pattern: "a+", email: true}];',
            'google.protobuf.Duration kd = {N} [(validate.rules).duration = {gt: {seconds: 1}}];', 'google.protobuf.Timestamp kt = {N} [(validate.rules).timestamp.lt_now = true];', 'google.protobuf.Any ka = {N} [(validate.rules).any.in = "a"];',
            'google.protobuf.Int64Value kw = {N} [(validate.rules).int64 = {in: [5]}];', 'google.protobuf.BoolValue kv = {N} [(validate.rules).bool.const = true];', 'repeated double kr = {N} [(validate.rules).repeated = {unique: true, items: {double: {lt: 5}}}];',
            'map<int64, float> km = {N} [(validate.rules).map = {keys: {int64: {gt: 5}}, values: {float: {in: [1]}}}];', 'map<string, E> ke = {N} [(validate.rules).map.values.enum = {in: [0]}];', 'repeated E kq = {N} [(validate.rules).repeated.items.enum.defined_only = true];']
    return ' '.join(x.replace('{N}', str(20 + i)) for i, x in enumerate(out))
def java_field_file(ws, tag, gen='pgvx/gen/'):
    pairs = ws[0]['what'] == 'pair'      # proto3 forbids most names that meet
    body = SUBS.replace('string s', 'optional string s') if pairs else SUBS
    for i, w in enumerate(ws):
        b = java_decl(w['shape'], w['name'], 1)
        if w['what'] == 'pair': b = (b if w['shape'] in ('repeated', 'map', 'oneof') else 'optional ' + b) + ' optional string %s = 7 [(validate.rules).string = {in: ["q"]}]; optional Sub third = 9;' % w['other']
        body += 'message W%d { %s }\n' % (i, b)
    return [Text(tag + '.proto', head('proto2' if pairs else 'proto3', tag, gen + tag, WELL) + body, gen + tag, tag)]
def java_file(w, tag, gen='pgvx/gen/'):
    k, n = w['what'], w['name']; H = lambda pkg=tag, imports=(): head('proto3', pkg, gen + tag, list(WELL) + list(imports))
    E = 'message Sub { string s = 1 [(validate.rules).string.min_len = 2]; }\nenum E { E_ZERO = 0; E_ONE = 1; }\n'
    one = lambda body, path=tag, pkg=tag: [Text(path + '.proto', H(pkg) + body, gen + tag, pkg)]
    if k == 'class': return one(E + 'message %s { %s %s }\nmessage User { %s u = 50 [(validate.rules).message.required = true]; repeated %s v = 51; map<string, %s> w = 52; %s %s }\n' % (n, jall(), kinds(), n, n, n, jall(), kinds()))
    if k == 'nested': return one(E + 'message Holder { message %s { %s %s } repeated %s v = 51; %s %s }\n' % (n, jall(), kinds(), n, jall(), kinds()))
    if k.startswith('outer_'):
        path = tag + '/' + n; outer = 'Foo2Bar' if n == 'foo2bar' else {'foo': 'Foo', 'Foo': 'Foo', 'foo_bar': 'FooBar', 'fooBar': 'FooBar', 'foo_2': 'Foo2'}[n]
        b = {'outer_message': 'message %s { %s }' % (outer, jall()), 'outer_nested': 'message Holder { message %s { %s } %s q = 1; }' % (outer, jall(), outer), 'outer_enum': 'enum %s { ZZ = 0; } message M { %s z = 20 [(validate.rules).enum.defined_only = true]; }' % (outer, outer),
             'outer_nested_enum': 'message M { enum %s { ZZ = 0; } repeated %s z = 20 [(validate.rules).repeated.items.enum = {in: [0]}]; }' % (outer, outer), 'outer_service': 'service %s { rpc Do(Sub) returns (Sub); }' % outer, 'outer_elsewhere': 'message M { %s }' % jall()}[k]
        fs = one(E + b + '\n', path)
        return fs
    if k == 'twins': return one(E + ''.join('message %s { message In { %s message Low { %s } Low l = 30; } In i = 1; }\n' % (x, jall(), jall()) for x in 'AB') + 'message In { %s message Low { %s } }\n' % (jall(), jall()))
    if k == 'cousins': return one(E + 'message A { message B { message C { %s } } message BC { %s } B.C x = 1; }\nmessage AB { message C { %s } message B { message C { %s } } }\nmessage ABC { %s }\n' % ((jall(),) * 5))
    if k == 'oneof_and_field': return one(E + 'message M { oneof foo { option (validate.required) = true; string bar = 1 [(validate.rules).string.in = "a"]; Sub sub = 2 [(validate.rules).message.required = true]; } oneof foo_cases { string q = 4 [(validate.rules).string.len = 3]; } oneof foo_1x { E e = 6 [(validate.rules).enum.defined_only = true]; google.protobuf.Duration d = 7 [(validate.rules).duration.gt = {seconds: 4}]; } }\n')
    if k == 'rules_twice': return one(E + 'message M { string foo_bar = 1 [(validate.rules).string.in = "a"]; message FooBar { string foo_bar = 1 [(validate.rules).string.in = "a"]; } map<string, string> m = 2 [(validate.rules).map = {keys: {string: {in: ["a"], pattern: "a"}}, values: {string: {in: ["b"], pattern: "b"}}}]; }\n'.replace('in: ["a"], pattern: "a"', 'in: ["a"]').replace('in: ["b"], pattern: "b"', 'pattern: "b"'))
    if k == 'deep': return one(E + 'message A { message B { message C { message D { %s A a = 30; B b = 31; C c = 32; } repeated D d = 1; } map<string, C.D> m = 1; } oneof o { B.C.D x = 2 [(validate.rules).message.required = true]; } }\n' % jall())
    if k == 'package_parts': return [Text(tag + '_%d.proto' % i, H(p) + E + 'message M { %s %s }\n' % (jall(), kinds().replace('google.', '.google.')), gen + tag, p) for i, p in enumerate([tag + '.io', tag + '.com.google', tag + '.java.util', tag + '.envoyproxy.pgv', tag + '.String', tag + '.a_b1.c'])]
    if k == 'no_package': return one(E + 'message M { message N { %s } N n = 1 [(validate.rules).message.required = true]; repeated E e = 2 [(validate.rules).repeated.items.enum.in = 0]; }\n' % jall(), tag, '')
    if k == 'import_other_style':
        fs = []
        for i, o in enumerate(['', 'option java_multiple_files = true;', 'option java_package = "jr.%s";' % tag, 'option java_package = "js.%s"; option java_multiple_files = true;' % tag, 'option java_outer_classname = "Odd_%s";' % tag]):
            s = Text('%s_t%d.proto' % (tag, i), head('proto3', '%s.t%d' % (tag, i), gen + tag + '/t%d' % i) + o + '\nenum X { X_ZERO = 0; X_ONE = 1; } message Y { string s = 1 [(validate.rules).string.min_len = 2]; enum Z { Z_ZERO = 0; } message V { string s = 1 [(validate.rules).string.min_len = 2]; } }\n', gen + tag + '/t%d' % i, '%s.t%d' % (tag, i))
            s.own = True; fs.append(s)
        q = lambda i: '.%s.t%d.' % (tag, i)
        body = ''.join('message U%d { %sX x = 1 [(validate.rules).enum = {in: [0, 1], defined_only: true}]; repeated %sX xs = 2 [(validate.rules).repeated = {unique: true, items: {enum: {not_in: [1]}}}]; map<string, %sX> xm = 3 [(validate.rules).map.values.enum.defined_only = true]; %sY.Z z = 4 [(validate.rules).enum.const = 0]; %sY y = 5 [(validate.rules).message.required = true]; repeated %sY.V v = 6; map<int32, %sY.V> vm = 7; }\n' % ((i,) + (q(i),) * 7) for i in range(5))
        return [Text(tag + '.proto', H(tag, [f.path for f in fs]) + body, gen + tag, tag)] + fs
    raise KeyError(k)
