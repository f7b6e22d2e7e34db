"""The matrix (rule, position) used for the compile checks: every rule of every kind in every position it may take."""
from protoir import *

INTS = [t for t in NUMERIC if t not in ('float', 'double')]
def num(t, i): return float(i) + 0.5 if t in ('float', 'double') else i
S60 = {'seconds': 60}; S5 = {'seconds': 5, 'nanos': 7}

def rules_of(kind):
    """[(label, rules)] for an element of the given kind, every documented rule on its own plus the mixes templates branch on"""
    if kind in NUMERIC:
        n = lambda i: num(kind, i)
        return [('const', {'const': n(1)}), ('lt', {'lt': n(9)}), ('lte', {'lte': n(9)}), ('gt', {'gt': n(1)}), ('gte', {'gte': n(1)}),
                ('inside', {'gt': n(1), 'lt': n(9)}), ('outside', {'gte': n(9), 'lte': n(1)}), ('in', {'in': [n(1), n(2)]}),
                ('not_in', {'not_in': [n(1), n(2)]}), ('ignore_empty', {'gt': n(3), 'ignore_empty': True}), ('rng_notin', {'gt': n(1), 'not_in': [n(4)]})]
    if kind == 'bool': return [('const', {'const': True})]
    if kind == 'string':
        return [('const', {'const': 'ab'}), ('len', {'len': 3}), ('min_len', {'min_len': 3}), ('max_len', {'max_len': 3}), ('minmax_len', {'min_len': 1, 'max_len': 3}),
                ('eqlen', {'min_len': 3, 'max_len': 3}), ('len_bytes', {'len_bytes': 3}), ('min_bytes', {'min_bytes': 3}), ('max_bytes', {'max_bytes': 3}),
                ('minmax_bytes', {'min_bytes': 1, 'max_bytes': 3}), ('eqbytes', {'min_bytes': 3, 'max_bytes': 3}), ('pattern', {'pattern': 'a+"b\\d'}),
                ('prefix', {'prefix': 'a"b\\'}), ('suffix', {'suffix': 'a'}), ('contains', {'contains': 'a'}), ('not_contains', {'not_contains': 'a'}),
                ('in', {'in': ['a', 'b"\n']}), ('not_in', {'not_in': ['a', 'b"\n']}), ('email', {'email': True}), ('hostname', {'hostname': True}), ('ip', {'ip': True}),
                ('ipv4', {'ipv4': True}), ('ipv6', {'ipv6': True}), ('uri', {'uri': True}), ('uri_ref', {'uri_ref': True}), ('address', {'address': True}),
                ('uuid', {'uuid': True}), ('wkr_name', {'well_known_regex': Raw('HTTP_HEADER_NAME')}), ('wkr_value', {'well_known_regex': Raw('HTTP_HEADER_VALUE'), 'strict': False}),
                ('ignore_empty', {'min_len': 3, 'ignore_empty': True}), ('empty_uri_ie', {'uri': True, 'ignore_empty': True})]
    if kind == 'bytes':
        return [('const', {'const': b'a\x00\xff1'}), ('len', {'len': 3}), ('min_len', {'min_len': 3}), ('max_len', {'max_len': 3}), ('minmax_len', {'min_len': 1, 'max_len': 3}),
                ('eqlen', {'min_len': 3, 'max_len': 3}), ('pattern', {'pattern': 'a+b'}), ('prefix', {'prefix': b'\x01b'}), ('suffix', {'suffix': b'a'}), ('contains', {'contains': b'a'}),
                ('in', {'in': [b'a', b'\x02f']}), ('not_in', {'not_in': [b'a', b'b']}), ('ip', {'ip': True}), ('ipv4', {'ipv4': True}), ('ipv6', {'ipv6': True}),
                ('ignore_empty', {'min_len': 3, 'ignore_empty': True})]
    if kind == 'enum': return [('const', {'const': 1}), ('defined_only', {'defined_only': True}), ('in', {'in': [0, 1]}), ('not_in', {'not_in': [1, 7]})]
    if kind == 'any': return [('required', {'required': True}), ('in', {'in': ['x/y', 'z']}), ('not_in', {'not_in': ['x/y', 'z']})]
    if kind == 'duration':
        return [('required', {'required': True}), ('const', {'const': S5}), ('lt', {'lt': S60}), ('lte', {'lte': S60}), ('gt', {'gt': S5}), ('gte', {'gte': S5}),
                ('inside', {'gt': S5, 'lt': S60}), ('outside', {'gte': S60, 'lte': S5}), ('in', {'in': [S5, S60]}), ('not_in', {'not_in': [S5, S60]})]
    if kind == 'timestamp':
        return [('required', {'required': True}), ('const', {'const': S5}), ('lt', {'lt': S60}), ('lte', {'lte': S60}), ('gt', {'gt': S5}), ('gte', {'gte': S5}),
                ('inside', {'gt': S5, 'lt': S60}), ('outside', {'gte': S60, 'lte': S5}), ('lt_now', {'lt_now': True}), ('gt_now', {'gt_now': True}), ('within', {'within': S60}),
                ('ltnow_within', {'lt_now': True, 'within': S60}), ('gtnow_within', {'gt_now': True, 'within': S60})]
    if kind == 'message': return [('required', {'required': True}), ('skip', {'skip': True})]
    raise KeyError(kind)

REF = {'any': 'google.protobuf.Any', 'duration': 'google.protobuf.Duration', 'timestamp': 'google.protobuf.Timestamp'}
MAPKEYS = ['int32', 'int64', 'uint32', 'uint64', 'sint32', 'sint64', 'fixed32', 'fixed64', 'sfixed32', 'sfixed64', 'bool', 'string']

def elem(kind, pkg):
    """(proto type, ref) of an element of this kind"""
    if kind == 'enum': return 'enum', pkg + '.E'
    if kind == 'message': return 'msg', pkg + '.Sub'
    if kind in REF: return 'msg', REF[kind]
    return kind, None

def cells(pkg='%P'):
    """yields (position, kind, label, fieldmaker) where fieldmaker(name, num, pkg) builds the field"""
    KINDS = NUMERIC + ['bool', 'string', 'bytes', 'enum', 'any', 'duration', 'timestamp', 'message']
    out = []
    def add(pos, kind, label, mk): out.append((pos, kind, label, mk))
    for k in KINDS:
        for label, r in rules_of(k):
            rr = {k: r}
            def single(name, num, pkg, k=k, rr=rr, **kw):
                t, ref = elem(k, pkg); return Field(name, num, t, '', None, ref, rr, **kw)
            add('field', k, label, single)
            add('oneof', k, label, lambda name, num, pkg, s=single: s(name, num, pkg, oneof='o'))
            if k in WRAPPER:
                def wrapped(name, num, pkg, k=k, rr=rr, **kw): return Field(name, num, 'msg', '', None, 'google.protobuf.' + WRAPPER[k], rr, **kw)
                add('wrapper', k, label, wrapped)
                add('wrapper_oneof', k, label, lambda name, num, pkg, s=wrapped: s(name, num, pkg, oneof='o'))
                add('items_wrapper', k, label, lambda name, num, pkg, k=k, rr=rr: Field(name, num, 'msg', 'repeated', None, 'google.protobuf.' + WRAPPER[k], {'repeated': {'items': rr}}))
                add('values_wrapper', k, label, lambda name, num, pkg, k=k, rr=rr: Field(name, num, 'msg', 'map', 'string', 'google.protobuf.' + WRAPPER[k], {'map': {'values': rr}}))
            def items(name, num, pkg, k=k, rr=rr):
                t, ref = elem(k, pkg); return Field(name, num, t, 'repeated', None, ref, {'repeated': {'items': rr}})
            add('items', k, label, items)
            def values(name, num, pkg, k=k, rr=rr):
                t, ref = elem(k, pkg); return Field(name, num, t, 'map', 'string', ref, {'map': {'values': rr}})
            add('values', k, label, values)
            if k in MAPKEYS:
                add('keys', k, label, lambda name, num, pkg, k=k, rr=rr: Field(name, num, 'int32', 'map', k, None, {'map': {'keys': rr}}))
    for k in ['int32', 'string', 'bytes', 'enum', 'bool', 'double']:
        def rep(name, num, pkg, k=k, r=None):
            t, ref = elem(k, pkg); return Field(name, num, t, 'repeated', None, ref, {'repeated': r})
        for label, r in [('min', {'min_items': 1}), ('max', {'max_items': 2}), ('minmax', {'min_items': 1, 'max_items': 3}), ('eq', {'min_items': 2, 'max_items': 2}),
                         ('unique', {'unique': True}), ('ie', {'min_items': 2, 'ignore_empty': True})]:
            add('repeated', k, label, lambda name, num, pkg, rep=rep, r=r: rep(name, num, pkg, r=r))
    for label, r in [('min', {'min_items': 1}), ('max', {'max_items': 2}), ('ie', {'min_items': 2, 'ignore_empty': True})]:
        add('repeated', 'message', label, lambda name, num, pkg, r=r: Field(name, num, 'msg', 'repeated', None, pkg + '.Sub', {'repeated': r}))
    for k in MAPKEYS:
        for label, r in [('min', {'min_pairs': 1}), ('max', {'max_pairs': 2}), ('minmax', {'min_pairs': 1, 'max_pairs': 3}), ('eq', {'min_pairs': 2, 'max_pairs': 2}), ('ie', {'min_pairs': 2, 'ignore_empty': True})]:
            add('map', k, label, lambda name, num, pkg, k=k, r=r: Field(name, num, 'string', 'map', k, None, {'map': r}))
        add('map', k, 'no_sparse', lambda name, num, pkg, k=k: Field(name, num, 'msg', 'map', k, pkg + '.Sub', {'map': {'no_sparse': True}}))
        add('map', k, 'msgvalues', lambda name, num, pkg, k=k: Field(name, num, 'msg', 'map', k, pkg + '.Sub', None))
    return out

def cell_file(name, chosen, syntax='proto3'):
    """a File holding the given cells, one message per 40 fields"""
    f = File(name + '.proto', name, syntax=syntax)
    f.enums.append(Enum('E', [('E_ZERO', 0), ('E_ONE', 1), ('E_TWO', 2)]))
    f.messages.append(Message('Sub', [Field('x', 1, 'int32', '' if syntax == 'proto3' else 'optional', None, None, {'int32': {'gte': 0}})]))
    for k in range(0, len(chosen), 40):
        m = Message('M%d' % (k // 40))
        for j, (pos, kind, label, mk) in enumerate(chosen[k:k + 40]):
            fld = mk('f%d' % (j + 1), j + 1, name)
            if fld.oneof: m.oneofs['o'] = None
            elif syntax == 'proto2' and fld.card == '': fld.card = 'optional' if j % 3 else 'required'
            m.fields.append(fld)
        f.messages.append(m)
    return f
