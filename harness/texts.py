"""String and bytes cases judged by the TextOracle specification."""
import itertools, random
from common import *
from protoir import *
from packer import *
from regex import *

LENKEYS = ('len', 'min_len', 'max_len', 'len_bytes', 'min_bytes', 'max_bytes')
# ---- oracle ---------------------------------------------------------------------------
def conc(kind, x): return ''.join(map(chr, x)) if kind == 'string' else bytes(x)
def spec(v): return [ord(c) for c in v] if isinstance(v, str) else list(v)
def conc_rules(kind, r):
    out = {}
    for k, v in r.items():
        if k in LENKEYS or isinstance(v, bool): out[k] = v
        elif k == 'pattern': out[k] = re_text(v)
        elif k == 'well_known_regex': out[k] = Raw(v)
        elif k in ('in', 'not_in'): out[k] = [conc(kind, x) for x in v]
        else: out[k] = conc(kind, v)
    return out
def oracle(run, items, chunk=60, timeout=600):
    """items: [(kind, rules in specification form, [values])]; returns [(go verdicts, cc verdicts)], a verdict being the list
    of violated rules (for cc only its length is meaningful)"""
    cases = []
    for n, (kind, r, vals) in enumerate(items):
        for k in range(0, len(vals), chunk):
            cases.append(dict(id=[n, k], kind=kind, r=dict(r, _=0), vals=[spec(v) for v in vals[k:k + chunk]]))
    path = run.p('text-cases.json')
    with open(path, 'w') as f: json.dump(cases, f)
    lines, st = run.tlc('TextOracle', env={'CASES': path}, timeout=timeout, heap='8g')
    os.unlink(path)
    out = [([None] * len(v), [None] * len(v)) for _, _, v in items]
    run.javaviol = [[None] * len(v) for _, _, v in items]
    for l in lines:
        n, k = l['id']
        for i, x in enumerate(l['go']):
            out[n][0][k + i] = x
            out[n][1][k + i] = ['v'] * l['ccv'][i]
            run.javaviol[n][k + i] = ['v'] * l['javav'][i]
    for (g, c), (_, _, v) in zip(out, items):
        if None in g: raise ToolError('the specification gave no verdict for some value')
    return out
def make_case(kind, r, vals, go, cc, wrapped=False):
    vs = [((wrap_value(kind, v) if wrapped else v), g, v) for v, g in zip(vals, go)]
    cs = list(cc)
    if wrapped: vs.append((None, [], 'unset')); cs.append([])
    return Case('msg' if wrapped else kind, {kind: conc_rules(kind, r)}, vs, ref='google.protobuf.' + WRAPPER[kind] if wrapped else None, ccvals=cs)

CC_FORMATS = {'ip', 'ipv4', 'ipv6', 'hostname', 'address', 'uuid'}
def cc_able(kind, r):
    return not (set(r) & {'email', 'uri', 'uri_ref'}) and not (kind == 'bytes' and set(r) & {'ip', 'ipv4', 'ipv6'})
