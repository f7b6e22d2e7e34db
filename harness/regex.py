"""Regular expressions: AST (specification form) and source text (proto)."""
# ---- regular expressions: AST (specification) and source text (proto) ------------------
def lit(c): return {'op': 'lit', 'c': ord(c)}
def re_text(r):
    o = r['op']
    def grp(x): return '(?:%s)' % re_text(x)
    if o == 'lit':
        ch = chr(r['c'])
        return '\\x{%x}' % r['c'] if ord(ch) < 32 or ord(ch) > 126 else ('\\' + ch if ch in '\\.+*?()|[]{}^$' else ch)
    if o == 'any': return '.'
    if o == 'class':
        def ch(c): return '\\x{%x}' % c
        return '[%s%s]' % ('^' if r['neg'] else '', ''.join(ch(a) if a == b else ch(a) + '-' + ch(b) for a, b in r['r']))
    if o == 'bol': return '^'
    if o == 'eol': return '$'
    if o == 'cat': return ''.join(grp(x) if x['op'] == 'alt' else re_text(x) for x in r['xs'])
    if o == 'alt': return '|'.join(re_text(x) for x in r['xs'])
    if o == 'opt': return grp(r['x']) + '?'
    if o == 'star': return grp(r['x']) + '*'
    if o == 'plus': return grp(r['x']) + '+'
    if o == 'rep': return grp(r['x']) + '{%d,%d}' % (r['m'], r['n'])
    raise KeyError(o)
def rand_re(rng, depth, alpha='ab'):
    if depth == 0 or rng.random() < .2:
        k = rng.random()
        if k < .6: return lit(rng.choice(alpha))
        if k < .75: return {'op': 'any'}
        return {'op': 'class', 'neg': rng.random() < .4, 'r': [[ord(c), ord(c)] for c in rng.sample(alpha, 1)]}
    o = rng.choice(['cat', 'cat', 'cat', 'alt', 'opt', 'star', 'plus', 'rep', 'anch'])
    sub = lambda: rand_re(rng, depth - 1, alpha)
    if o == 'cat': return {'op': 'cat', 'xs': [sub() for _ in range(rng.randint(1, 3))]}
    if o == 'alt': return {'op': 'alt', 'xs': [sub() for _ in range(2)]}
    if o == 'rep':
        m = rng.randint(0, 2); return {'op': 'rep', 'x': sub(), 'm': m, 'n': max(1, m + rng.randint(0, 1))}
    if o == 'anch':
        xs = [sub() for _ in range(rng.randint(1, 2))]
        if rng.random() < .7: xs = [{'op': 'bol'}] + xs
        if rng.random() < .7: xs = xs + [{'op': 'eol'}]
        return {'op': 'cat', 'xs': xs}
    return {'op': o, 'x': sub()}
