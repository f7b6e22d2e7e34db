"""Writes /verif/seeded/<id>/ from the planted-bug descriptions in tools/seeds/*.py and (optionally) tries them.
   mkseed.py write [ids]      patch.diff, demo.sh, demo.py, meta.json
   mkseed.py try [ids]        apply to /repo: build + stable tests + demo + the property's quick check; undo
   (options for try: --demo only demo+tests, --check only check)"""
import glob, importlib.util, json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); REPO = os.environ.get('SEED_REPO', '/repo')   # another tree for trying: no build or stable tests there
def load():
    out = {}
    for p in sorted(glob.glob(V + '/tools/seeds/*.py')):
        sp = importlib.util.spec_from_file_location('s', p); m = importlib.util.module_from_spec(sp); sp.loader.exec_module(m)
        for s in m.SEEDS:
            assert s['id'] not in out, s['id']; out[s['id']] = s
    return out
def write(s):
    d = V + '/seeded/' + s['id']; os.makedirs(d, exist_ok=True)
    t = tempfile.mkdtemp(prefix='seed-')
    try:
        diff = ''
        files = {}
        for f, old, new in s['edits']:
            cur = files.get(f) or open(REPO + '/' + f).read()
            assert cur.count(old) == 1, (s['id'], f, cur.count(old), old)
            files[f] = cur.replace(old, new)
        for f, txt in files.items():
            for side, content in (('a', open(REPO + '/' + f).read()), ('b', txt)):
                p = t + '/' + side + '/' + f; os.makedirs(os.path.dirname(p), exist_ok=True); open(p, 'w').write(content)
            r = subprocess.run(['diff', '-u', 'a/' + f, 'b/' + f], cwd=t, stdout=subprocess.PIPE, text=True)
            ls = r.stdout.split('\n'); ls[0] = '--- a/' + f; ls[1] = '+++ b/' + f
            diff += '\n'.join(ls)
        open(d + '/patch.diff', 'w').write(diff)
    finally: shutil.rmtree(t)
    shutil.copy(V + '/tools/seedlib/demo.sh', d); os.chmod(d + '/demo.sh', 0o755)
    shutil.copy(V + '/tools/seedlib/demolib.py', d)
    for n, c in s.get('files', {}).items(): open(d + '/' + n, 'w').write(c)
    open(d + '/demo.py', 'w').write(s['demo'])
    json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(d + '/meta.json', 'w'), indent=1)
def sh(cmd, **k): return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def tryone(s, opts):
    d = V + '/seeded/' + s['id']; res = {}
    assert sh(['git', '-C', REPO, 'status', '--porcelain', '-uno']).stdout == '', 'dirty'
    if '--check' not in opts:
        r = sh(['bash', d + '/demo.sh'], cwd=REPO); res['demo_clean'] = r.returncode
        if r.returncode: print(r.stdout[-1500:])
    r = sh(['git', '-C', REPO, 'apply', d + '/patch.diff']); assert r.returncode == 0, r.stdout
    try:
        if '--check' not in opts:
            out = '/tmp/seed-out.json'
            if REPO != '/repo': open(out, 'w').write(json.dumps({'passed': json.load(open('/opt/vp/BASELINE.json'))['stable']}))
            r = sh(['bash', '/opt/vp/test.sh', out] if REPO == '/repo' else ['true']); res['build_fail'] = 'FAILED' in r.stdout
            b = json.load(open('/opt/vp/BASELINE.json')); o = set(json.load(open(out))['passed'])
            res['lost_tests'] = [x for x in b['stable'] if x not in o][:3]
            if res['build_fail']: print(r.stdout[-1500:])
            r = sh(['bash', d + '/demo.sh'], cwd=REPO); res['demo_bug'] = r.returncode; res['demo_out'] = r.stdout.strip()[-200:]
        if '--demo' not in opts:
            m = json.load(open(V + '/MANIFEST.json'))
            c = next((c for c in m['checks'] if c['property_id' if 'property_id' in c else 'property'] == s['property']), None)
            if c:
                r = sh(c['quick_cmd' if 'quick_cmd' in c else 'quick'], shell=True, cwd=V, env=dict(os.environ, VERIF_REPO=REPO, VERIF_SEED=os.environ.get('VERIF_SEED', '1'), VERIF_TIER='quick'))
                res['check'] = r.returncode; res['caught'] = 'VIOLATION property=%s ' % s['property'] in r.stdout
                mm = [l for l in r.stdout.split('\n') if 'MISMATCH' in l or 'ERROR' in l][:1]
                res['first'] = mm[0][:300] if mm else r.stdout[-300:]
    finally: sh(['git', '-C', REPO, 'checkout', '--', '.'])
    ok = ('--check' in opts or (res['demo_clean'] == 0 and res['demo_bug'] not in (0, 3) and not res['lost_tests'] and not res['build_fail'])) and res.get('caught', True)
    print(('OK  ' if ok else 'BAD ') + s['id'], json.dumps(res), flush=True)
if __name__ == '__main__':
    seeds = load(); ids = [a for a in sys.argv[2:] if not a.startswith('--')] or list(seeds)
    for i in ids:
        for k in [k for k in seeds if k == i or (i.endswith('*') and k.startswith(i[:-1]))]:
            if sys.argv[1] == 'write': write(seeds[k])
            else: write(seeds[k]); tryone(seeds[k], sys.argv[2:])
