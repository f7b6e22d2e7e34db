"""Lists planted bugs that change no line of the original repository."""
import glob, os, re, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); B = {}
def blame(f):
    if f not in B: B[f] = [l.startswith('^') for l in subprocess.run(['git', '-C', '/repo', 'blame', '-s', f], capture_output=True, text=True).stdout.split('\n')]
    return B[f]
for p in sorted(glob.glob(V + '/seeded/*/patch.diff')):
    f, n, dele, ins = None, 0, [], 0
    for l in open(p).read().split('\n'):
        if l.startswith('--- a/'): f = l[6:]
        elif l.startswith('+++'): pass
        elif l.startswith('@@'): n = int(re.match(r'@@ -(\d+)', l).group(1))
        elif l.startswith('-'): dele.append((l[1:].strip(), blame(f)[n - 1])); n += 1
        elif l.startswith('+'): ins += 1
        elif f: n += 1
    orig = [x for x, o in dele if o and x]
    if not orig: print(os.path.basename(os.path.dirname(p)), 'deletes', dele, 'inserts', ins)
