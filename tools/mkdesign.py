"""Fill the table of planted changes in DESIGN.md from seeded/*/meta.json."""
import glob, json, os, re
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ['| planted change | needs | caught by |', '|---|---|---|']
for f in sorted(glob.glob(R + '/seeded/*/meta.json')):
    d = json.load(open(f))
    rows.append('| %s | %s | %s |' % (os.path.basename(os.path.dirname(f)), d['needs'], d.get('caught_by', d['property'])))
p = R + '/DESIGN.md'
s = open(p).read()
new = '<!-- seeds -->\n' + '\n'.join(rows) + '\n<!-- /seeds -->'
s = s.replace('@SEEDS@', new) if '@SEEDS@' in s else re.sub(r'<!-- seeds -->.*<!-- /seeds -->', lambda m: new, s, flags=re.S)
open(p, 'w').write(s)
