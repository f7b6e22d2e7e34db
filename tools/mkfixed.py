"""Writes the "fixed" list of known_findings.json from the fix: commits (property ids below)."""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = {'an empty bytes const rule is ignored in Java':'C18','Java code for large unsigned':'C19','Java compares unsigned':'C18','Java float and double rules':'C18','string literals in Java':'C18',
 'Java code for lengths':'C19','max_items and max_pairs of zero':'C18','Java does not require':'C18','Java code for enum rules':'C19','Java throws IllegalArg':'C18','Java accessor names':'C19',
 'Java code for files without':'C19','Java code for disabled':'C19','Java validators of nested messages with equal':'C19','Java code for durations and timestamps':'C19','Java code uses messages named':'C19',
 'Java constants of fields':'C19','Java takes the two zeros':'C18',
 'C++ generation panics on in/not_in':'C09','C++ numeric rule literals':'C01','Go bytes in/not_in literals':'C09','Go code for a map with skipped':'C09','uuid pattern missing':'C09',
 'rules on wrapper list items':'C08','Go code for in/not_in/pattern on items':'C09','C++ code for in/not_in/pattern on items':'C09','C++ code for unique enum':'C09',
 'Go helpers missing':'C09','Go hostname':'C03','C++ validation of unregistered':'C13','C++ ip rules':'C03','C++ string and bytes literals':'C02',
 'bytes len mixed':'C08','Any, Duration and Timestamp rules on':'C08','an empty bytes const':'C02','Go code for in/not_in lists repeating':'C09',
 'enums of other packages':'C09','order of the plugin':'C10','module parameter':'C10','lt_now and gt_now':'C11','Go defined_only':'C09',
 'C++ messages with two lists':'C09','C++ namespaces of':'C09','C++ accessor and oneof':'C09','HTTP_HEADER_NAME':'C03',
 'Java generation panics':'C08', 'message rules on list items':'C08', 'different far away':'C08','C++ duration ranges':'C11','C++ accepts durations':'C11',
 'max_len and max_bytes of':'C08','Go uuid pattern names':'C09','Go code for in/not_in lists with both':'C09','code for infinite and NaN':'C09','C++ in/not_in rules take NaN':'C01',
 'Go code for lengths of':'C09','Go code for duration bounds':'C09','C++ rule tables of nested':'C09','Go imports of enum packages':'C09','explicit validator index':'C14',
 'Java validator class names':'C10','Java outer class name':'C10','no Java validators for files':'C10','Java code for required wrappers':'C10',
 'reflective validator index':'C14','Java validates ignored messages':'C14','server interceptor':'C15','Java timestamp within':'C16','Java email validation':'C16'}
k = json.load(open(V + '/known_findings.json'))
out = []
log = subprocess.run(['git', '-C', '/repo', 'log', '--format=%h %s', '--reverse'], capture_output=True, text=True).stdout
for l in log.splitlines():
    h, _, s = l.partition(' ')
    if not s.startswith('fix: '): continue
    s = s[5:]
    ps = [v for a, v in P.items() if s.startswith(a)]
    assert ps, s
    out.append('fixed: property=%s %s %s' % (ps[0], h, s))
k['fixed'] = out
json.dump(k, open(V + '/known_findings.json', 'w'), indent=1)
