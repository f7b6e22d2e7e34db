T = 'TLA+ specification checked with TLC; '
NA = {}
NOTE = {}
def note(p, t, lev, n): NOTE[p] = (T + t, lev, n)
note('C01', 'TLC-enumerated rule sets replayed into generated Go and C++ validators', 'model_checking',
  'TLC enumerates every accepted combination of ordered rules over five ranks (two zero positions) and checks the verdict function against an independent set reading; each combination is concretised per numeric type with extreme/adjacent tables and run through freshly generated Go and C++ code. Trusts: protoc, protoc-gen-go, the small value tables stand for the full range.')
note('C02', 'TLC-enumerated rule sets and values replayed into generated Go and C++ validators', 'model_checking',
  'TLC enumerates rule sets over short strings/bytes of characters of 1-4 encoded bytes (including NUL), checks laws of the verdict function and prints the verdict of every value; all are replayed through freshly generated Go and C++ code. Bounded by string length and alphabet.')
note('C04', 'TLC-enumerated container histories replayed into generated Go and C++ validators', 'model_checking',
  'All list/map values of the specification families (bounded sizes, every position of the offending element) and random schemas judged by the same TLA+ operator; generated Go and C++ code must agree. Bounded by container size.')
note('C05', 'TLC-enumerated presence states replayed into generated Go and C++ validators', 'model_checking',
  'Every combination of set/unset/default/required/oneof choices in the families plus random schemas, judged by the TLA+ message semantics.')
note('C06', 'TLC-enumerated message graphs replayed into generated Go and C++ validators', 'model_checking',
  'Message trees of bounded depth with every combination of skip/disabled/ignored/legacy/recursive edges, plus random schemas, judged by the TLA+ Validator model.')
note('C07', 'TLA+ Validator state machine (Validate and ValidateAll walks) checked by TLC and replayed into Go', 'model_checking',
  'The spec proves by exhaustive exploration that the fail-fast and the collect-all walks agree; the enumerated and random messages are replayed into generated Go code and full error lists are compared.')
note('C12', 'TLA+ three-valued verdict (accept, reject, unimplemented) replayed into generated C++ validators', 'model_checking',
  'Every unimplemented rule in every position with every order of earlier rules satisfied or not.')
note('C13', 'TLC-enumerated call histories replayed with real threads/goroutines under race detectors', 'model_checking',
  'All histories of 2 callers x 3 calls (thorough: 70k histories) and concurrent storms under the Go race detector and ThreadSanitizer; every result must equal the isolated one and messages must be unchanged. Schedules inside one call are left to the race detectors.')
note('C17', 'TLA+ error-location model replayed into generated Go validators', 'model_checking',
  'Every violation of the families and random schemas: message name, field path with index/key, cause chain and texts compared to the specification.')
note('C03', 'TLA+ grammars of every format evaluated by TLC on exhaustive small-alphabet and mutated values, replayed into generated Go and C++ validators', 'model_checking',
  'The grammars are written out in PGVText (no library involved), with laws between them checked as invariants; values are exhaustive over small alphabets plus boundary lengths and edits; patterns are random syntax trees matched by a TLA+ matcher. E-mail and URI are compared on a stated domain.')
note('C11', 'TLC-enumerated bounds over instants, and a TLA+ clock whose behaviours are replayed in real time, against generated Go and C++ validators', 'model_checking',
  'Every accepted combination of absolute bounds over five instants from nanosecond-adjacent and extreme tables, invalid and unset values; every behaviour of a ticking clock for lt_now/gt_now/within in every field position. Go durations are compared where bounds fit time.Duration (beyond it they saturate).')
note('C08', 'TLC-enumerated rule sets, decided by a TLA+ rejection predicate, replayed through the plugin', 'model_checking',
  'PGVChecker.tla states which rule sets are contradictory or mistyped; TLC enumerates every pair (and the relevant triples) of rules per kind, position and literal class, plus type and placement mismatches, and checks that every refused set is refused for a reason that survives adding further rules; each set is fed to the plugin built from the tree, which must fail with no output exactly where the predicate says so.')
note('C09', 'TLC-enumerated worlds (rule sets, type homes, names, layouts, literals, clashes) generated and compiled in Go and C++', 'model_checking',
  'MC_World.tla and MC_Check.tla enumerate what a proto file the plugin accepts can contain; every world is generated by the plugin built from the tree and compiled with go build and clang++ (a sample also g++ without precompiled headers). Worlds protoc or the protobuf generators cannot compile by themselves are not counted. C++ compiles a sample of the rule sets per run; pairs of rules, not larger sets.')
note('C10', 'TLC-checked model of a plugin run (files, targets, parameters -> output names) replayed into the plugin', 'model_checking',
  'PGVOutput.tla states which files a run yields for every corpus file, language and parameter; TLC checks that runs compose and that names never clash; every subset and order of a multi-package corpus is then generated by the real plugin, repeatedly, and names and bytes are compared with the model and between runs. Bounded by the corpus.')
note('C14', 'TLA+ model of both validator indexes, every behaviour replayed into the real Java classes', 'model_checking',
  'ValidatorIndexes.tla has the registrations, fallbacks and caches as state; every history up to the bound is replayed through ExplicitValidatorIndex and ReflectiveValidatorIndex over every shape of class; concurrent lookups are stressed on real threads. Trusts the protobuf-java on this machine.')
note('C15', 'TLA+ model of a validated call, every behaviour replayed into the real interceptors', 'model_checking',
  'Interceptors.tla has a call with its messages, half-close, cancel, readiness and closes as actions and the invariants of the property; every history up to the bound is replayed through the real interceptors with recording call and listener objects.')
note('C16', 'TLA+ rule semantics enumerated by TLC, replayed into the Java rule library', 'model_checking',
  'Every combination of range bounds, lists, sizes, text formats and instants of the specification is turned into calls of the Java classes and the thrown field and reason are compared with the verdict. Commons Validator and RE2/J are idealised stand-ins (not installed here), so host name and pattern matching themselves are not judged in Java.')

note('C18', 'TLC-enumerated rule sets, values and message shapes replayed into generated Java validators', 'model_checking',
  'The rule semantics, families and random schemas of C01-C06 and C11, with the Validator walk in its Java mode; each case is rendered to proto, generated by the plugin built from the tree, compiled with javac against the real protobuf-java and the tree\'s runtime, and the thrown exception and its field are compared with the set of violations the specification derives. Quick runs take samples of the larger enumerations. RE2/J and Commons Validator are idealised stand-ins.')
note('C19', 'TLC-enumerated worlds generated for Java and compiled', 'model_checking',
  'The worlds of C09 plus Java\'s own (MC_World part "java": accessor names and their clashes, class and outer class names in every style of file options), generated by the plugin built from the tree and compiled with javac. Worlds protoc or its Java generator cannot compile by themselves, and messages called like another\'s validator class, are not counted.')
