"""Planted bugs for the generated Java validators, and some more for Go and C++."""
import importlib.util, os
def _m(n):
    sp = importlib.util.spec_from_file_location(n, os.path.join(os.path.dirname(os.path.abspath(__file__)), n + '.py')); m = importlib.util.module_from_spec(sp); sp.loader.exec_module(m); return m
B = _m('b_java'); A = _m('a_go_cc'); JP, javademo, STUBS = B.JP, B.javademo, B.STUBS; ccdemo, godemo = A.ccdemo, A.godemo
V = '    static boolean v(Message m) { return ok(() -> new ReflectiveValidatorIndex().<Message>validatorFor(m.getClass()).assertValid(m)); }\n'
def jd(proto, body, head=JP): return javademo(body, V, {'d.proto': head + proto}).replace('import java.util.*;', 'import java.util.*;\\nimport d.*;', 1)
def ccthreads(proto, body): return 'from demolib import *\ncc(%r, %r, %r)\n' % ({'d.proto': A.P3 + proto}, '#include <thread>\n#include <vector>\n' + A.CCHEAD % body, [])
WK = ''.join('import "google/protobuf/%s.proto";\n' % x for x in ('any', 'duration', 'timestamp', 'wrappers'))
T = 'templates/java/'
SEEDS = [dict(s, files=STUBS) if s['id'].split('-')[1] == 'java' else s for s in [
 dict(id='C18-java-oneof-fallthrough', property='C18', needs='a oneof with a second member whose rules reject its default value, set to its valid first member',
  breaks='Java checks the later members of a oneof, too',
  edits=[(T + 'oneof.go', '					break;\n', '')],
  demo=jd('message M { oneof o { int32 a = 1 [(validate.rules).int32.gt = 5]; int32 b = 2 [(validate.rules).int32.gt = 5]; } }',
   'want("a=6", v(D.M.newBuilder().setA(6).build())); want("b=1", !v(D.M.newBuilder().setB(1).build()));')),
 dict(id='C18-java-map-one-side', property='C18', needs='a Java map with rules on both keys and values, and a bad value under a good key',
  breaks='Java checks the values of a map only if its keys have no rules',
  edits=[(T + 'map.go', '			io.envoyproxy.pgv.MapValidation.validateParts({{ accessor . }}.values(), value -> {\n				{{ render (.Elem "value" "Value") }}\n			});\n',
    '{{- if ne (.Elem "" "").Typ "none" }}{{ if eq (.Key "" "").Typ "none" }}\n			io.envoyproxy.pgv.MapValidation.validateParts({{ accessor . }}.values(), value -> {\n				{{ render (.Elem "value" "Value") }}\n			});\n{{- end }}{{ end }}\n')],
  demo=jd('message M { map<string, int32> x = 1 [(validate.rules).map = {keys: {string: {min_len: 1}}, values: {int32: {gt: 5}}}]; map<string, int32> y = 2 [(validate.rules).map.values.int32.gt = 5]; }',
   'want("bad value", !v(D.M.newBuilder().putX("a", 1).build())); want("bad key", !v(D.M.newBuilder().putX("", 6).build())); want("other map", !v(D.M.newBuilder().putY("", 1).build())); want("good", v(D.M.newBuilder().putX("a", 6).build()));')),
 dict(id='C18-java-empty-message', property='C18', needs='an embedded message that is set but empty and invalid when empty',
  breaks='Java does not validate empty embedded messages',
  edits=[(T + 'message.go', 'if ({{ hasAccessor . }}) index.validatorFor', 'if ({{ hasAccessor . }} && {{ accessor . }}.getSerializedSize() > 0) index.validatorFor')],
  demo=jd('message N { string x = 1 [(validate.rules).string.min_len = 2]; } message M { N n = 1; }',
   'want("empty", !v(D.M.newBuilder().setN(D.N.newBuilder()).build())); want("short", !v(D.M.newBuilder().setN(D.N.newBuilder().setX("a")).build())); want("unset", v(D.M.newBuilder().build()));')),
 dict(id='C18-java-any-no-url', property='C18', needs='an Any rule with an in list and a set Any with an empty type URL',
  breaks='Java accepts an Any without a type',
  edits=[(T + 'any.go', '			if ({{ hasAccessor . }}) io.envoyproxy.pgv.CollectiveValidation.in(', '			if ({{ hasAccessor . }} && !{{ accessor . }}.getTypeUrl().isEmpty()) io.envoyproxy.pgv.CollectiveValidation.in(')],
  demo=jd('message M { google.protobuf.Any x = 1 [(validate.rules).any.in = "t/a"]; }',
   'want("empty", !v(D.M.newBuilder().setX(Any.newBuilder()).build())); want("a", v(D.M.newBuilder().setX(Any.newBuilder().setTypeUrl("t/a")).build()));', JP + WK)),
 dict(id='C18-java-mixed-range', property='C18', needs='an inverted duration range with one inclusive and one exclusive bound',
  breaks='Java treats lt with gte (or lte with gt) as two separate bounds, which nothing satisfies when they are inverted',
  edits=[(T + 'duration.go', '{{- if and (or $r.Lt $r.Lte) (or $r.Gt $r.Gte)}}', '{{- if or (and $r.Lt $r.Gt) (and $r.Lte $r.Gte)}}')],
  demo=jd('message M { google.protobuf.Duration x = 1 [(validate.rules).duration = {lt: {seconds: 1}, gte: {seconds: 5}}]; }',
   'want("5s", v(D.M.newBuilder().setX(Duration.newBuilder().setSeconds(5)).build())); want("3s", !v(D.M.newBuilder().setX(Duration.newBuilder().setSeconds(3)).build()));', JP + WK)),
 dict(id='C18-java-max-bytes', property='C18', needs='a string with both max_len and max_bytes, short enough in characters but not in bytes',
  breaks='Java ignores max_bytes beside max_len',
  edits=[(T + 'string.go', '{{- if $r.MaxBytes }}', '{{- if and $r.MaxBytes (not $r.MaxLen) }}')],
  demo=jd('message M { string x = 1 [(validate.rules).string = {max_len: 3, max_bytes: 4}]; }',
   'want("6 bytes", !v(D.M.newBuilder().setX("\\u00e9\\u00e9\\u00e9").build())); want("3 bytes", v(D.M.newBuilder().setX("abc").build()));')),
 dict(id='C19-java-key-value-tables', property='C19', needs='a map with in or not_in lists on both its keys and its values',
  breaks='the Java tables of the keys and the values of a map get the same name',
  edits=[(T + 'map.go', 'renderConstants (.Key "key" "Key")', 'renderConstants (.Key "key" "")'), (T + 'map.go', 'renderConstants (.Elem "value" "Value")', 'renderConstants (.Elem "value" "")'),
         (T + 'map.go', '{{ render (.Key "key" "Key") }}', '{{ render (.Key "key" "") }}'), (T + 'map.go', '{{ render (.Elem "value" "Value") }}', '{{ render (.Elem "value" "") }}')],
  demo=jd('message M { map<string, int32> x = 1 [(validate.rules).map = {keys: {string: {in: ["a"]}}, values: {int32: {in: [1]}}}]; }',
   'want("good", v(D.M.newBuilder().putX("a", 1).build()));')),
 dict(id='C19-java-service-name', property='C19', needs='a file with a service of the same name as its Java outer class',
  breaks='the Java outer class of a file is misnamed when only a service has its name',
  edits=[(T + 'register.go', '	for _, service := range file.Services() {', '	for _, service := range file.Services()[:0] {')],
  demo=jd('message M { string x = 1 [(validate.rules).string.min_len = 1]; } service D { rpc F(M) returns (M); }',
   'want("good", v(DOuterClass.M.newBuilder().setX("a").build()));')),
 dict(id='C19-java-nested-enum', property='C19', needs='rules on an enum declared inside a message that is itself nested',
  breaks='Java qualifies a nested enum with its file and innermost message only',
  edits=[(T + 'register.go', '	if isEnum && enum.Parent() != nil {\n', '	if m, nested := entity.(pgs.Enum); nested {\n		if p, ok := m.Parent().(pgs.Message); ok {\n			return joinNames(joinNames(fns.qualifiedName(p.File()), p.Name().String()), entity.Name().String())\n		}\n	}\n\n	if isEnum && enum.Parent() != nil {\n')],
  demo=jd('message M { message N { enum E { A = 0; B = 1; } E x = 1 [(validate.rules).enum.const = 1]; } }',
   'want("good", v(D.M.N.newBuilder().setXValue(1).build())); want("bad", !v(D.M.N.newBuilder().build()));')),
 dict(id='C13-cc-shared-unique', property='C13', needs='two threads validating lists of the same field at the same time',
  breaks='the C++ set of items seen so far is shared between concurrent validations',
  edits=[('templates/cc/repeated.go', '	std::unordered_set<std::reference_wrapper<{{ $typ }}>, hash, cmp> {{ lookup . "Unique" }};',
    '	static std::unordered_set<std::reference_wrapper<{{ $typ }}>, hash, cmp> {{ lookup . "Unique" }};\n	{{ lookup . "Unique" }}.clear();'),
         ('templates/cc/repeated.go', '				if (p.second == false) {', '				if (!p.second) {')],
  demo=ccthreads('message M { repeated int32 x = 1 [(validate.rules).repeated.unique = true]; }',
   'bool good = true; std::vector<std::thread> ts; for (int t = 0; t < 8; t++) ts.emplace_back([&good] { d::M m; for (int i = 0; i < 50; i++) m.add_x(i); for (int k = 0; k < 20000 && good; k++) { pgv::ValidationMsg e; if (!d::Validate(m, &e)) good = false; } }); for (auto& t : ts) t.join(); want("every call", good);')),
 dict(id='C05-go-oneof-empty-wrapper', property='C05', needs='a required oneof whose selected member is a message that is nil',
  breaks='the Go code of a required oneof rejects a selected member that holds nothing',
  edits=[]),
]]
SEEDS = [s for s in SEEDS if s['edits']]
