"""Planted bugs for the generated Go and C++ validators."""
P3 = 'syntax = "proto3";\npackage d;\noption go_package = "demo/gen/d";\nimport "validate/validate.proto";\n'
GOHEAD = 'package main\n\nimport (\n\t"fmt"\n\t"os"\n%s\n\td "demo/gen/d"\n)\n\nvar bad bool\n\nfunc want(what string, ok bool) {\n\tif !ok {\n\t\tfmt.Println("FAILS:", what)\n\t\tbad = true\n\t}\n}\n\nfunc main() {\n%s\n\tif bad {\n\t\tos.Exit(1)\n\t}\n}\n'
def godemo(proto, body, imports='', extra=None, race=False):
    imps = ''.join('\t%s\n' % i for i in imports.split(';') if i)
    return 'from demolib import *\ngo(%r, %r, race=%r)\n' % (dict({'d.proto': P3 + proto}, **(extra or {})), GOHEAD % (imps, body), race)
CCHEAD = '#include <cstdio>\n#include <cstdlib>\n#include "d.pb.validate.h"\nstatic int bad = 0;\nstatic void want(const char* what, bool ok) { if (!ok) { printf("FAILS: %%s\\n", what); bad = 1; } }\nint main() { std::string err; (void)err;\n%s\nreturn bad; }\n'
def ccdemo(proto, body, flags=()):
    return 'from demolib import *\ncc(%r, %r, %r)\n' % ({'d.proto': P3 + proto}, CCHEAD % body, list(flags))
TS = 'import "google/protobuf/timestamp.proto";\n'; WR = 'import "google/protobuf/wrappers.proto";\n'; DU = 'import "google/protobuf/duration.proto";\n'

SEEDS = [
 dict(id='C01-go-gt-zero', property='C01', needs='a range whose gt bound is zero together with an lte bound',
  breaks='Go forgets a gt bound of zero next to lte',
  edits=[('templates/goshared/ltgt.go', '	{{ else if $r.Lte }}\n		{{ if $r.Gt }}', '	{{ else if $r.Lte }}\n		{{ if $r.GetGt }}')],
  demo=godemo('message M { sint64 x = 1 [(validate.rules).sint64 = {lte: 3, gt: 0}]; sint64 y = 2 [(validate.rules).sint64 = {lte: 3, gt: 1, ignore_empty: true}]; }',
   '\twant("1 is accepted", (&d.M{X: 1}).Validate() == nil)\n\twant("0 is rejected", (&d.M{X: 0}).Validate() != nil)\n\twant("-4 is rejected", (&d.M{X: -4}).Validate() != nil)\n\twant("4 is rejected", (&d.M{X: 4}).Validate() != nil)\n')),
 dict(id='C01-cc-uint64-list', property='C01', needs='a uint64/fixed64 in-list in C++ and a value that equals a member only in its low 32 bits',
  breaks='C++ in/not_in lists of 64-bit unsigned fields compare only 32 bits',
  edits=[('templates/cc/register.go', '		return "uint64_t"', '		return "uint32_t"')],
  demo=ccdemo('message M { uint64 x = 1 [(validate.rules).uint64 = {in: [1, 2]}]; }',
   'd::M m; m.set_x(1); want("1 accepted", d::Validate(m, &err)); m.set_x((1ull << 32) + 1); want("2^32+1 rejected", !d::Validate(m, &err));')),
 dict(id='C01-go-ignore-empty-negative', property='C01', needs='ignore_empty on a signed field whose rules reject some negative value',
  breaks='Go exempts negative values, not only zero, under ignore_empty',
  edits=[('templates/goshared/num.go', '		if {{ accessor . }} != 0 {', '		if {{ accessor . }} > 0 {')],
  demo=godemo('message M { int32 x = 1 [(validate.rules).int32 = {gte: 5, ignore_empty: true}]; }',
   '\twant("0 accepted", (&d.M{X: 0}).Validate() == nil)\n\twant("-1 rejected", (&d.M{X: -1}).Validate() != nil)\n\twant("4 rejected", (&d.M{X: 4}).Validate() != nil)\n')),
 dict(id='C02-cc-astral-length', property='C02', needs='a string with a code point beyond U+FFFF near a length limit',
  breaks='C++ counts code points outside the BMP twice, as UTF-16 units',
  edits=[('validate/validate.h', '    ++unicode_len;', '    unicode_len += char_len == 4 ? 2 : 1;')],
  demo=ccdemo('message M { string x = 1 [(validate.rules).string.max_len = 2]; }',
   'd::M m; m.set_x("a\\360\\237\\230\\200"); want("two code points are accepted", d::Validate(m, &err));')),
 dict(id='C02-cc-contains-nul', property='C02', needs='a contains/not_contains rule whose text has a NUL',
  breaks='C++ contains compares only up to the first NUL of the rule',
  edits=[('validate/validate.h', 'return search_in.find(to_find) != string::npos;', 'return search_in.find(to_find.c_str()) != string::npos;')],
  demo=ccdemo('message M { bytes x = 1 [(validate.rules).bytes.contains = "a\\000b"]; }',
   'd::M m; m.set_x(std::string("xay")); want("xay rejected", !d::Validate(m, &err)); m.set_x(std::string("xa\\0by", 5)); want("xa NUL by accepted", d::Validate(m, &err));')),
 dict(id='C02-go-ignore-blank', property='C02', needs='ignore_empty on a string field and a value of white space only',
  breaks='Go exempts blank strings, not only the empty one, under ignore_empty',
  edits=[('templates/goshared/string.go', '		if {{ accessor . }} != "" {', '		if strings.TrimSpace({{ accessor . }}) != "" {')],
  demo=godemo('message M { string x = 1 [(validate.rules).string = {min_len: 3, ignore_empty: true}]; }',
   '\twant("empty accepted", (&d.M{}).Validate() == nil)\n\twant("one space rejected", (&d.M{X: " "}).Validate() != nil)\n')),
 dict(id='C03-go-hostname-254', property='C03', needs='a hostname of 253 characters followed by a dot',
  breaks='Go measures the hostname without its trailing dot',
  edits=[('templates/goshared/known.go', '		if len(host) > 253 {', '		if len(s) > 253 {')],
  demo=godemo('message M { string x = 1 [(validate.rules).string.hostname = true]; }',
   '\tl := strings.Repeat("a", 63)\n\th := l + "." + l + "." + l + "." + strings.Repeat("b", 61)\n\twant("253 accepted", (&d.M{X: h}).Validate() == nil)\n\twant("254 with the dot rejected", (&d.M{X: h + "."}).Validate() != nil)\n', '"strings"')),
 dict(id='C03-go-uuid-newline', property='C03', needs='a UUID followed by a line feed',
  breaks='Go accepts a trailing newline after a UUID',
  edits=[('templates/go/file.go', '[0-9a-fA-F]{12}$")', '[0-9a-fA-F]{12}\\\\n?$")')],
  demo=godemo('message M { string x = 1 [(validate.rules).string.uuid = true]; }',
   '\tu := "00000000-0000-0000-0000-000000000000"\n\twant("uuid accepted", (&d.M{X: u}).Validate() == nil)\n\twant("newline rejected", (&d.M{X: u + "\\n"}).Validate() != nil)\n')),
 dict(id='C03-cc-label-63', property='C03', needs='a hostname label of exactly 63 characters',
  breaks='C++ refuses the longest permitted hostname label',
  edits=[('validate/validate.h', 'if (part.empty() || part.length() > 63) {', 'if (part.empty() || part.length() >= 63) {')],
  demo=ccdemo('message M { string x = 1 [(validate.rules).string.hostname = true]; }',
   'd::M m; m.set_x(std::string(63, \'a\') + ".com"); want("63 accepted", d::Validate(m, &err)); m.set_x(std::string(64, \'a\')); want("64 rejected", !d::Validate(m, &err));')),
 dict(id='C04-cc-ignore-empty-one', property='C04', needs='ignore_empty with a minimum size in C++ and a list of exactly one item',
  breaks='C++ exempts one-element lists under ignore_empty',
  edits=[('templates/cc/repeated.go', '		if ({{ accessor . }}.size() > 0) {', '		if ({{ accessor . }}.size() > 1) {')],
  demo=ccdemo('message M { repeated int32 x = 1 [(validate.rules).repeated = {min_items: 2, ignore_empty: true}]; }',
   'd::M m; want("empty accepted", d::Validate(m, &err)); m.add_x(1); want("one item rejected", !d::Validate(m, &err)); m.add_x(1); want("two accepted", d::Validate(m, &err));')),
 dict(id='C04-go-unique-adjacent', property='C04', needs='a unique list of bytes with equal items that differ in no byte but a trailing one after 8 bytes',
  breaks='Go compares unique bytes items by their first eight bytes only',
  edits=[('templates/goshared/repeated.go', '[{{ if isBytes $f.Type.Element }}string(item){{ else }}item{{ end }}]; exists {', '[{{ if isBytes $f.Type.Element }}fmt.Sprintf("%.8s", item){{ else }}item{{ end }}]; exists {'),
         ('templates/goshared/repeated.go', '[{{ if isBytes $f.Type.Element }}string(item){{ else }}item{{ end }}] = struct{}{}', '[{{ if isBytes $f.Type.Element }}fmt.Sprintf("%.8s", item){{ else }}item{{ end }}] = struct{}{}'),
         ('templates/goshared/repeated.go', '			make(map[string]struct{}, len({{ accessor . }}))', '			make(map[string]struct{})')],
  demo=godemo('message M { repeated bytes x = 1 [(validate.rules).repeated.unique = true]; }',
   '\twant("distinct accepted", (&d.M{X: [][]byte{[]byte("12345678a"), []byte("12345678b")}}).Validate() == nil)\n')),
 dict(id='C04-go-map-ignore-one', property='C04', needs='ignore_empty on a map of exactly one pair with a violation',
  breaks='Go exempts maps of one pair under ignore_empty',
  edits=[('templates/goshared/map.go', '		if len({{ accessor . }}) > 0 {', '		if len({{ accessor . }}) > 1 {')],
  demo=godemo('message M { map<int32, int32> x = 1 [(validate.rules).map = {min_pairs: 2, ignore_empty: true}]; }',
   '\twant("empty accepted", (&d.M{}).Validate() == nil)\n\twant("two accepted", (&d.M{X: map[int32]int32{1: 1, 2: 2}}).Validate() == nil)\n\twant("one rejected", (&d.M{X: map[int32]int32{1: 1}}).Validate() != nil)\n')),
 dict(id='C05-cc-skip-required', property='C05', needs='a message field that is both required and skipped, unset, in C++',
  breaks='C++ forgets required on a field whose validation is skipped',
  edits=[('templates/cc/message.go', '	{{ template "required" . }}\n	{{ if .MessageRules.GetSkip }}', '	{{ if not .MessageRules.GetSkip }}{{ template "required" . }}{{ end }}\n	{{ if .MessageRules.GetSkip }}')],
  demo=ccdemo('message N { int32 a = 1; } message M { N x = 1 [(validate.rules).message = {skip: true, required: true}]; }',
   'd::M m; want("unset rejected", !d::Validate(m, &err)); m.mutable_x(); want("set accepted", d::Validate(m, &err));')),
 dict(id='C05-go-wrapper-oneof-nil', property='C05', needs='a required wrapper that is a oneof member, set to a nil wrapper message',
  breaks='Go accepts a nil required wrapper inside a oneof',
  edits=[('templates/goshared/wrapper.go', '} {{ if .MessageRules.GetRequired }} else {', '} {{ if and .MessageRules.GetRequired (not $f.InOneOf) }} else {')],
  demo=godemo(WR + 'message M { oneof o { google.protobuf.StringValue x = 1 [(validate.rules).message.required = true, (validate.rules).string.min_len = 1]; int32 y = 2; } }',
   '\twant("nil member rejected", (&d.M{O: &d.M_X{X: nil}}).Validate() != nil)\n\twant("other member accepted", (&d.M{O: &d.M_Y{Y: 1}}).Validate() == nil)\n')),
 dict(id='C06-go-legacy-all', property='C06', needs='ValidateAll on a message that embeds a type offering only Validate',
  breaks='ValidateAll skips embedded messages that offer only a hand-written Validate',
  edits=[('templates/go/message.go', '''					if err := v.Validate(); err != nil {
						errors = append(errors, {{ errCause . "err" "embedded message failed validation" }})
					}''', '''					if err := v.Validate(); err != nil && len(errors) > 0 {
						errors = append(errors, {{ errCause . "err" "embedded message failed validation" }})
					}''')],
  demo='''from demolib import *
plugin()
import os
os.makedirs(W + '/gen/d', exist_ok=True)
open(W + '/gen/d/legacy.go', 'w').write('package d\\n\\nimport "errors"\\n\\nfunc (l *L) Validate() error {\\n\\tif l.GetA() < 0 {\\n\\t\\treturn errors.New("negative")\\n\\t}\\n\\treturn nil\\n}\\n')
''' + godemo('message L { option (validate.ignored) = true; int32 a = 1; } message M { L x = 1; }',
   '\tm := &d.M{X: &d.L{A: -1}}\n\twant("Validate reports", m.Validate() != nil)\n\twant("ValidateAll reports", m.ValidateAll() != nil)\n')),
 dict(id='C06-nested-in-ignored', property='C06', needs='a field of a message type declared inside an ignored message',
  breaks='messages declared inside an ignored message get no validator, so fields of their type are not validated',
  edits=[('templates/shared/disabled.go', '''	_, err = msg.Extension(validate.E_Ignored, &ignored)
	return''', '''	_, err = msg.Extension(validate.E_Ignored, &ignored)
	if outer, ok := msg.Parent().(pgs.Message); ok && err == nil && !ignored {
		return Ignored(outer)
	}
	return''')],
  demo=godemo('message I { option (validate.ignored) = true; message N { int32 a = 1 [(validate.rules).int32.gt = 0]; } } message M { I.N x = 1; }',
   '\twant("rejected", (&d.M{X: &d.I_N{}}).Validate() != nil)\n\twant("accepted", (&d.M{X: &d.I_N{A: 1}}).Validate() == nil)\n')),
 dict(id='C07-go-dup-item-rules', property='C07', needs='ValidateAll on a unique list whose duplicate item also breaks an item rule',
  breaks='ValidateAll loses the item errors of duplicated items',
  edits=[('templates/goshared/repeated.go', '''					errors = append(errors, err)
				} else {''', '''					errors = append(errors, err)
					continue
				} else {''')],
  demo=godemo('message M { repeated int32 x = 1 [(validate.rules).repeated = {unique: true, items: {int32: {gt: 5}}}]; }',
   '\terr := (&d.M{X: []int32{1, 1}}).ValidateAll()\n\twant("three errors", len(err.(d.MMultiError)) == 3)\n')),
 dict(id='C07-go-sparse-key', property='C07', needs='ValidateAll on a no_sparse map whose nil entry also has a bad key',
  breaks='ValidateAll does not report the key errors of sparse map entries',
  edits=[('templates/goshared/map.go', '''					errors = append(errors, err)
				}
			{{ end }}

			{{ render (.Key''', '''					errors = append(errors, err)
					continue
				}
			{{ end }}

			{{ render (.Key''')],
  demo=godemo('message N { int32 a = 1; } message M { map<int32, N> x = 1 [(validate.rules).map = {no_sparse: true, keys: {int32: {gt: 5}}}]; }',
   '\terr := (&d.M{X: map[int32]*d.N{1: nil}}).ValidateAll()\n\twant("two errors", len(err.(d.MMultiError)) == 2)\n')),
 dict(id='C08-min-max-bytes', property='C08', needs='a string rule with min_bytes above max_bytes',
  breaks='min_bytes above max_bytes is no longer rejected',
  edits=[('module/checker.go', '	m.checkMinMax(r.MinBytes, r.MaxBytes)\n', '')],
  demo='''from demolib import *
r = generate({'d.proto': %r}, 'go', W + '/out', extra='module=demo', must=False)
done(0 if r.returncode else 1, 'accepted' if not r.returncode else 'rejected')
''' % (P3 + 'message M { string x = 1 [(validate.rules).string = {min_bytes: 5, max_bytes: 3}]; }')),
 dict(id='C08-max-len-bytes', property='C08', needs='max_len and max_bytes of the same size on one string',
  breaks='a valid rule set is rejected: max_len equal to max_bytes',
  edits=[('module/checker.go', 'r.MaxBytes == nil || r.GetMaxBytes() >= r.GetMaxLen(),', 'r.MaxBytes == nil || r.GetMaxBytes() > r.GetMaxLen(),')],
  demo='''from demolib import *
r = generate({'d.proto': %r}, 'go', W + '/out', extra='module=demo', must=False)
done(1 if r.returncode else 0, r.stdout)
''' % (P3 + 'message M { string x = 1 [(validate.rules).string = {max_len: 2, max_bytes: 2}]; }')),
 dict(id='C08-unique-wrappers', property='C08', needs='unique on a list of wrapper messages',
  breaks='unique is accepted on lists of well-known messages, where it has no meaning',
  edits=[('module/checker.go', '			!typ.Element().IsEmbed(),\n', '			!typ.Element().IsEmbed() || typ.Element().Embed().IsWellKnown(),\n')],
  demo='''from demolib import *
r = generate({'d.proto': %r}, 'cc', W + '/out', must=False)
done(0 if r.returncode else 1, 'accepted' if not r.returncode else 'rejected')
''' % (P3.replace('package d;', 'package d; import "google/protobuf/wrappers.proto";') + 'message M { repeated google.protobuf.Int32Value x = 1 [(validate.rules).repeated.unique = true]; }')),
 dict(id='C08-wkr-in', property='C08', needs='a well_known_regex together with an in list on one string',
  breaks='a well-known regex beside a list of permitted values is accepted',
  edits=[('module/checker.go', '	m.checkWellKnownRegex(r.GetWellKnownRegex(), r)\n	m.checkPattern(r.Pattern, len(r.In))\n', '	m.checkPattern(r.Pattern, len(r.In))\n	m.checkWellKnownRegex(r.GetWellKnownRegex(), r)\n')],
  demo='''from demolib import *
r = generate({'d.proto': %r}, 'cc', W + '/out', must=False)
done(0 if r.returncode else 1, 'accepted' if not r.returncode else 'rejected')
''' % (P3 + 'message M { string x = 1 [(validate.rules).string = {well_known_regex: HTTP_HEADER_NAME, in: ["a"]}]; }')),
 dict(id='C08-defined-first', property='C08', needs='defined_only beside an in list whose first value is defined and a later one is not',
  breaks='only the first permitted enum value is checked against the definition',
  edits=[('module/checker.go', '		for _, in := range r.In {\n', '		for _, in := range r.In[:1] {\n')],
  demo='''from demolib import *
r = generate({'d.proto': %r}, 'cc', W + '/out', must=False)
done(0 if r.returncode else 1, 'accepted' if not r.returncode else 'rejected')
''' % (P3 + 'enum E { A = 0; B = 1; } message M { E x = 1 [(validate.rules).enum = {defined_only: true, in: [1, 7]}]; }')),
 dict(id='C11-go-ts-lte-range', property='C11', needs='an lte bound or value outside the years 1678 to 2262',
  breaks='Go compares lte timestamps by Unix nanoseconds, which overflow',
  edits=[('templates/goshared/timestamp.go', '''					if ts.Sub(lte) > 0 {
						err := {{ err . "value must be less than or''', '''					if ts.UnixNano() > lte.UnixNano() {
						err := {{ err . "value must be less than or''')],
  demo=godemo(TS + 'message M { google.protobuf.Timestamp x = 1 [(validate.rules).timestamp.lte = {seconds: 10}]; }',
   '\twant("year 2500 rejected", (&d.M{X: &timestamppb.Timestamp{Seconds: 16725225600}}).Validate() != nil)\n\twant("1970 accepted", (&d.M{X: &timestamppb.Timestamp{}}).Validate() == nil)\n', '"google.golang.org/protobuf/types/known/timestamppb"')),
 dict(id='C11-go-dur-inside', property='C11', needs='a duration range gt/lte and a value equal to the inclusive upper bound',
  breaks='Go rejects a duration equal to its lte bound next to gt',
  edits=[('templates/goshared/duration.go', 'if dur <= gt || dur > lte {', 'if dur <= gt || dur >= lte {')],
  demo=godemo(DU + 'message M { google.protobuf.Duration x = 1 [(validate.rules).duration = {gt: {seconds: 1}, lte: {seconds: 5}}]; }',
   '\twant("5s accepted", (&d.M{X: &durationpb.Duration{Seconds: 5}}).Validate() == nil)\n\twant("6s rejected", (&d.M{X: &durationpb.Duration{Seconds: 6}}).Validate() != nil)\n', '"google.golang.org/protobuf/types/known/durationpb"')),
 dict(id='C11-cc-dur-outside', property='C11', needs='an inverted gte/lt duration range in C++ and a value equal to the gte bound',
  breaks='C++ rejects a duration equal to the inclusive lower bound of an outside range',
  edits=[('templates/cc/duration.go', '						if (dur >= lt && dur < gte)', '						if (dur >= lt && dur <= gte)')],
  demo=ccdemo(DU + 'message M { google.protobuf.Duration x = 1 [(validate.rules).duration = {lt: {seconds: 1}, gte: {seconds: 5}}]; }',
   'd::M m; m.mutable_x()->set_seconds(5); want("5s accepted", d::Validate(m, &err)); m.mutable_x()->set_seconds(3); want("3s rejected", !d::Validate(m, &err));')),
 dict(id='C12-cc-uri-ref-list', property='C12', needs='a C++ string field with uri_ref and a list of permitted values, and a permitted value',
  breaks='C++ silently ignores uri_ref when an in list is given too',
  edits=[('templates/cc/string.go', '	{{ else if $r.GetUriRef }}', '	{{ else if and $r.GetUriRef (not $r.In) }}')],
  demo=ccdemo('message M { string x = 1 [(validate.rules).string = {uri_ref: true, in: ["a"]}]; }',
   'd::M m; m.set_x("a"); bool threw = false; try { d::Validate(m, &err); } catch (const pgv::UnimplementedException&) { threw = true; } want("throws", threw);')),
 dict(id='C12-cc-no-sparse', property='C12', needs='a C++ map with no_sparse together with value rules',
  breaks='C++ does not report no_sparse as unimplemented when the map also has ignore_empty',
  edits=[('templates/cc/map.go', '		{{ if $r.GetNoSparse }}\n', '		{{ if and $r.GetNoSparse (not $r.GetIgnoreEmpty) }}\n')],
  demo=ccdemo('message N { int32 a = 1; } message M { map<int32, N> x = 1 [(validate.rules).map = {no_sparse: true, ignore_empty: true}]; }',
   'd::M m; (*m.mutable_x())[1].set_a(1); bool threw = false; try { d::Validate(m, &err); } catch (const pgv::UnimplementedException&) { threw = true; } want("throws", threw);')),
 dict(id='C13-cc-static-unique', property='C13', needs='two validations, one after the other, of lists sharing an item',
  breaks='C++ unique lists remember the items of earlier validations',
  edits=[('templates/cc/repeated.go', '	std::unordered_set<std::reference_wrapper<{{ $typ }}>, hash, cmp> {{ lookup . "Unique" }};', '	static std::unordered_set<std::reference_wrapper<{{ $typ }}>, hash, cmp> {{ lookup . "Unique" }};'),
         ('templates/cc/repeated.go', '				if (p.second == false) {', '				if (!p.second) {')],
  demo=ccdemo('message M { repeated int32 x = 1 [(validate.rules).repeated.unique = true]; }',
   'd::M m; m.add_x(1); m.add_x(2); want("first call", d::Validate(m, &err)); want("second call", d::Validate(m, &err));')),
 dict(id='C17-go-key-cause', property='C17', needs='a map key rule whose error has a cause (a format such as hostname)',
  breaks='the error of a map key with a cause is not marked as a key error',
  edits=[('templates/goshared/register.go', '	if ctx.OnKey {\n		keyFld', '	if ctx.OnKey && causeFld == "" {\n		keyFld')],
  demo=godemo('message M { map<string, int32> x = 1 [(validate.rules).map.keys.string.hostname = true]; }',
   '\terr := (&d.M{X: map[string]int32{"-": 1}}).Validate()\n\twant("key error", err.(d.MValidationError).Key())\n\twant("text", strings.Contains(err.Error(), "key for M.X[-]"))\n', '"strings"')),
 dict(id='C17-go-cause-index', property='C17', needs='an embedded message that fails as an item of a list or a map value',
  breaks='errors of embedded messages in lists and maps do not say which item',
  edits=[('templates/goshared/register.go', '	} else if ctx.Index != "" {', '	} else if ctx.Index != "" && cause == "nil" {')],
  demo=godemo('message S { int32 v = 1 [(validate.rules).int32.gt = 5]; }\nmessage M { repeated S x = 1; }',
   '\terr := (&d.M{X: []*d.S{{V: 6}, {V: 1}}}).Validate()\n\twant("located", err.(d.MValidationError).Field() == "X[1]")\n')),
 dict(id='C09-cc-deep-nesting', property='C09', needs='a message nested three levels deep, in C++',
  breaks='C++ names only the last two levels of a nested message',
  edits=[('templates/cc/register.go', '		return fmt.Sprintf("%s_%s", fns.classBaseName(m), ent.Name().String())', '		return fmt.Sprintf("%s_%s", m.Name().String(), ent.Name().String())')],
  demo=ccdemo('message M { message N { message O { string x = 1 [(validate.rules).string.min_len = 1]; } } }', 'd::M::N::O m; want("rejected", !d::Validate(m, &err));')),
 dict(id='C09-go-nested-tables', property='C09', needs='two messages of the same name nested in different messages, each with a list or pattern rule on a field of the same name',
  breaks='the Go lookup tables of such messages get the same name',
  edits=[('templates/goshared/register.go', '		fns.Name(f.Message()),\n		fns.Name(f),', '		f.Message().Name(),\n		fns.Name(f),')],
  demo=godemo('message A { message N { string x = 1 [(validate.rules).string.in = "a"]; } }\nmessage B { message N { string x = 1 [(validate.rules).string.in = "b"]; } }', '\twant("b", (&d.B_N{X: "b"}).Validate() == nil)\n')),
]
