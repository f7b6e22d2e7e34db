#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": None}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

prop("C01", "Numeric and bool rules accept exactly the documented value set",
 "For every numeric proto type (float, double and all ten integer types), for bool, and for their google.protobuf wrapper types, the generated Go and C++ validators accept a value exactly when it satisfies every rule on the field: const equality, the lt/lte/gt/gte bounds with the right open or closed end (a lower bound above the upper bound means 'outside'), membership in `in`, non-membership in `not_in`. `ignore_empty` exempts exactly the zero value, and an unset wrapper is never checked. This holds at the type's extremes and for adjacent values (NaN excluded).",
 ["inputs", "programs"], "all rule combinations the plugin accepts x all values of all 12 numeric types and bool, plain and wrapped",
 "The harness samples about three hand-picked values per rule on a few types; it never visits every bound combination, type extremes or adjacent values.",
 ["templates/goshared/num.go","templates/goshared/ltgt.go","templates/goshared/const.go","templates/goshared/in.go","templates/goshared/wrapper.go","templates/goshared/register.go","templates/cc/ltgt.go","templates/cc/const.go","templates/cc/in.go","templates/cc/num.go","templates/cc/wrapper.go","templates/cc/register.go"],
 [("range template", "templates/goshared/ltgt.go, templates/cc/ltgt.go"),("literal rendering","goSharedFuncs.lit, CCFuncs.lit"),("lookup tables","msgTpl InLookup/NotInLookup")],
 ["generated Validate()/ValidateAll() (Go)","generated Validate(const T&, ValidationMsg*) (C++)"])
prop("C02", "String and bytes content rules count and compare exactly",
 "For string and bytes fields (plain or wrapped), the generated Go and C++ validators accept a value exactly when it satisfies every literal rule: len/min_len/max_len count Unicode code points on strings and bytes on bytes, len_bytes/min_bytes/max_bytes count encoded bytes, prefix/suffix/contains/not_contains/const/in/not_in compare the exact content. All limits are inclusive. `ignore_empty` exempts exactly the empty value.",
 ["inputs", "programs"], "all combinations of literal rules x all valid UTF-8 strings / all byte strings (tested up to length 6 over code points of every UTF-8 width)",
 "Tests use short ASCII values and one rule at a time; combined rules, multi-byte text at the boundary and escapes in generated literals are not covered.",
 ["templates/goshared/string.go","templates/goshared/bytes.go","templates/cc/string.go","templates/cc/bytes.go","validate/validate.h","templates/goshared/register.go","templates/cc/register.go"],
 [("string template","templates/goshared/string.go, templates/cc/string.go"),("bytes template","templates/goshared/bytes.go, templates/cc/bytes.go"),("Utf8Len/IsPrefix/IsSuffix/Contains","validate/validate.h")],
 ["generated Validate()/ValidateAll() (Go)","generated Validate (C++)"])
prop("C03", "Well-known string formats and patterns recognise exactly their grammar",
 "The generated Go validators accept a string under ip/ipv4/ipv6, hostname, address, uuid, email, uri, uri_ref, well_known_regex (strict and non-strict) and pattern exactly when it belongs to the documented format, and bytes under ip/ipv4/ipv6 exactly by length and IPv4-mapping. The generated C++ validators give the same answer for ip/ipv4/ipv6, hostname, address, uuid and well_known_regex, and for pattern require the whole value to match where Go searches for a match. Format rules apply wherever a string rule may appear (field, wrapper, list item, map key or value) and `ignore_empty` exempts exactly the empty value.",
 ["inputs", "programs"], "all strings (enumerated over grammar-directed alphabets plus mutated valid/invalid seeds at every length limit) x every position a string rule may take",
 "A dozen hand-picked strings per format; limits such as 63/253/254/64 and each character-class edge are not enumerated.",
 ["templates/goshared/known.go","templates/goshared/string.go","templates/goshared/bytes.go","templates/go/file.go","templates/shared/well_known.go","module/checker.go","validate/validate.h","templates/cc/string.go"],
 [("hostname/email/uuid helpers","templates/goshared/known.go"),("well-known regexes","module/checker.go regex_map"),("C++ format helpers","validate/validate.h")],
 ["generated Validate()/ValidateAll() (Go)","generated Validate (C++)"])
prop("C04", "Repeated and map rules check the size and every single element",
 "The generated Go and C++ validators accept a list or map exactly when its size satisfies min/max, a `unique` list has no duplicates, every item satisfies the `items` rules, and every key and value satisfy the `keys` and `values` rules, wherever in the container the offending element is; embedded messages in lists and maps are validated element by element. `ignore_empty` exempts exactly the empty container, and in Go `no_sparse` rejects exactly maps holding a nil value.",
 ["inputs", "programs"], "all container rule combinations x all lists/maps up to length 4 with violating elements at every position",
 "Tests put one bad element in one position and combine at most two container rules.",
 ["templates/goshared/repeated.go","templates/goshared/map.go","templates/cc/repeated.go","templates/cc/map.go","templates/goshared/msg.go","templates/cc/msg.go","templates/shared/context.go"],
 [("element contexts","RuleContext.Elem / RuleContext.Key in templates/shared/context.go"),("loops","repTpl, mapTpl")],
 ["generated Validate()/ValidateAll() (Go)","generated Validate (C++)"])
prop("C05", "Presence: required, unset fields, defaults and oneofs",
 "The generated Go and C++ validators report a missing value exactly when a required message, wrapper, Any, Duration or Timestamp field is unset or a required oneof has no member set. Other rules on an unset message-typed field (including wrappers, Any, Duration, Timestamp) are not applied, rules on an unset scalar are applied to its default, and rules on a oneof member are applied exactly when that member is the one set.",
 ["inputs", "programs"], "all presence combinations of proto2/proto3 fields, oneofs and wrapper/Any/Duration/Timestamp fields x required / not required",
 "Tests check single-field messages only; combinations of set and unset members in one message are not explored.",
 ["templates/goshared/wrapper.go","templates/goshared/any.go","templates/go/required.go","templates/go/message.go","templates/goshared/msg.go","templates/cc/wrapper.go","templates/cc/message.go","templates/cc/msg.go"],
 [("required template","templates/go/required.go, templates/cc/message.go"),("oneof switch","msgTpl")],
 ["generated Validate()/ValidateAll() (Go)","generated Validate (C++)"])
prop("C06", "Validation recurses into embedded messages unless opted out",
 "A message is rejected exactly when one of its own rules or one of the rules of a message reachable through set, non-skipped embedded fields (singular, repeated, map value or oneof member, including recursive message types and messages of other files) is violated. A message marked disabled or a field marked skip hides everything below it, an ignored message gets no validator and is not entered, and in Go an embedded message offering only a hand-written Validate() is still validated in both modes.",
 ["inputs", "programs"], "all nestings of message types (bounded depth 4) x all values, with disabled/ignored/skip marks anywhere",
 "Tests nest one level with one violation.",
 ["templates/go/message.go","templates/cc/message.go","templates/goshared/msg.go","templates/cc/msg.go","templates/shared/disabled.go","validate/validate.h"],
 [("embedded message dispatch","templates/go/message.go, pgv::Validator<T>::CheckMessage"),("disabled/ignored options","templates/shared/disabled.go")],
 ["generated Validate()/ValidateAll() (Go)","generated Validate (C++)"])
prop("C07", "Validate and ValidateAll agree and report every violation once",
 "For every message value, the generated Go ValidateAll returns nil exactly when Validate returns nil; otherwise it reports one error per violated rule of every field and element, in declaration order (oneof members after all other fields; map entries in any order), none lost, duplicated or invented. Validate returns the first of those errors (for maps: the first error of some violating entry). The same holds at every level of nesting, where an embedded message contributes one error whose cause is the embedded message's own result in the same mode.",
 ["inputs", "programs"], "all schemas and values (random nested schemas, many simultaneous violations), both modes",
 "The harness only compares the number of top-level errors for a few single-field messages.",
 ["templates/goshared/msg.go","templates/go/message.go","templates/goshared/repeated.go","templates/goshared/map.go","templates/goshared/string.go"],
 [("if !all { return err }; errors = append(...)","every template under templates/goshared")],
 ["Validate()","ValidateAll()","AllErrors()"])
prop("C08", "The plugin rejects contradictory or mistyped rules and nothing else",
 "Code generation fails, with no output, exactly when a non-disabled message carries rules that contradict each other or do not fit the field: a rule kind different from the field's type (at field, item, key or value level), const mixed with other numeric/duration/timestamp rules, both in and not_in, in mixed with a range, lt with lte, gt with gte, equal lower and upper bounds, a minimum above its maximum, max_len above max_bytes, len mixed with min/max length, an unparsable pattern or a pattern mixed with in or well_known_regex, an affix longer than the maximum length, undefined in-values under defined_only, mixed now/within/absolute timestamp bounds, a non-positive within, misplaced unique, no_sparse, skip or message rules (on fields, items, keys or values), or a missing/unknown `lang`. Every other rule set is accepted.",
 ["programs", "configurations"], "all rule sets up to the listed pairwise and triple combinations for every field kind and container position",
 "module/checker_test.go does not exist in the stable tests; tests only generate from valid protos, so no rejection is ever exercised.",
 ["module/checker.go","module/validate.go","templates/shared/context.go"],
 [("CheckRules and friends","module/checker.go"),("lang parameter","module/validate.go")],
 ["CodeGeneratorResponse / exit status of protoc-gen-validate"])
prop("C09", "Accepted proto files always yield Go and C++ code that compiles",
 "For every proto file the plugin accepts, the generated Go and C++ validators compile together with the protobuf-generated code, whatever the rule combination, the position of the rule (field, wrapper, oneof member, list item, map key or value, nested message, proto2 or proto3), the content of string and bytes literals, the extreme values of numbers, or imports between files and packages. Findings listed in known_findings.json are the accepted exceptions.",
 ["programs"], "all accepted single- and multi-rule fields at every position, nested and cross-package types, awkward names and literals",
 "The test protos exercise one fixed corpus; positions and literal contents outside it are never generated.",
 ["templates/goshared/msg.go","templates/cc/msg.go","templates/go/file.go","templates/cc/file.go","templates/shared/well_known.go","templates/goshared/register.go","templates/cc/register.go"],
 [("lookup table emission","msgTpl"),("imports","templates/go/file.go"),("FileNeeds","templates/shared/well_known.go")],
 ["go build / g++ on generated output"])
prop("C10", "Plugin output is deterministic, compositional and correctly named",
 "For a given request the plugin always produces byte-identical output, and the content generated for a file does not depend on which other files are generated in the same run or on their order, nor does generating for one language affect another. Each input file yields exactly the documented outputs (Go: X.pb.validate.go under the go_package or source-relative path with the module prefix removed; C++: X.pb.validate.h and .cc; Java: only if the file imports the validation rules, directly or publicly: one file per top-level message or one per file, named after the protobuf Java class with Validator appended), each name once.",
 ["configurations", "schedules", "histories"], "all subsets and orders of the files of a multi-package corpus, repeated runs, all documented plugin parameters",
 "Tests generate once, in one order, into one tree, and never compare outputs.",
 ["module/validate.go","templates/pkg.go","templates/java/file.go","templates/java/register.go","main.go"],
 [("Execute loop over a map of targets","module/validate.go"),("file path functions","templates/pkg.go, cc.CcFilePath, java.JavaFilePath")],
 ["CodeGeneratorResponse"])
prop("C11", "Duration and Timestamp rules compare exact instants",
 "For Duration fields (Go and C++) and Timestamp fields (Go), a set value is accepted exactly when it is a valid Duration/Timestamp (if any rule needs its value) and satisfies const, lt/lte/gt/gte (inside or outside), in, not_in at nanosecond resolution; required rejects exactly the unset value. lt_now, gt_now and within are evaluated against the clock at the time of the call, `within` bounding the distance to now in the permitted direction(s).",
 ["inputs", "programs"], "all accepted rule combinations x values on, one nanosecond beside and far from every bound, valid and invalid; offsets around now",
 "Tests use whole-second values and one rule at a time; now-relative combinations are sampled once.",
 ["templates/goshared/duration.go","templates/goshared/timestamp.go","templates/go/duration.go","templates/go/timestamp.go","templates/cc/duration.go","templates/goshared/register.go"],
 [("duration comparison","durationcmpTpl, cc durationTpl"),("timestamp comparison","timestampcmpTpl")],
 ["generated Validate()/ValidateAll() (Go)","generated Validate (C++)"])
prop("C12", "C++ never silently accepts a rule it does not implement",
 "For every rule the C++ target does not implement (string email, uri, uri_ref; bytes ip, ipv4, ipv6; timestamp comparisons; map no_sparse), the generated C++ validator throws pgv::UnimplementedException whenever evaluation reaches that rule with all earlier rules satisfied, instead of returning true. It never throws for a message whose reached rules are all implemented, and messages of unregistered types are accepted.",
 ["inputs", "programs"], "all placements of unimplemented rules (plain, nested, ignore_empty, oneof, repeated, map, wrapper) x all values",
 "The harness treats UnimplementedException as an allowed failure and so cannot tell a lost check from an unimplemented one.",
 ["templates/cc/string.go","templates/cc/bytes.go","templates/cc/timestamp.go","templates/cc/map.go","templates/cc/register.go","validate/validate.h"],
 [("failUnimplemented","templates/cc/register.go"),("Validator registry","validate/validate.h")],
 ["generated Validate (C++)"])
prop("C13", "Validation is a pure, repeatable, concurrency-safe function",
 "Calling a generated Go or C++ validator never changes the message and keeps no state between calls: repeated, interleaved and concurrent validations of shared or distinct messages all return the result that a single isolated call returns (for timestamps relative to now, at that instant), free of data races.",
 ["schedules", "histories", "inputs"], "all interleavings of validations of a bounded set of messages, any call history",
 "Each test case calls the validator once in a fresh process state.",
 ["templates/goshared/msg.go","templates/goshared/repeated.go","templates/goshared/known.go","templates/go/file.go","templates/cc/msg.go","validate/validate.h"],
 [("package-level lookup tables and regexes","msgTpl"),("per-call state","validate(all)")],
 ["Validate()","ValidateAll()","race detector","serialized message before/after"])
prop("C14", "Java validator indexes resolve, cache and fall back consistently",
 "The explicit Java validator index returns, at any point of any history of registrations and lookups, the validator registered for exactly that class, and otherwise validates through the fallback index it was given (by default accepting everything), honouring overwrites; a validator obtained earlier follows later registrations, and a registered validator is given the index itself for its embedded messages. The reflective index resolves a message class to the generated validator, or to the fallback it was given (by default accepting everything) when the class has none or its enclosing validator has none for it, calls it for every validation, reports the generated validator's failure unchanged, and a repeated lookup gives the same validator as the first, also under concurrent lookups.",
 ["histories", "schedules"], "all histories of add/lookup/validate of bounded length, all small class shapes, concurrent lookups",
 "The Java unit tests are not part of the runnable suite here and check a single lookup.",
 ["java/pgv-java-stub/src/main/java/io/envoyproxy/pgv/ExplicitValidatorIndex.java","java/pgv-java-stub/src/main/java/io/envoyproxy/pgv/ReflectiveValidatorIndex.java","java/pgv-java-stub/src/main/java/io/envoyproxy/pgv/ValidatorIndex.java","java/pgv-java-stub/src/main/java/io/envoyproxy/pgv/Validator.java","java/pgv-java-stub/src/main/java/io/envoyproxy/pgv/ValidatorImpl.java"],
 [("ConcurrentHashMap caches","ExplicitValidatorIndex.VALIDATOR_IMPL_INDEX, VALIDATOR_INDEX; ReflectiveValidatorIndex.VALIDATOR_INDEX")],
 ["ValidatorIndex.validatorFor(...).assertValid/isValid"])
prop("C15", "gRPC interceptors let only valid messages through, exactly once",
 "With the server interceptor installed, the service sees exactly the valid request messages in order up to the first invalid one; an invalid message closes the call once with INVALID_ARGUMENT and a status naming the field and the failure (an unimplemented rule too), and nothing reaches the service's onMessage or onHalfClose afterwards; a call the service closed itself is not closed again, and cancellation, completion and readiness still reach the service. With the client interceptor, an invalid message is never sent and surfaces to the caller as the corresponding status exception, while valid messages (of whatever class) are sent unchanged and in order. Headers, responses and the other events of a call pass through both unchanged.",
 ["histories", "schedules", "fault_sequences"], "all call histories of bounded length over valid/invalid/unimplemented messages, half-close and cancel, unary and streaming",
 "The Java tests are not runnable here and cover one message per call.",
 ["java/pgv-java-grpc/src/main/java/io/envoyproxy/pgv/grpc/ValidatingServerInterceptor.java","java/pgv-java-grpc/src/main/java/io/envoyproxy/pgv/grpc/ValidatingClientInterceptor.java","java/pgv-java-grpc/src/main/java/io/envoyproxy/pgv/grpc/ValidationExceptions.java"],
 [("aborted flag","ValidatingServerInterceptor listener"),("status mapping","ValidationExceptions")],
 ["ServerCall.close/onMessage/onHalfClose","ClientCall.sendMessage"])
prop("C16", "Java runtime rule library decides rules exactly as documented",
 "Each check of the Java validation runtime (comparison and range, const, in/not_in collections, string lengths, affixes and formats uuid/ip/hostname/address/pattern, bytes, repeated, map, required, enum, timestamp and duration checks) throws a ValidationException naming the given field exactly when the value violates the rule, and returns normally otherwise. List, map-key and map-value checks visit every element. (An e-mail address may be given in angle brackets; a pattern must match the whole text.)",
 ["inputs"], "all argument combinations over bounded abstract domains incl. boundary and extreme values",
 "The Java unit tests are not part of the runnable suite here and sample one or two values per rule.",
 ["java/pgv-java-stub/src/main/java/io/envoyproxy/pgv"],
 [("static checks","ComparativeValidation, ConstantValidation, CollectiveValidation, StringValidation, BytesValidation, RepeatedValidation, MapValidation, RequiredValidation, EnumValidation, TimestampValidation")],
 ["ValidationException thrown or not"])
prop("C17", "Go validation errors locate the violation precisely",
 "Every error returned by a generated Go validator identifies the message type and the Go name of the violating field, with [i] for a list element and [key] for a map entry, and carries a non-empty reason; an error caused by an embedded message carries that message's error as its cause and other rule errors have no embedded-message cause. Its text contains the message name, field, reason and the cause's text, and a multi-error's text joins the texts of all its errors in order.",
 ["inputs", "programs"], "all violations of all schemas explored for C04-C07",
 "Tests check only whether an error is returned and how many.",
 ["templates/goshared/msg.go","templates/goshared/register.go","templates/shared/context.go"],
 [("errIdxCause","templates/goshared/register.go"),("error type methods","templates/goshared/msg.go")],
 ["Field()","Reason()","Key()","Cause()","ErrorName()","Error()","AllErrors()"])
prop("C18", "Generated Java validators decide messages exactly as documented",
 "The Java validator that the plugin generates for a message accepts a message of that type exactly when the documented rules say so, and otherwise throws a ValidationException (never another exception) naming a field that violates its rules: numeric, string, bytes, bool, enum, repeated, map, any, duration and timestamp rules on plain, wrapper, list-item, map-key and map-value fields, ignore_empty, presence and required fields and oneofs, skipped fields, disabled and ignored messages, and embedded messages validated through the index. Unsigned values compare as unsigned numbers and -0.0 equals 0.0; a pattern must match the whole text. (Regular expressions themselves and host names are left to RE2/J and Commons Validator.)",
 ["inputs", "programs"], "all rule sets over abstract values and value tables per kind, all bounded message families, random schemas and values",
 "The stable suite does not run Java; the conformance harness samples a few values per rule.",
 ["templates/java", "java/pgv-java-stub/src/main/java/io/envoyproxy/pgv", "validate/validate.proto"],
 [("rule templates", "templates/java/*.go"), ("runtime checks", "java/pgv-java-stub/src/main/java/io/envoyproxy/pgv/*.java")],
 ["generated <Message>Validator.assertValid (Java)"])
prop("C19", "Accepted proto files yield Java code that compiles",
 "Whenever the plugin accepts a proto file for Java - whatever combination of rules, field and oneof names, nesting, packages, Java file options (java_package, java_outer_classname, java_multiple_files) and rule literals - the generated sources compile together with protoc's own Java classes and the runtime library.",
 ["programs"], "all single rules and pairs of rules per kind and position, name and layout worlds, Java class naming worlds",
 "The stable suite does not run Java at all.",
 ["templates/java", "module/validate.go"],
 [("names", "templates/java/register.go"), ("constants", "templates/java/*.go")],
 ["javac on the generated sources"])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P))
