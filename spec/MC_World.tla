------------------------------ MODULE MC_World ------------------------------
(* The worlds of proto files the plugin accepts, beyond the rules themselves: *)
(* where referenced types live, what things are called, how files, packages   *)
(* and syntaxes are laid out.  Every world listed is accepted, so the Go and  *)
(* C++ code generated for it must compile (C09) and its output must be the    *)
(* same, under the same names, in any company (C10).                          *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils

Part == IOEnv.PART

(* ---- where a referenced enum or message lives --------------------------------*)
(* here, nested in the using message, nested in a sibling, nested in a disabled *)
(* or ignored message; in another file of the same package (and Go package), of *)
(* the same proto package but another Go package, of another proto package in   *)
(* the same Go package, of another package of both kinds, two levels down, or   *)
(* behind a public import.                                                      *)
Homes == {"here", "inner", "sibling", "in_disabled", "in_ignored", "file", "othergo", "otherproto", "other", "nested_other", "public"}
EnumRules == {"none", "const", "defined_only", "in", "not_in", "in_defined"}
MsgRules == {"none", "required", "skip"}
Positions == {"field", "oneof", "item", "value"}
Extra(ref, pos) ==
  CASE pos = "item" /\ ref = "enum" -> {"", "unique", "min"}
    [] pos = "item"                 -> {"", "min"}
    [] pos = "value" /\ ref = "msg" -> {"", "no_sparse", "min"}
    [] pos = "value"                -> {"", "min"}
    [] OTHER                        -> {""}
TypeWorlds == {w \in [kind : {"types"}, home : Homes, ref : {"enum", "msg"}, pos : Positions, rule : EnumRules \cup MsgRules, extra : {"", "unique", "min", "no_sparse"}, syntax : {"proto2", "proto3"}] :
  /\ w.rule \in (IF w.ref = "enum" THEN EnumRules ELSE MsgRules)
  /\ w.extra \in Extra(w.ref, w.pos)
  /\ w.extra = "no_sparse" => w.rule # "skip"}

(* ---- names ---------------------------------------------------------------------*)
FieldNames == {"foo", "foo_bar", "fooBar", "FOO", "Foo2", "foo_1", "foo1b", "_foo", "foo__bar", "foo_", "f_o_o", "a1_b2C",
  "int", "class", "default", "namespace", "typename", "operator", "new", "delete", "bool", "double", "auto", "this", "and", "not", "goto", "register",
  "type", "func", "range", "var", "map", "string_", "select", "chan", "nil", "len", "true_", "iota", "append", "error",
  "err", "errors", "all", "item", "idx", "key", "val", "fmt", "bytes", "time", "net", "url", "mail", "regexp", "strings", "utf8", "anypb", "lookup", "pattern",
  "pgv", "std", "google", "protobuf", "re2", "validate_", "msg", "i", "result", "value", "values", "size", "has_foo", "get_foo", "set_foo", "clear", "descriptor", "reset", "string", "marshal", "proto_message"}
MessageNames == {"M", "Lower_case", "m", "snake_case_name", "Int32", "String", "Error", "Time", "Errors", "Regexp", "Duration", "Message", "Any", "M1", "M_1", "class", "Validate", "Validator", "ValidationMsg"}
OneofNames == {"o", "my_oneof", "myOneof", "Kind", "kind_1", "default", "class", "type", "_x", "value"}
(* rules whose code keeps a table, a pattern or a helper named after the field *)
TableRules == {"in_string", "not_in_int", "pattern", "in_enum", "uuid", "hostname", "email", "in_double", "not_in_bytes", "in_any", "in_duration", "ts_within", "items_in", "items_pattern", "keys_in",
  "values_in", "keys_values_in", "unique", "unique_enum", "wrapper_in", "message", "const"}
NameWorlds == [kind : {"names"}, what : {"field"}, name : FieldNames, rule : TableRules]
  \cup [kind : {"names"}, what : {"message", "nested"}, name : MessageNames, rule : {"in_string", "message", "items_pattern", "in_enum"}]
  \cup [kind : {"names"}, what : {"oneof", "oneof_required"}, name : OneofNames, rule : {"in_string", "message", "const", "in_any"}]

(* ---- layout --------------------------------------------------------------------*)
Base == [kind |-> "layout", file |-> "a", pkg |-> "p", gopkg |-> "path", syntax |-> "proto3", content |-> "normal", with |-> "alone"]
Dim == [file |-> {"a_b", "a-b", "a.b", "aB", "x/y", "x/y-z/a_b", "1a", "A", "main", "a_test", "unix"},
        pkg |-> {"", "p.q", "p_q", "p1.v2_a", "P.Q", "p._q", "google.p", "pgv", "std", "validate"},
        gopkg |-> {"path;alias", "dotted", "dashed", "path;fmt"},
        syntax |-> {"proto2"},
        content |-> {"blank", "enum_only", "no_fields", "no_rules", "disabled", "ignored", "nested_only", "recursive", "mutual", "no_validate_import", "extension", "oneof_only", "big"},
        with |-> {"same_package", "same_gopkg", "importing", "same_base"}]
Deviate(w, d) == {[w EXCEPT ![d] = v] : v \in Dim[d]}
LayoutWorlds == {Base} \cup UNION {Deviate(Base, d) : d \in DOMAIN Dim} \cup UNION {UNION {Deviate(w, e) : w \in Deviate(Base, d)} : <<d, e>> \in {x \in (DOMAIN Dim) \X (DOMAIN Dim) : x[1] # x[2]}}

(* ---- literals ------------------------------------------------------------------*)
TextClasses == {"empty", "quote", "backslash", "newline", "percent", "nul", "nul_digit", "control", "trigraph", "astral", "latin", "backtick", "template", "comment", "hexlike", "octallike", "del", "bom", "line_sep", "long", "mixed"}
BytesClasses == {"empty", "all", "ff", "nul_digit", "hexlike", "quote", "trigraph", "high_digit", "utf8", "backslash"}
TextRules == {"const", "prefix", "suffix", "contains", "not_contains", "in", "not_in", "pattern"}
NumClasses == {"zero", "minus_zero", "min", "max", "minus_one", "tiny", "huge", "fraction", "dup", "dup_zero", "inf", "minus_inf", "nan"}
NumRules == {"const", "lt", "lte", "gt", "gte", "in", "not_in", "inside", "outside"}
Numerics == {"float", "double", "int32", "int64", "uint32", "uint64", "sint32", "sint64", "fixed32", "fixed64", "sfixed32", "sfixed64"}
Floats == {"float", "double"}
Signed == Numerics \ {"uint32", "uint64", "fixed32", "fixed64"}
NumLiteral(k, c) == \/ c \in {"zero", "max", "dup"}
                    \/ (c \in {"min", "minus_one"} /\ k \in Signed)
                    \/ k \in Floats
InstantClasses == {"zero", "nano", "minus", "min", "max", "fraction", "mixed_sign", "go_max", "past_go_max", "dup"}
InstantRules == {"const", "lt", "lte", "gt", "gte", "inside", "outside", "in", "not_in", "within"}
SizeClasses == {"0", "1", "i31", "u32", "i63max", "i63", "u64"}
SizeRules == {<<"string", "len">>, <<"string", "min_len">>, <<"string", "max_len">>, <<"string", "len_bytes">>, <<"string", "min_bytes">>, <<"string", "max_bytes">>, <<"string", "both_len">>, <<"string", "both_bytes">>,
  <<"bytes", "len">>, <<"bytes", "min_len">>, <<"bytes", "max_len">>, <<"bytes", "both_len">>,
  <<"repeated", "min_items">>, <<"repeated", "max_items">>, <<"repeated", "both_items">>, <<"map", "min_pairs">>, <<"map", "max_pairs">>, <<"map", "both_pairs">>}
Places == {"field", "wrapper", "item", "value", "key", "oneof"}
LiteralWorlds ==
  [kind : {"literal"}, type : {"string"}, class : TextClasses, rule : TextRules, pos : Places]
  \cup [kind : {"literal"}, type : {"bytes"}, class : BytesClasses, rule : TextRules \ {"not_contains", "pattern"}, pos : Places \ {"key"}]
  \cup [kind : {"literal"}, type : {"any"}, class : TextClasses, rule : {"in", "not_in"}, pos : {"field", "item", "value", "oneof"}]
  \cup {l \in [kind : {"literal"}, type : Numerics, class : NumClasses, rule : NumRules, pos : Places] :
          /\ NumLiteral(l.type, l.class)
          /\ l.class \in {"dup", "dup_zero"} => l.rule \in {"in", "not_in"}
          /\ l.pos = "key" => l.type \notin Floats
          /\ l.pos = "wrapper" => l.type \in {"float", "double", "int32", "int64", "uint32", "uint64"}}
  \cup {l \in [kind : {"literal"}, type : {"duration", "timestamp"}, class : InstantClasses, rule : InstantRules, pos : {"field", "item", "value", "oneof"}] :
          /\ l.class = "dup" => l.rule \in {"in", "not_in"}
          /\ l.type = "timestamp" => (l.rule \notin {"in", "not_in"} /\ l.class # "mixed_sign")
          /\ l.rule = "within" => (l.type = "timestamp" /\ l.class \notin {"zero", "minus", "min"})
          /\ l.class # "mixed_sign"}
  \cup {[kind |-> "literal", type |-> r[1], class |-> c, rule |-> r[2], pos |-> "field"] : <<r, c>> \in SizeRules \X SizeClasses}

(* ---- names that meet --------------------------------------------------------------*)
Clashes == [kind : {"clash"}, what : {"nested_tables", "nested_twice", "key_value_tables", "case_tables", "user_error_types", "same_enum_names", "same_package_ends", "oneof_tables", "two_same_rules", "sub_and_file", "same_message_two_packages"}, name : {""}]
  \cup [kind : {"clash"}, what : {"field"}, name : {"validate", "validate_all", "all_errors", "error", "field", "key", "cause", "reason"}]
  \cup [kind : {"clash"}, what : {"enum_package"}, name : {"fmt", "time", "errors", "net", "url", "bytes", "strings", "regexp", "mail", "utf8", "anypb", "m", "err", "all", "val", "item", "key", "idx", "l", "math", "v", "ok", "string", "len", "sorted_keys"}]

(* ---- what Java makes of names ------------------------------------------------------*)
(* A file may name its Java classes in five styles.  Accessors of fields whose names   *)
(* meet are told apart by numbers, some names are reserved, classes may hide those of   *)
(* java.lang, a file's class must not be called like a message in it.                   *)
JavaStyles == {"plain", "outer", "multi", "package", "both"}
JavaReserved == {"class", "all_fields", "descriptor_for_type", "serialized_size", "unknown_fields", "parser_for_type", "default_instance_for_type", "initialization_error_string", "cached_size",
  "class_", "java_class", "proto", "index", "item", "key", "value", "string", "integer", "this", "super", "null", "true", "io", "com", "a_1_b", "a1b2", "a__b", "_a", "a_", "A", "aB_c", "x1", "x_1", "validator_for"}
JavaPairs == {<<"foo", "foo_count">>, <<"foo", "foo_list">>, <<"foo", "foo_map">>, <<"foo", "foo_bytes">>, <<"foo", "foo_value">>, <<"foo", "foo_case">>, <<"foo", "foo_builder">>, <<"foo", "Foo">>, <<"foo_bar", "fooBar">>, <<"foo_bar", "foo__bar">>, <<"foo1", "foo_1">>,
  <<"foo", "has_foo">>, <<"foo", "get_foo">>, <<"foo_count", "foo_count_count">>}
JavaClasses == {"String", "Integer", "Object", "Long", "Double", "Float", "Boolean", "List", "Class", "Override", "Pattern", "Map", "java", "io", "com", "org", "proto", "Enum", "Exception", "SuppressWarnings", "Math", "System", "Validator", "ValidatorImpl", "M_1", "m", "Builder_", "Constants"}
Shapes == {"scalar", "required", "repeated", "map", "enum", "oneof", "in"}
JavaWorlds ==
  [kind : {"java"}, what : {"field"}, name : JavaReserved, other : {""}, shape : Shapes, style : {"any"}]
  \cup [kind : {"java"}, what : {"pair"}, name : {p[1] : p \in JavaPairs}, other : {p[2] : p \in JavaPairs}, shape : Shapes, style : {"any"}]
  \cup [kind : {"java"}, what : {"class", "nested"}, name : JavaClasses, other : {""}, shape : {"all"}, style : JavaStyles]
  \cup [kind : {"java"}, what : {"outer_message", "outer_nested", "outer_enum", "outer_nested_enum", "outer_service", "outer_elsewhere"}, name : {"foo", "foo_bar", "fooBar", "foo2bar", "foo_2", "Foo"}, other : {""}, shape : {"all"}, style : JavaStyles]
  \cup [kind : {"java"}, what : {"twins", "cousins", "oneof_and_field", "rules_twice", "deep", "package_parts", "no_package", "import_other_style"}, name : {""}, other : {""}, shape : {"all"}, style : JavaStyles]
(* protoc's own Java code does not compile for these *)
JavaHopeless(x) == \/ x.what = "pair" /\ x.other = "Foo"
                   \/ x.what = "pair" /\ <<x.other, x.shape>> \in {<<"foo_builder", "required">>, <<"foo_bytes", "in">>, <<"foo_bytes", "oneof">>, <<"foo_map", "map">>}
                   \/ x.what \in {"class", "nested"} /\ x.name \in {"com", "java", "io"} /\ x.style # "plain"
                   \/ x.what = "package_parts" /\ x.style \in {"both", "package"}
JavaWorld == {x \in JavaWorlds : (x.what = "pair" => <<x.name, x.other>> \in JavaPairs) /\ ~JavaHopeless(x)}

Worlds(x_) == CASE Part = "java" -> JavaWorld [] Part = "clashes" -> Clashes [] Part = "literals" -> LiteralWorlds [] Part = "types" -> TypeWorlds [] Part = "names" -> NameWorlds [] Part = "layout" -> LayoutWorlds

VARIABLE w
Init == \E ws \in {Worlds(0)} : \E x \in ws : w = x /\ PrintT(ToJson(x))
Next == FALSE /\ UNCHANGED w
Spec == Init /\ [][Next]_w

(* a world never needs more than it declares *)
Sane == /\ (w.kind = "types" => (w.home = "public" => TRUE))
        /\ (w.kind = "layout" => Cardinality({d \in DOMAIN Dim : w[d] # Base[d]}) <= 2)
=============================================================================
