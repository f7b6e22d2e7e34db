----------------------------- MODULE PGVOutput ------------------------------
(* Which files the plugin writes: the names of the outputs of one input file *)
(* for a language and its parameters, and runs over several input files.     *)
(*                                                                           *)
(* An input file is a record                                                 *)
(*   [dir, base]   its path: a sequence of directories, and a name           *)
(*   [pkg]         its proto package: a sequence of components               *)
(*   [go]          go_package: [path (sequence), slash?]                     *)
(*   [java]        [pkg: <<>> or <<sequence>>, multi, outer: "" or a name]   *)
(*   [msgs]        names of its top-level messages, in order                 *)
(*   [names]       names of all its messages, enums and services, at any     *)
(*                 depth                                                     *)
(*   [uses]        does it import the rules (directly or publicly)?          *)
(* Names are strings; paths are sequences of strings.                        *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

Lowers == "abcdefghijklmnopqrstuvwxyz"
Uppers == "ABCDEFGHIJKLMNOPQRSTUVWXYZ"
At(s, k) == SubSeq(s, k, k)
Occurs(c, s) == \E k \in 1..Len(s) : At(s, k) = c
Upper(c) == At(Uppers, CHOOSE k \in 1..26 : At(Lowers, k) = c)
(* the class name protobuf derives from a file name *)
RECURSIVE CamelFrom(_, _, _)
CamelFrom(s, k, cap) ==
  IF k > Len(s) THEN ""
  ELSE LET c == At(s, k) IN
       IF Occurs(c, Lowers) THEN (IF cap THEN Upper(c) ELSE c) \o CamelFrom(s, k + 1, FALSE)
       ELSE IF Occurs(c, Uppers) THEN c \o CamelFrom(s, k + 1, FALSE)
       ELSE IF Occurs(c, "0123456789") THEN c \o CamelFrom(s, k + 1, TRUE)
       ELSE CamelFrom(s, k + 1, TRUE)
Camel(s) == CamelFrom(s, 1, TRUE)

RECURSIVE Join(_, _)
Join(q, name) == IF q = <<>> THEN name ELSE q[1] \o "/" \o Join(Tail(q), name)

(* ---- Go ---------------------------------------------------------------------*)
GoDir(f, paths) == IF paths = "source_relative" \/ ~f.go.slash THEN f.dir ELSE f.go.path
IsPrefix(p, q) == Len(p) <= Len(q) /\ SubSeq(q, 1, Len(p)) = p
(* the module prefix is removed where it is a prefix of whole path elements *)
Strip(module, dir) == IF module # <<>> /\ IsPrefix(module, dir) THEN SubSeq(dir, Len(module) + 1, Len(dir)) ELSE dir
GoNames(f, par) == {Join(Strip(par.module, GoDir(f, par.paths)), f.base \o ".pb.validate.go")}

(* ---- C++ ---------------------------------------------------------------------*)
CcNames(f) == {Join(f.dir, f.base \o x) : x \in {".pb.validate.h", ".pb.validate.cc"}}

(* ---- Java: beside the class protobuf generates, which the reflective index    *)
(* looks for under the class's name with "Validator" appended                     *)
Outer(f) ==
  IF f.java.outer # "" THEN f.java.outer
  ELSE IF Camel(f.base) \in f.names THEN Camel(f.base) \o "OuterClass" ELSE Camel(f.base)
JavaDir(f) == IF f.java.pkg = <<>> THEN f.pkg ELSE f.java.pkg[1]
JavaClasses(f) == IF f.java.multi THEN {f.msgs[k] : k \in 1..Len(f.msgs)} ELSE {Outer(f)}
JavaNames(f) == IF f.uses THEN {Join(JavaDir(f), c \o "Validator.java") : c \in JavaClasses(f)} ELSE {}

Outputs(f, lang, par) ==
  CASE lang = "go" -> GoNames(f, par) [] lang = "cc" -> CcNames(f) [] lang = "java" -> JavaNames(f)
=============================================================================
