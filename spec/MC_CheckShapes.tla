--------------------------- MODULE MC_CheckShapes ---------------------------
(* Every shape of field under every type of rule (one harmless rule, or none  *)
(* at all) and every message rule; and every placement of a field.            *)
EXTENDS PGVChecker, TLC, Json
VARIABLES c
Kinds == Numeric \cup ({"bool", "string", "bytes", "enum", "msg"} \cup Special)
Elts == {[k |-> k, w |-> FALSE] : k \in Kinds} \cup {[k |-> k, w |-> TRUE] : k \in Wrappable}
KeyKinds == (Numeric \ {"float", "double"}) \cup {"bool", "string"}
Fields == {[card |-> c1, k |-> e.k, w |-> e.w, kk |-> IF c1 = "map" THEN "string" ELSE ""] : c1 \in {"one", "rep", "map"}, e \in Elts}
NoRec == [x \in {"_"} |-> 0]
Simple(t) == [x \in {"_"} \cup (IF t \in {"any", "duration", "timestamp"} THEN {"required"} ELSE {}) |-> IF x = "_" THEN 0 ELSE TRUE]
Types == (Kinds \ {"msg"}) \cup {"repeated", "map"}
R0(t) == [t |-> t, r |-> NoRec, m |-> <<>>]
MsgRules == {<<>>, <<NoRec>>} \cup {<<[x \in {"_", n} |-> IF x = "_" THEN 0 ELSE b]>> : n \in {"skip", "required"}, b \in BOOLEAN}
Put(x, R) == [y \in {"_", x} |-> IF y = "_" THEN 0 ELSE R]
In(t, x, R) == [t |-> t, r |-> Put(x, R), m |-> <<>>]
Direct == {[F |-> F, R |-> [t |-> t, r |-> r, m |-> <<>>]] : F \in Fields, t \in Types, r \in {NoRec}}
Messages == {[F |-> F, R |-> [t |-> t, r |-> NoRec, m |-> m]] : F \in Fields, t \in {"none", "string", "int32", "duration", "any", "timestamp", "repeated", "map"}, m \in MsgRules \ {<<>>}}
Nests == {[F |-> F, R |-> In("repeated", "items", R0(t))] : F \in {G \in Fields : G.card = "rep"}, t \in Types}
  \cup {[F |-> F, R |-> In("map", "values", R0(t))] : F \in {G \in Fields : G.card = "map"}, t \in Types}
  \cup {[F |-> [card |-> "map", k |-> "int32", w |-> FALSE, kk |-> kk], R |-> In("map", "keys", R0(t))] : kk \in KeyKinds, t \in Types}
  \cup {[F |-> F, R |-> In("repeated", "items", [t |-> "none", r |-> NoRec, m |-> m])] : F \in {G \in Fields : G.card = "rep"}, m \in MsgRules \ {<<>>}}
  \cup {[F |-> F, R |-> In("map", x, [t |-> "none", r |-> NoRec, m |-> m])] : F \in {G \in Fields : G.card = "map"}, x \in {"keys", "values"}, m \in MsgRules \ {<<>>}}
Modes == {"on", "disabled", "ignored"}
Placements == [modes : UNION {[1..n -> Modes] : n \in 1..3}, targeted : BOOLEAN]
Cases == Direct \cup Messages \cup Nests
Init == \/ \E x \in Cases : c = <<"field", x>> /\ PrintT(ToJson([F |-> x.F, R |-> x.R, reject |-> Reject(x.F, x.R)]))
        \/ \E p \in Placements : c = <<"place", p>> /\ PrintT(ToJson([place |-> p, looked |-> Looked(p)]))
Spec == Init /\ [][FALSE]_c
(* a field takes exactly one type of rule of its own (a wrapper that of its value, a message none) *)
OneType == c[1] = "field" /\ c[2].R.m = <<>> /\ DOMAIN c[2].R.r = {"_"} =>
  (Cardinality({t \in Types : ~Reject(c[2].F, R0(t))}) = IF c[2].F.card = "one" /\ c[2].F.k = "msg" THEN 0 ELSE 1)
=============================================================================
