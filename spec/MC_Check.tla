------------------------------ MODULE MC_Check ------------------------------
(* Rule sets grown one rule at a time, on every shape of field, with the      *)
(* plugin's expected verdict.  Checked on all of them: a refusal is final     *)
(* (adding a rule never makes a refused set acceptable) and has a cause of at *)
(* most two rules.  Emitted: every rule set with its verdict.                 *)
EXTENDS PGVChecker, TLC, Json, IOUtils

Bound == atoi(IOEnv.BOUND)
Part == IOEnv.PART
RECURSIVE FlattenSeq(_)
FlattenSeq(qs) == IF qs = <<>> THEN <<>> ELSE qs[1] \o FlattenSeq(Tail(qs))
None == [t |-> "none", r |-> [x \in {"_"} |-> 0], m |-> <<>>]
Rules(t, r) == [t |-> t, r |-> r, m |-> <<>>]
Rec(kvs) == [x \in {"_"} \cup {kvs[i][1] : i \in DOMAIN kvs} |-> IF x = "_" THEN 0 ELSE kvs[CHOOSE i \in DOMAIN kvs : kvs[i][1] = x][2]]
Fd(card, k, w, kk) == [card |-> card, k |-> k, w |-> w, kk |-> kk]
Q(names, vals) == FlattenSeq([i \in DOMAIN names |-> [j \in DOMAIN vals |-> <<names[i], vals[j]>>]])

(* ---- rules per kind --------------------------------------------------------------*)
Compare == Q(<<"const", "lt", "lte", "gt", "gte">>, <<1, 2>>)
NumAtoms == Compare \o Q(<<"in">>, <<<<1>>, <<1, 2>>>>) \o Q(<<"not_in">>, <<<<1>>, <<2>>>>) \o <<<<"ignore_empty", TRUE>>>>
StrVals == <<<<97>>, <<233, 233>>, <<97, 97, 97>>>>
StringAtoms ==
  Q(<<"const">>, <<<<97>>>>) \o Q(<<"len", "len_bytes">>, <<0, 2>>) \o Q(<<"min_len", "max_len", "min_bytes", "max_bytes">>, <<0, 1, 2, 3>>)
  \o Q(<<"pattern">>, <<"ok", "bad">>) \o Q(<<"prefix", "suffix", "contains">>, StrVals) \o Q(<<"not_contains">>, <<<<97, 97, 97>>>>)
  \o Q(<<"in", "not_in">>, <<<<<<97>>>>, <<<<>>, <<97, 97, 97>>>>>>)
  \o Q(<<"email", "hostname", "ip", "ipv4", "ipv6", "uri", "uri_ref", "address", "uuid">>, <<TRUE>>)
  \o Q(<<"well_known_regex">>, <<"HTTP_HEADER_NAME", "HTTP_HEADER_VALUE", "UNKNOWN">>) \o Q(<<"strict">>, <<FALSE>>) \o <<<<"ignore_empty", TRUE>>>>
BytesAtoms ==
  Q(<<"const">>, <<<<0>>>>) \o Q(<<"len">>, <<0, 2>>) \o Q(<<"min_len", "max_len">>, <<0, 1, 2, 3>>) \o Q(<<"pattern">>, <<"ok", "bad">>)
  \o Q(<<"prefix", "suffix", "contains">>, <<<<255>>, <<195, 169>>, <<0, 0, 0>>>>) \o Q(<<"in", "not_in">>, <<<<<<97>>>>, <<<<>>, <<255>>>>>>)
  \o Q(<<"ip", "ipv4", "ipv6">>, <<TRUE>>) \o <<<<"ignore_empty", TRUE>>>>
EnumAtoms == Q(<<"const">>, <<1, 7>>) \o Q(<<"defined_only">>, <<TRUE, FALSE>>) \o Q(<<"in">>, <<<<1>>, <<0, 5>>, <<1, 7>>, <<-1>>, <<2>>>>) \o Q(<<"not_in">>, <<<<1>>, <<7>>>>)
AnyAtoms == Q(<<"required">>, <<TRUE, FALSE>>) \o Q(<<"in", "not_in">>, <<<<"a">>, <<"a", "b">>>>)
DurAtoms == Q(<<"required">>, <<TRUE>>) \o Q(<<"const", "lt", "lte", "gt", "gte">>, <<1, 2, -1>>) \o Q(<<"in", "not_in">>, <<<<1>>, <<1, -1>>>>)
TsAtoms == Q(<<"required">>, <<TRUE>>) \o Q(<<"const", "lt", "lte", "gt", "gte">>, <<1, 2, -1>>) \o Q(<<"lt_now", "gt_now">>, <<TRUE, FALSE>>) \o Q(<<"within">>, <<1, 0, -1>>)
BoolAtoms == Q(<<"const">>, <<TRUE, FALSE>>)
(* rules of one well-known group exclude each other in the rule language itself *)
OneofOf(n) == IF n \in {"email", "hostname", "ip", "ipv4", "ipv6", "uri", "uri_ref", "address", "uuid", "well_known_regex"} THEN "well_known" ELSE n

(* rules for elements of containers: fitting, contradictory, misplaced *)
Inner(k, w) ==
  <<None, Rules("int32", Rec(<<<<"gt", 1>>>>)), Rules("int32", Rec(<<<<"gt", 1>>, <<"lt", 1>>>>)), Rules("string", Rec(<<<<"min_len", 1>>>>)),
    Rules("string", Rec(<<<<"min_len", 2>>, <<"max_len", 1>>>>)), Rules("string", Rec(<<<<"pattern", "bad">>>>)),
    Rules("bytes", Rec(<<<<"len", 1>>, <<"max_len", 2>>>>)), Rules("enum", Rec(<<<<"defined_only", TRUE>>, <<"in", <<7>>>>>>)), Rules("enum", Rec(<<<<"defined_only", TRUE>>>>)),
    Rules("duration", Rec(<<<<"lt", 1>>, <<"lte", 2>>>>)), Rules("duration", Rec(<<<<"in", <<1, -1>>>>>>)), Rules("timestamp", Rec(<<<<"within", 0>>>>)), Rules("any", Rec(<<<<"in", <<"a">>>>, <<"not_in", <<"b">>>>>>)),
    Rules("any", Rec(<<<<"in", <<"a">>>>>>)),
    Rules("repeated", Rec(<<>>)), Rules("map", Rec(<<>>)), Rules("repeated", Rec(<<<<"min_items", 1>>>>)), Rules("bool", Rec(<<<<"const", TRUE>>>>)),
    [None EXCEPT !.m = <<Rec(<<<<"skip", TRUE>>>>)>>], [None EXCEPT !.m = <<Rec(<<<<"required", TRUE>>>>)>>],
    [Rules("int32", Rec(<<<<"gt", 1>>>>)) EXCEPT !.m = <<Rec(<<<<"required", TRUE>>>>)>>],
    [Rules("int32", Rec(<<<<"gt", 1>>>>)) EXCEPT !.m = <<Rec(<<<<"skip", TRUE>>>>)>>]>>
RepAtoms == Q(<<"min_items", "max_items">>, <<0, 1, 2>>) \o Q(<<"unique", "ignore_empty">>, <<TRUE, FALSE>>) \o Q(<<"items">>, Inner("", FALSE))
MapAtoms == Q(<<"min_pairs", "max_pairs">>, <<0, 1, 2>>) \o Q(<<"no_sparse">>, <<TRUE, FALSE>>) \o Q(<<"keys", "values">>, Inner("", FALSE)) \o Q(<<"ignore_empty">>, <<TRUE>>)
ElemKinds == <<<<"int32", FALSE>>, <<"string", FALSE>>, <<"bytes", FALSE>>, <<"enum", FALSE>>, <<"bool", FALSE>>, <<"int32", TRUE>>, <<"string", TRUE>>, <<"msg", FALSE>>,
               <<"any", FALSE>>, <<"duration", FALSE>>, <<"timestamp", FALSE>>>>

(* <<field, rule type, atoms>> *)
Univ(x_) ==
  IF Part = "atoms" THEN
    <<<<Fd("one", "num", FALSE, ""), "num", NumAtoms>>, <<Fd("one", "bytes", FALSE, ""), "bytes", BytesAtoms>>,
      <<Fd("one", "enum", FALSE, ""), "enum", EnumAtoms>>, <<Fd("one", "any", FALSE, ""), "any", AnyAtoms>>, <<Fd("one", "duration", FALSE, ""), "duration", DurAtoms>>,
      <<Fd("one", "timestamp", FALSE, ""), "timestamp", TsAtoms>>, <<Fd("one", "bool", FALSE, ""), "bool", BoolAtoms>>>>
  ELSE IF Part = "string" THEN <<<<Fd("one", "string", FALSE, ""), "string", StringAtoms>>>>
  ELSE
    [i \in DOMAIN ElemKinds |-> <<Fd("rep", ElemKinds[i][1], ElemKinds[i][2], ""), "repeated", RepAtoms>>]
    \o [i \in DOMAIN ElemKinds |-> <<Fd("map", ElemKinds[i][1], ElemKinds[i][2], "string"), "map", MapAtoms>>]
    \o [i \in 1..2 |-> <<Fd("map", ElemKinds[i][1], ElemKinds[i][2], "int32"), "map", MapAtoms>>]

(* numbers of all twelve kinds have the same rules *)
Kind(F) == IF F.k = "num" THEN [F EXCEPT !.k = "int32"] ELSE F
Type(t) == IF t = "num" THEN "int32" ELSE t

VARIABLES u, picked      \* the universe's entry, the indexes of the rules so far
vars == <<u, picked>>
Set(U, X) == [x \in {"_"} \cup {U[3][i][1] : i \in X} |-> IF x = "_" THEN 0 ELSE U[3][CHOOSE i \in X : U[3][i][1] = x][2]]
Verdict(U, X) == Reject(Kind(U[1]), Rules(Type(U[2]), Set(U, X)))
Say(U, X) == PrintT(ToJson([F |-> U[1], t |-> U[2], r |-> Set(U, X), n |-> Cardinality(X), reject |-> Verdict(U, X)]))
Init == /\ \E us \in {Univ(0)} : \E i \in DOMAIN us : u = us[i]
        /\ picked = {}
        /\ Say(u, picked)
(* rules are added in the order of the universe: every set is reached once *)
Add == \E i \in DOMAIN u[3] :
         /\ Cardinality(picked) < Bound
         /\ \A j \in picked : j < i /\ OneofOf(u[3][j][1]) # OneofOf(u[3][i][1])
         /\ picked' = picked \cup {i} /\ UNCHANGED u
         /\ Say(u, picked')
Spec == Init /\ [][Add]_vars
Pairs(X) == {P \in SUBSET X : Cardinality(P) <= 2}
TwoRuleCause == Verdict(u, picked) <=> \E P \in Pairs(picked) : Verdict(u, P)
Final == [][Verdict(u, picked) => Verdict(u, picked')]_vars
=============================================================================
