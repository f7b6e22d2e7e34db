------------------------------ MODULE Families ------------------------------
(* Systematically enumerated families of schemas and values: small scope,    *)
(* but every combination within it.                                          *)
EXTENDS PGVMsg, SequencesExt

NoRules == [x \in {"_"} |-> 0]
With(r, k, v) == [x \in DOMAIN r \cup {k} |-> IF x = k THEN v ELSE r[x]]
Rec(kvs) == \* a rule record from <<name, value>> pairs
  [x \in {"_"} \cup {kvs[i][1] : i \in DOMAIN kvs} |->
     IF x = "_" THEN 0 ELSE kvs[CHOOSE i \in DOMAIN kvs : kvs[i][1] = x][2]]

El(k, r) == [k |-> k, w |-> FALSE, ty |-> "", r |-> r, req |-> FALSE, skip |-> FALSE,
             zero |-> CASE k \in {"string", "bytes"} -> <<>> [] k = "bool" -> FALSE
                        [] k \in {"int32", "int64", "sint32", "double"} -> 2 [] OTHER -> 0,
             defined |-> <<0, 1, 5>>]
Wrapped(k, r, req) == [El(k, r) EXCEPT !.w = TRUE, !.req = req]
MsgEl(ty, req, skip) == [El("msg", NoRules) EXCEPT !.ty = ty, !.req = req, !.skip = skip]
Fld(n, card, oneof, el, cr, key) == [n |-> n, card |-> card, oneof |-> oneof, el |-> el, cr |-> cr, key |-> key]
AnyKey == El("string", NoRules)
One(n, el) == Fld(n, "one", "", el, NoRules, AnyKey)
Typ(mode, fields, oneofs) == [mode |-> mode, fields |-> fields, oneofs |-> oneofs, file |-> "a", parent |-> ""]
Case(S, m, go, cc) == [S |-> S, ty |-> "T0", m |-> m, go |-> go, cc |-> cc]
Unset == [x \in {"_"} |-> 0]
Set1(n, v) == With(Unset, n, v)
Seqs(X, n) == UNION {[1..k -> X] : k \in 0..n}
(* maps over the given keys: all ways of giving each key no value or one of X *)
Entry(kt, k, v) == [kt |-> kt, k |-> k, v |-> v]
Subseqs(q) == {SelectSeq(q, LAMBDA x : x \in A) : A \in SUBSET Elems(q)}
MapsOver(keys, X) == \* keys: sequence of <<text, key>>
  UNION {{[i \in 1..Len(ks) |-> Entry(ks[i][1], ks[i][2], f[i])] : f \in [1..Len(ks) -> X]} : ks \in Subseqs(keys)}

(* ---- lists and maps: sizes, unique, items, keys, values, ignore_empty -------*)
Bounds(lo, hi, big) == \* every combination of minimum and maximum
  {NoRules} \cup {Rec(<<<<lo, a>>>>) : a \in 0..big} \cup {Rec(<<<<hi, b>>>>) : b \in 0..big}
  \cup {Rec(<<<<lo, p[1]>>, <<hi, p[2]>>>>) : p \in {q \in (0..big) \X (0..big) : q[1] <= q[2]}}
Flags(rs, k) == rs \cup {With(r, k, TRUE) : r \in rs}
(* elements with one accepted and one rejected value (a third for lists of scalars) *)
Elements(x_) == <<
  <<El("int32", Rec(<<<<"gt", 2>>>>)), <<3, 1>>, TRUE>>,
  <<El("string", Rec(<<<<"min_len", 2>>>>)), <<<<97, 98>>, <<97>>>>, TRUE>>,
  <<El("bytes", Rec(<<<<"prefix", <<0>>>>>>)), <<<<0, 255>>, <<255>>>>, TRUE>>,
  <<El("enum", Rec(<<<<"defined_only", TRUE>>>>)), <<5, 7>>, TRUE>>,
  <<El("bool", Rec(<<<<"const", TRUE>>>>)), <<TRUE, FALSE>>, TRUE>>,
  <<El("int64", NoRules), <<3, 1>>, TRUE>>,
  <<Wrapped("int32", Rec(<<<<"gt", 2>>>>), FALSE), <<<<3>>, <<1>>>>, FALSE>>,
  <<Wrapped("string", Rec(<<<<"min_len", 2>>>>), FALSE), <<<<<<97, 98>>>>, <<<<97>>>>>>, FALSE>>,
  <<El("any", Rec(<<<<"in", <<"x/y">>>>>>)), <<<<"x/y">>, <<"z">>>>, FALSE>>,
  <<El("duration", Rec(<<<<"gt", 2>>>>)), <<<<3>>, <<1>>>>, FALSE>>,
  <<MsgEl("T1", FALSE, FALSE), <<<<Set1("x", 3)>>, <<Set1("x", 1)>>>>, FALSE>>,
  <<MsgEl("T1", FALSE, TRUE), <<<<Set1("x", 3)>>, <<Set1("x", 1)>>>>, FALSE>> >>
LeafS(x_) == Typ("on", <<One("x", El("int32", Rec(<<<<"gt", 2>>>>)))>>, <<>>)
SchemaOf(F) == [t \in {"T0", "T1"} |-> IF t = "T0" THEN Typ("on", <<F>>, <<>>) ELSE LeafS(0)]
ListRules(scalar) ==
  LET b == Flags(Bounds("min_items", "max_items", 2), "ignore_empty") IN IF scalar THEN Flags(b, "unique") ELSE b
Rows(P, cases(_)) == FlattenSeq([i \in DOMAIN P |-> SetToSeq(cases(P[i]))])
(* Cartesian products of sequences, as sequences of tuples *)
Pairs(A, B) == [k \in 1..(Len(A) * Len(B)) |-> <<A[((k - 1) \div Len(B)) + 1], B[((k - 1) % Len(B)) + 1]>>]
Lists(len) == Rows(
  FlattenSeq([i \in DOMAIN Elements(0) |-> Pairs(<<Elements(0)[i]>>, SetToSeq(ListRules(Elements(0)[i][3])))]),
  LAMBDA p : {Case(SchemaOf(Fld("f", "rep", "", p[1][1], p[2], AnyKey)), Set1("f", q), TRUE, TRUE) : q \in Seqs(Elems(p[1][2]), len)})
MapKeys(x_) == <<
  <<El("string", Rec(<<<<"max_len", 1>>>>)), <<<<"[a]", <<97>>>>, <<"[bb]", <<98, 98>>>>>>>>,
  <<El("int32", Rec(<<<<"not_in", <<1>>>>>>)), <<<<"[-1]", 1>>, <<"[0]", 2>>>>>>,
  <<El("bool", NoRules), <<<<"[false]", FALSE>>, <<"[true]", TRUE>>>>>> >>
MapRules(x_) == Flags(Bounds("min_pairs", "max_pairs", 2), "ignore_empty")
Maps(keys) == Rows(
  Pairs(Pairs(keys, Elements(0)), SetToSeq(MapRules(0))),
  LAMBDA p : LET mk == p[1][1]  e == p[1][2] IN
    {Case(SchemaOf(Fld("f", "map", "", e[1], p[2], mk[1])), Set1("f", q), TRUE, TRUE) : q \in MapsOver(mk[2], Elems(e[2]))})
(* nil entries exist only in Go; no_sparse *)
SparseRules == <<NoRules, Rec(<<<<"no_sparse", TRUE>>>>), Rec(<<<<"no_sparse", FALSE>>>>),
  Rec(<<<<"no_sparse", TRUE>>, <<"ignore_empty", TRUE>>>>), Rec(<<<<"no_sparse", TRUE>>, <<"min_pairs", 1>>>>)>>
Sparse(x_) == Rows(
  Pairs(Pairs(SubSeq(MapKeys(0), 1, 2), SelectSeq(Elements(0), LAMBDA e : e[1].k = "msg")), SparseRules),
  LAMBDA p : LET mk == p[1][1]  e == p[1][2] IN
    {Case(SchemaOf(Fld("f", "map", "", e[1], p[2], mk[1])), Set1("f", q), TRUE, \A i \in DOMAIN q : q[i].v # <<>>)
       : q \in MapsOver(mk[2], Elems(e[2]) \cup {<<>>})})
NilItems(x_) == Rows(SelectSeq(Elements(0), LAMBDA e : ~e[3]), LAMBDA e :
  {Case(SchemaOf(Fld("f", "rep", "", e[1], NoRules, AnyKey)), Set1("f", q), TRUE, FALSE) : q \in Seqs(Elems(e[2]) \cup {<<>>}, 2)})

(* sizes around wider bounds, of lists and maps *)
KeyTexts == <<"[a]", "[b]", "[c]", "[d]", "[e]">>
SizedVal(F, n) == IF F.card = "rep" THEN [i \in 1..n |-> IF F.el.k = "msg" THEN <<Set1("x", 3)>> ELSE i]
                  ELSE [i \in 1..n |-> Entry(KeyTexts[i], <<96 + i>>, IF F.el.k = "msg" THEN <<Set1("x", 3)>> ELSE i)]
Sizes(x_) ==
  Rows(Pairs(<<"rep", "map">>, <<El("int64", NoRules), MsgEl("T1", FALSE, FALSE)>>), LAMBDA p :
    LET sfx == IF p[1] = "rep" THEN "items" ELSE "pairs" IN
    UNION {LET F == Fld("f", p[1], "", p[2], r, AnyKey) IN {Case(SchemaOf(F), IF n = 0 THEN Unset ELSE Set1("f", SizedVal(F, n)), TRUE, TRUE) : n \in 0..5}
      : r \in Flags(Bounds("min_" \o sfx, "max_" \o sfx, 4), "ignore_empty")})
(* unique: lists of values that are hard to tell apart.  tab names the        *)
(* harness's table of concrete numbers for the ranks.                         *)
Near(k) == [El(k, NoRules) EXCEPT !.k = k]
Tabbed(k, n) == <<[x \in DOMAIN El(k, NoRules) \cup {"tab"} |-> IF x = "tab" THEN TRUE ELSE El(k, NoRules)[x]], 0..(n - 1)>>
Rep8(c) == [i \in 1..8 |-> c]
Sames(x_) == <<Tabbed("int32", 5), Tabbed("uint32", 5), Tabbed("int64", 5), Tabbed("uint64", 5), Tabbed("sint32", 5), Tabbed("sint64", 5),
  Tabbed("fixed32", 5), Tabbed("fixed64", 5), Tabbed("sfixed32", 5), Tabbed("sfixed64", 5), Tabbed("float", 5), Tabbed("double", 5),
  <<El("bool", NoRules), BOOLEAN>>, <<El("enum", NoRules), {0, 1, 5}>>,
  <<El("string", NoRules), {<<>>, <<97>>, <<65>>, <<97, 0>>, <<233>>, <<101, 769>>}>>,
  <<El("string", NoRules), {Rep8(97), Rep8(97) \o <<97>>, Rep8(97) \o <<98>>, Rep8(97) \o Rep8(97) \o Rep8(99), Rep8(97) \o Rep8(97) \o Rep8(97) \o Rep8(97) \o <<97>>, Rep8(97) \o Rep8(97) \o Rep8(97) \o Rep8(97) \o <<98>>}>>,
  <<El("bytes", NoRules), {<<>>, <<0>>, <<0, 0>>, <<255>>, <<195>>, <<195, 169>>}>>,
  <<El("bytes", NoRules), {Rep8(255), Rep8(255) \o <<0>>, Rep8(255) \o <<255>>, Rep8(0) \o Rep8(0), Rep8(0) \o Rep8(0) \o <<1>>, Rep8(0) \o Rep8(0) \o Rep8(0) \o Rep8(0) \o <<1>>}>> >>
Uniques(x_) ==
  Rows(Sames(0), LAMBDA p : LET F == Fld("f", "rep", "", p[1], Rec(<<<<"unique", TRUE>>>>), AnyKey) IN
    {Case([t \in {"T0"} |-> Typ("on", <<F>>, <<>>)], Set1("f", q), TRUE, TRUE) : q \in {w \in Seqs(p[2], 3) : Len(w) > 1}})
  \o Rows(SubSeq(Sames(0), 1, 1) \o SubSeq(Sames(0), 15, 15) \o SubSeq(Sames(0), 17, 17), LAMBDA p : \* longer lists, every pair of positions
    LET F == Fld("f", "rep", "", p[1], Rec(<<<<"unique", TRUE>>, <<"max_items", 7>>>>), AnyKey) IN
    LET vs == SetToSeq(p[2]) IN
    {Case([t \in {"T0"} |-> Typ("on", <<F>>, <<>>)], Set1("f", [k \in 1..5 |-> IF k = ij[2] THEN vs[ij[1]] ELSE vs[k]]), TRUE, TRUE) :
      ij \in {w \in (1..5) \X (1..5) : w[1] <= w[2]}})

(* ---- presence ---------------------------------------------------------------*)
(* Every kind of field, required or not, plain or in a oneof (required or     *)
(* not) beside another member, unset or set to an accepted / rejected value.  *)
Presence(x_) == <<
  <<El("int32", Rec(<<<<"gt", 2>>>>)), {3, 1, 2}>>, <<El("int32", Rec(<<<<"lt", 3>>>>)), {3, 1, 2}>>,
  <<El("uint64", Rec(<<<<"const", 0>>>>)), {0, 1}>>, <<El("double", Rec(<<<<"gte", 3>>, <<"ignore_empty", TRUE>>>>)), {1, 2, 3}>>,
  <<El("string", Rec(<<<<"min_len", 1>>>>)), {<<>>, <<97>>}>>, <<El("string", Rec(<<<<"max_len", 0>>>>)), {<<>>, <<97>>}>>,
  <<El("string", Rec(<<<<"uuid", TRUE>>, <<"ignore_empty", TRUE>>>>)), {<<>>, <<97>>}>>,
  <<El("bytes", Rec(<<<<"min_len", 1>>>>)), {<<>>, <<0>>}>>, <<El("bool", Rec(<<<<"const", TRUE>>>>)), {TRUE, FALSE}>>,
  <<El("enum", Rec(<<<<"not_in", <<0>>>>>>)), {0, 1}>>, <<El("enum", NoRules), {0, 7}>>,
  <<El("any", Rec(<<<<"required", TRUE>>>>)), {<<"">>, <<"z">>}>>, <<El("any", Rec(<<<<"in", <<"z">>>>>>)), {<<"">>, <<"z">>}>>,
  <<El("any", Rec(<<<<"required", TRUE>>, <<"not_in", <<"z">>>>>>)), {<<"">>, <<"z">>}>>,
  <<El("duration", Rec(<<<<"required", TRUE>>>>)), {<<2>>, <<-1>>}>>, <<El("duration", Rec(<<<<"gt", 2>>>>)), {<<2>>, <<3>>, <<-1>>}>>,
  <<El("duration", Rec(<<<<"required", TRUE>>, <<"in", <<3>>>>>>)), {<<2>>, <<3>>}>>,
  <<El("timestamp", Rec(<<<<"required", TRUE>>>>)), {<<2>>, <<-1>>}>>, <<El("timestamp", Rec(<<<<"lt", 3>>>>)), {<<2>>, <<3>>, <<-1>>}>>,
  <<El("timestamp", Rec(<<<<"required", TRUE>>, <<"gte", 3>>>>)), {<<2>>, <<3>>}>>,
  <<MsgEl("T1", FALSE, FALSE), {<<Set1("x", 3)>>, <<Set1("x", 1)>>, <<Unset>>}>>, <<MsgEl("T1", TRUE, FALSE), {<<Set1("x", 3)>>, <<Unset>>}>>,
  <<MsgEl("T1", FALSE, TRUE), {<<Set1("x", 3)>>, <<Unset>>}>>, <<MsgEl("T1", TRUE, TRUE), {<<Set1("x", 3)>>, <<Unset>>}>> >>
  \o FlattenSeq([k \in 1..2 |-> LET q == k = 1 IN << <<Wrapped("int32", Rec(<<<<"gt", 2>>>>), q), {<<2>>, <<3>>}>>, <<Wrapped("string", Rec(<<<<"min_len", 1>>>>), q), {<<<<>>>>, <<<<97>>>>}>>,
      <<Wrapped("bool", Rec(<<<<"const", TRUE>>>>), q), {<<TRUE>>, <<FALSE>>}>>, <<Wrapped("bytes", Rec(<<<<"min_len", 1>>>>), q), {<<<<>>>>, <<<<0>>>>}>>,
      <<Wrapped("uint64", NoRules, q), {<<0>>}>>,
      <<Wrapped("double", Rec(<<<<"gt", 2>>, <<"ignore_empty", TRUE>>>>), q), {<<2>>, <<1>>, <<3>>}>> >>])
Other(x_) == One("other", El("int32", Rec(<<<<"lte", 3>>>>)))
PresenceShapes(el) == {
  Typ("on", <<One("f", el), Other(0)>>, <<>>),
  Typ("on", <<[One("f", el) EXCEPT !.oneof = "o"], [Other(0) EXCEPT !.oneof = "o"]>>, <<[n |-> "o", required |-> FALSE]>>),
  Typ("on", <<[Other(0) EXCEPT !.oneof = "o"], [One("f", el) EXCEPT !.oneof = "o"]>>, <<[n |-> "o", required |-> TRUE]>>) }
PresenceCases(x_) == Rows(Presence(0), LAMBDA p :
  UNION {{Case([t \in {"T0", "T1"} |-> IF t = "T0" THEN T ELSE LeafS(0)], m, TRUE, TRUE)
     : m \in {Unset, Set1("other", 4), Set1("other", 3)} \cup {Set1("f", v) : v \in p[2]}
             \cup (IF T.oneofs = <<>> THEN {With(Set1("f", v), "other", w) : v \in p[2], w \in {3, 4}} ELSE {})}
     \cup (IF T.oneofs # <<>> /\ MessageLike(p[1])   \* a chosen member holding nil: Go only
           THEN {Case([t \in {"T0", "T1"} |-> IF t = "T0" THEN T ELSE LeafS(0)], Set1("f", <<>>), TRUE, FALSE)} ELSE {})
   : T \in PresenceShapes(p[1])})
(* proto2: unset scalars take their declared default *)
DefaultEls(x_) == <<
  <<El("int32", Rec(<<<<"gt", 2>>>>)), {1, 2, 3}, {1, 2, 3}>>,
  <<El("string", Rec(<<<<"min_len", 2>>>>)), {<<97>>, <<97, 98>>}, {<<>>, <<97, 98>>}>>,
  <<El("bytes", Rec(<<<<"min_len", 2>>>>)), {<<97>>, <<0, 255>>}, {<<>>, <<0, 0>>}>>,
  <<El("bool", Rec(<<<<"const", FALSE>>>>)), BOOLEAN, BOOLEAN>>,
  <<[El("enum", Rec(<<<<"not_in", <<3>>>>>>)) EXCEPT !.defined = <<3, 1, 5>>], {3, 1}, {3, 5}>> >>
DefaultField(el, z) == LET F == One("f", [el EXCEPT !.zero = z]) IN
  [f \in DOMAIN F \cup {"default"} |-> IF f = "default" THEN TRUE ELSE F[f]]
DefaultCases(x_) == Rows(DefaultEls(0), LAMBDA p :
  UNION {{Case([t \in {"T0"} |-> Typ("on", <<DefaultField(p[1], z)>>, <<>>)], m, TRUE, TRUE)
     : m \in {Unset} \cup {Set1("f", v) : v \in p[3]}} : z \in p[2]})

(* ---- nesting: a chain T0 -> T1 -> T2 through every kind of field, with skip marks and message options --------*)
Links(ty, skips) == UNION {{
  Fld("f", "one", "", MsgEl(ty, FALSE, s), NoRules, AnyKey), Fld("f", "rep", "", MsgEl(ty, FALSE, s), NoRules, AnyKey),
  Fld("f", "map", "", MsgEl(ty, FALSE, s), NoRules, AnyKey), Fld("f", "one", "o", MsgEl(ty, FALSE, s), NoRules, AnyKey)} : s \in skips}
TypeWith(mode, F) == Typ(mode, <<One("x", El("int32", Rec(<<<<"gt", 2>>>>))), F>>, IF F.oneof = "" THEN <<>> ELSE <<[n |-> "o", required |-> FALSE]>>)
PutVal(F, x, v) == With(Set1("x", x), "f", CASE F.card = "one" -> <<v>> [] F.card = "rep" -> <<<<Set1("x", 3)>>, <<v>>>>
                                   [] F.card = "map" -> <<Entry("[k]", <<107>>, <<v>>)>>)
LeafModes == {"on", "disabled", "ignored", "legacy"}
LeafVal(mode, x) == IF mode = "legacy" THEN (IF x = 1 THEN Set1("bad", TRUE) ELSE Unset) ELSE Set1("x", x)
LeafType(mode) == IF mode = "legacy" THEN Typ(mode, <<>>, <<>>) ELSE Typ(mode, <<One("x", El("int32", Rec(<<<<"gt", 2>>>>)))>>, <<>>)
FixVal(F, mode, x0, x) == \* lists hold a good element first; legacy types have no field x
  With(Set1("x", x0), "f", CASE F.card = "one" -> <<LeafVal(mode, x)>> [] F.card = "rep" -> <<<<LeafVal(mode, 3)>>, <<LeafVal(mode, x)>>>>
                  [] F.card = "map" -> <<Entry("[k]", <<107>>, <<LeafVal(mode, x)>>)>>)
(* depth 2: outer mode x link x skip x leaf mode x values *)
Nest2(x_) == Rows(
  Pairs(Pairs(SetToSeq(Links("T1", BOOLEAN)), <<"on", "disabled">>), SetToSeq(LeafModes)),
  LAMBDA p : LET F == p[1][1]  m0 == p[1][2]  m1 == p[2] IN
    {Case([t \in {"T0", "T1"} |-> IF t = "T0" THEN TypeWith(m0, F) ELSE LeafType(m1)], FixVal(F, m1, x0, x), TRUE, TRUE)
       : x0 \in {1, 3}, x \in {1, 3}})
(* depth 3: middle message with its own options *)
Nest3(skips) == Rows(
  Pairs(Pairs(SetToSeq(Links("T1", skips)), SetToSeq(Links("T2", skips))), Pairs(<<"on", "disabled", "ignored">>, SetToSeq(LeafModes))),
  LAMBDA p : LET F == p[1][1]  G == p[1][2]  m1 == p[2][1]  m2 == p[2][2] IN
    {Case([t \in {"T0", "T1", "T2"} |-> IF t = "T0" THEN TypeWith("on", F) ELSE IF t = "T1" THEN TypeWith(m1, G) ELSE LeafType(m2)],
          PutVal(F, 3, FixVal(G, m2, x1, x)), TRUE, TRUE)
       : x1 \in {1, 3}, x \in {1, 3}})
(* the embedded type is declared inside other messages with options of their own *)
Declared(x_) ==
  Rows(Pairs(Pairs(<<"on", "disabled", "ignored">>, <<"on", "disabled", "ignored">>), Pairs(SetToSeq(LeafModes), SetToSeq(Links("T1", {FALSE})))), LAMBDA p :
    LET outer == p[1][1]  mid == p[1][2]  m1 == p[2][1]  F == p[2][2] IN
    {Case([t \in {"T0", "T1", "TQ", "TP"} |->
             CASE t = "T0" -> TypeWith("on", F)
               [] t = "T1" -> [LeafType(m1) EXCEPT !.parent = "TP"]
               [] t = "TP" -> [Typ(mid, <<One("x", El("int32", Rec(<<<<"gt", 2>>>>)))>>, <<>>) EXCEPT !.parent = "TQ"]
               [] t = "TQ" -> Typ(outer, <<One("x", El("int32", Rec(<<<<"gt", 2>>>>)))>>, <<>>)],
          FixVal(F, m1, 3, x), TRUE, TRUE) : x \in {1, 3}})
(* recursive type: T0 holds T0 *)
RecVals(x_) == LET v0 == {Set1("x", 1), Set1("x", 3)}
               v1(F) == UNION {{With(Set1("x", x), "f", IF F.card = "one" THEN <<v>> ELSE IF F.card = "rep" THEN <<<<Set1("x", 3)>>, <<v>>>> ELSE <<Entry("[k]", <<107>>, <<v>>)>>)
                                 : v \in v0} : x \in {1, 3}}
               v2(F) == {With(Set1("x", x), "f", IF F.card = "one" THEN <<v>> ELSE IF F.card = "rep" THEN <<<<v>>, <<Set1("x", 1)>>>> ELSE <<Entry("[k]", <<107>>, <<v>>), Entry("[l]", <<108>>, <<Set1("x", 3)>>)>>)
                                 : v \in v1(F), x \in {1, 3}}
           IN UNION {{Case([t \in {"T0"} |-> TypeWith("on", F)], v, TRUE, TRUE) : v \in v0 \cup v1(F) \cup v2(F)} : F \in Links("T0", {FALSE})}

(* ---- rules C++ does not implement, in every position, before and after violated rules --------*)
Unimpl(x_) == <<
  <<El("string", Rec(<<<<"email", TRUE>>>>)), {<<>>, <<97>>}>>, <<El("string", Rec(<<<<"uri", TRUE>>>>)), {<<97>>}>>,
  <<El("string", Rec(<<<<"uri_ref", TRUE>>>>)), {<<97>>}>>,
  <<El("string", Rec(<<<<"email", TRUE>>, <<"ignore_empty", TRUE>>>>)), {<<>>, <<97>>}>>,
  <<El("string", Rec(<<<<"uri", TRUE>>, <<"min_len", 2>>>>)), {<<97>>, <<97, 98>>}>>,
  <<El("string", Rec(<<<<"uri_ref", FALSE>>>>)), {<<97>>}>>,
  <<El("bytes", Rec(<<<<"ip", TRUE>>>>)), {<<>>, <<1>>, <<1, 2, 3, 4>>}>>, <<El("bytes", Rec(<<<<"ipv4", TRUE>>>>)), {<<1, 2, 3, 4>>}>>,
  <<El("bytes", Rec(<<<<"ipv6", TRUE>>, <<"ignore_empty", TRUE>>>>)), {<<>>, <<1>>}>>,
  <<El("bytes", Rec(<<<<"ipv6", TRUE>>, <<"prefix", <<1>>>>>>)), {<<1>>, <<2>>}>>,
  <<El("timestamp", Rec(<<<<"lt", 3>>>>)), {<<2>>, <<4>>}>>, <<El("timestamp", Rec(<<<<"gte", 3>>>>)), {<<2>>}>>,
  <<El("timestamp", Rec(<<<<"lte", 3>>, <<"gt", 1>>>>)), {<<2>>}>>, <<El("timestamp", Rec(<<<<"const", 3>>>>)), {<<3>>}>>,
  <<El("timestamp", Rec(<<<<"lt_now", TRUE>>>>)), {<<3>>}>>, <<El("timestamp", Rec(<<<<"gt_now", TRUE>>>>)), {<<3>>}>>,
  <<El("timestamp", Rec(<<<<"required", TRUE>>, <<"lt", 3>>>>)), {<<2>>}>>, <<El("timestamp", Rec(<<<<"required", TRUE>>>>)), {<<2>>}>> >>
(* an unimplemented rule beside each other rule the value satisfies: reached all the same *)
Beside == <<<<"const", <<97>>>>, <<"in", <<<<97>>, <<98>>>>>>, <<"not_in", <<<<98>>>>>>, <<"min_len", 1>>, <<"max_len", 1>>, <<"len", 1>>,
  <<"prefix", <<97>>>>, <<"suffix", <<97>>>>, <<"contains", <<97>>>>, <<"not_contains", <<98>>>>, <<"min_bytes", 1>>, <<"max_bytes", 1>>, <<"len_bytes", 1>>,
  <<"pattern", [op |-> "lit", c |-> 97]>>>>
BesideTs == <<<<"lt", 3>>, <<"lte", 3>>, <<"gt", 1>>, <<"gte", 1>>, <<"const", 2>>>>
BesideCases(x_) ==
  Rows(Pairs(<<<<"string", "email">>, <<"string", "uri">>, <<"string", "uri_ref">>, <<"bytes", "ip">>, <<"bytes", "ipv4">>, <<"bytes", "ipv6">>>>, Beside), LAMBDA p :
    IF p[1][1] = "bytes" /\ p[2][1] \in {"min_bytes", "max_bytes", "len_bytes", "not_contains"} THEN {} ELSE
    LET F == One("f", El(p[1][1], Rec(<<<<p[1][2], TRUE>>, p[2]>>))) IN
    {Case([t \in {"T0"} |-> Typ("on", <<F>>, <<>>)], m, FALSE, TRUE) : m \in {Set1("f", <<97>>), Set1("f", <<98>>), Set1("f", <<98, 98>>), Unset}})
  \o Rows(Pairs(BesideTs, <<"lt_now", "gt_now", "required", "">>), LAMBDA p :
    IF p[2] \in {"lt_now", "gt_now"} /\ p[1][1] # "const" THEN {} ELSE
    LET F == One("f", El("timestamp", Rec(<<p[1]>> \o (IF p[2] = "" THEN <<>> ELSE <<<<p[2], TRUE>>>>)))) IN
    {Case([t \in {"T0"} |-> Typ("on", <<F>>, <<>>)], m, FALSE, TRUE) : m \in {Set1("f", <<2>>), Set1("f", <<4>>), Unset}})
HeldIn(el, v) == \* the element in each kind of field, with a value
  {<<One("f", el), v>>, <<[One("f", el) EXCEPT !.oneof = "o"], v>>,
   <<Fld("f", "rep", "", [el EXCEPT !.r = Without(el.r, {"required"})], NoRules, AnyKey), <<v, v>>>>,
   <<Fld("f", "map", "", [el EXCEPT !.r = Without(el.r, {"required"})], NoRules, AnyKey), <<Entry("[k]", <<107>>, v)>>>>}
  \cup (IF el.k \in {"string", "bytes"} THEN {<<One("f", [el EXCEPT !.w = TRUE]), <<v>>>>} ELSE {})
  \cup (IF el.k = "string" THEN {<<Fld("f", "map", "", El("int32", NoRules), NoRules, el),
                                  <<Entry(IF v = <<>> THEN "[]" ELSE IF v = <<97>> THEN "[a]" ELSE "[ab]", v, 2)>>>>} ELSE {})
Outer(F, link, skip) == \* T0 { other; f -> T1 { x; f } }
  [t \in {"T0", "T1"} |-> IF t = "T0" THEN Typ("on", <<Other(0), [Fld("f", link, "", MsgEl("T1", FALSE, skip), NoRules, AnyKey) EXCEPT !.n = "g"]>>, <<>>)
                          ELSE TypeWith("on", F)]
InLink(link, v) == CASE link = "one" -> <<v>> [] link = "rep" -> <<<<Set1("x", 3)>>, <<v>>>> [] OTHER -> <<Entry("[k]", <<107>>, <<v>>)>>
UnimplCases(x_) == Rows(Unimpl(0), LAMBDA p :
  UNION {UNION {
      {Case([t \in {"T0"} |-> TypeWith("on", h[1])], m, FALSE, TRUE) : m \in {Set1("x", x), With(Set1("x", x), "f", h[2])}}
      \cup {Case(Outer(h[1], link, skip), With(Set1("other", 3), "g", InLink(link, m)), FALSE, TRUE)
              : m \in {Set1("x", x), With(Set1("x", x), "f", h[2])}, link \in {"one", "rep", "map"}, skip \in BOOLEAN}
      : x \in {1, 3}} : h \in UNION {HeldIn(p[1], v) : v \in p[2]}})
(* map no_sparse, which C++ announces as unimplemented after the entries *)
NoSparseCases(x_) == Rows(<<"int32", "msg">>, LAMBDA k :
  LET e == IF k = "msg" THEN MsgEl("T1", FALSE, FALSE) ELSE El("int32", Rec(<<<<"gt", 2>>>>)) IN
  IF k = "int32" THEN {} ELSE
  {Case(SchemaOf(Fld("f", "map", "", e, r, AnyKey)), m, FALSE, TRUE)
     : r \in {Rec(<<<<"no_sparse", TRUE>>>>), Rec(<<<<"no_sparse", TRUE>>, <<"ignore_empty", TRUE>>>>), Rec(<<<<"no_sparse", TRUE>>, <<"min_pairs", 1>>>>), Rec(<<<<"no_sparse", FALSE>>>>)},
       m \in {Unset, Set1("f", <<Entry("[a]", <<97>>, <<Set1("x", 3)>>)>>), Set1("f", <<Entry("[a]", <<97>>, <<Set1("x", 3)>>), Entry("[b]", <<98>>, <<Set1("x", 1)>>)>>)}})

(* ---- string and bytes formats in every position --------------------------------*)
Ascii == " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"
Code(c) == 31 + (CHOOSE k \in 1..95 : SubSeq(Ascii, k, k) = c)
Codes(s) == [k \in 1..Len(s) |-> Code(SubSeq(s, k, k))]
Lit(c) == [op |-> "lit", c |-> c]
Formats(x_) == <<
  <<Rec(<<<<"ip", TRUE>>>>), <<"1.2.3.4", "::1", "1.2.3">>>>, <<Rec(<<<<"ipv4", TRUE>>>>), <<"1.2.3.4", "::1">>>>,
  <<Rec(<<<<"ipv6", TRUE>>>>), <<"1.2.3.4", "::1">>>>, <<Rec(<<<<"hostname", TRUE>>>>), <<"a.b", "-a">>>>,
  <<Rec(<<<<"address", TRUE>>>>), <<"a.b", "::1", "a..b">>>>, <<Rec(<<<<"email", TRUE>>>>), <<"a@b", "a">>>>,
  <<Rec(<<<<"uri", TRUE>>>>), <<"http://a/b", "/b">>>>, <<Rec(<<<<"uri_ref", TRUE>>>>), <<"/b", "/%">>>>,
  <<Rec(<<<<"uuid", TRUE>>>>), <<"00000000-0000-0000-0000-00000000000f", "00000000-0000-0000-0000-00000000000g">>>>,
  <<Rec(<<<<"well_known_regex", "HTTP_HEADER_NAME">>>>), <<":a", "a:">>>>,
  <<Rec(<<<<"well_known_regex", "HTTP_HEADER_NAME">>, <<"strict", FALSE>>>>), <<"a b">>>>,
  <<Rec(<<<<"well_known_regex", "HTTP_HEADER_VALUE">>>>), <<"a b">>>>,
  <<Rec(<<<<"pattern", [op |-> "cat", xs |-> <<[op |-> "bol"], Lit(97), [op |-> "plus", x |-> Lit(98)], [op |-> "eol"]>>]>>>>), <<"abb", "a", "cabb">>>>,
  <<Rec(<<<<"pattern", Lit(98)>>>>), <<"abc", "b", "a">>>> >>
BytesFormats(x_) == <<
  <<Rec(<<<<"ip", TRUE>>>>), {<<1, 2, 3, 4>>, <<1>>}>>, <<Rec(<<<<"ipv4", TRUE>>>>), {<<1, 2, 3, 4>>, <<1>>}>>, <<Rec(<<<<"ipv6", TRUE>>>>), {<<1, 2, 3, 4>>, [k \in 1..16 |-> k]}>>,
  <<Rec(<<<<"pattern", [op |-> "plus", x |-> Lit(98)]>>>>), {<<98, 98>>, <<97>>}>> >>
FormatHolders(el) == \* every position a string or bytes rule may take; the value is placed by FormatVal
  {One("f", el), [One("f", el) EXCEPT !.oneof = "o"], One("f", [el EXCEPT !.w = TRUE]), Fld("f", "rep", "", el, NoRules, AnyKey),
   Fld("f", "rep", "", [el EXCEPT !.w = TRUE], NoRules, AnyKey), Fld("f", "map", "", el, NoRules, AnyKey), Fld("f", "map", "", [el EXCEPT !.w = TRUE], NoRules, AnyKey)}
  \cup (IF el.k = "string" THEN {Fld("f", "map", "", El("int32", NoRules), NoRules, el)} ELSE {})
FormatVal(F, kt, v) ==
  LET e == IF F.el.w THEN <<v>> ELSE v IN
  CASE F.card = "one" -> e [] F.card = "rep" -> <<e>>
    [] F.card = "map" -> IF F.el.k = "int32" THEN <<Entry("[" \o kt \o "]", v, 2)>> ELSE <<Entry("[k]", <<107>>, e)>>
InNested(F) == [t \in {"T0", "T1"} |-> IF t = "T0" THEN Typ("on", <<One("g", MsgEl("T1", FALSE, FALSE))>>, <<>>)
                                       ELSE TypeWith("on", F)]
FormatCases(x_) ==
  Rows(Pairs(Formats(0), <<FALSE, TRUE>>), LAMBDA p :
    LET r == IF p[2] THEN With(p[1][1], "ignore_empty", TRUE) ELSE p[1][1]  vs == Elems(p[1][2]) \cup {""} IN
    UNION {{Case([t \in {"T0"} |-> TypeWith("on", F)], With(Set1("x", 3), "f", FormatVal(F, v, Codes(v))), TRUE, TRUE) : v \in vs} : F \in FormatHolders(El("string", r))}
    \cup {Case(InNested(One("f", El("string", r))), Set1("g", <<With(Set1("x", 3), "f", Codes(v))>>), TRUE, TRUE) : v \in vs})
  \o Rows(Pairs(BytesFormats(0), <<FALSE, TRUE>>), LAMBDA p :
    LET r == IF p[2] THEN With(p[1][1], "ignore_empty", TRUE) ELSE p[1][1]  vs == p[1][2] \cup {<<>>} IN
    UNION {{Case([t \in {"T0"} |-> TypeWith("on", F)], With(Set1("x", 3), "f", FormatVal(F, "", v)), TRUE, TRUE) : v \in vs} : F \in FormatHolders(El("bytes", r))})

(* ---- every rule of every kind in every position ----------------------------------*)
Num(k, r, good, bad) == <<El(k, Rec(r)), <<good, bad>>>>
Txt(r, good, bad) == <<El("string", Rec(r)), <<Codes(good), Codes(bad)>>>>
Byt(r, good, bad) == <<El("bytes", Rec(r)), <<good, bad>>>>
NumPlaces(k) == <<
  Num(k, <<<<"const", 3>>>>, 3, 1), Num(k, <<<<"gt", 2>>>>, 3, 2), Num(k, <<<<"gte", 3>>>>, 3, 2), Num(k, <<<<"lt", 2>>>>, 1, 2), Num(k, <<<<"lte", 1>>>>, 1, 2),
  Num(k, <<<<"gt", 1>>, <<"lt", 3>>>>, 2, 3), Num(k, <<<<"gte", 1>>, <<"lt", 3>>>>, 1, 3), Num(k, <<<<"gt", 1>>, <<"lte", 3>>>>, 3, 1), Num(k, <<<<"gte", 1>>, <<"lte", 3>>>>, 1, 0),
  Num(k, <<<<"gt", 3>>, <<"lt", 1>>>>, 4, 2), Num(k, <<<<"gte", 3>>, <<"lt", 1>>>>, 3, 1), Num(k, <<<<"gt", 3>>, <<"lte", 1>>>>, 1, 3), Num(k, <<<<"gte", 3>>, <<"lte", 1>>>>, 3, 2),
  Num(k, <<<<"in", <<1, 3>>>>>>, 3, 2), Num(k, <<<<"not_in", <<1, 3>>>>>>, 2, 3), Num(k, <<<<"gt", 1>>, <<"not_in", <<1, 3>>>>>>, 2, 1), Num(k, <<<<"gt", 2>>, <<"ignore_empty", TRUE>>>>, 3, 1)>>
OtherPlaces(x_) == <<
  <<El("bool", Rec(<<<<"const", TRUE>>>>)), <<TRUE, FALSE>>>>,
  <<El("enum", Rec(<<<<"const", 1>>>>)), <<1, 5>>>>, <<El("enum", Rec(<<<<"in", <<1, 5>>>>>>)), <<5, 0>>>>, <<El("enum", Rec(<<<<"not_in", <<5>>>>>>)), <<1, 5>>>>,
  <<El("enum", Rec(<<<<"defined_only", TRUE>>>>)), <<5, 7>>>>, <<El("enum", Rec(<<<<"not_in", <<5>>>>, <<"defined_only", TRUE>>>>)), <<1, 7>>>>,
  Txt(<<<<"const", Codes("ab")>>>>, "ab", "a"), Txt(<<<<"len", 2>>>>, "ab", "a"), Txt(<<<<"min_len", 2>>>>, "ab", "a"), Txt(<<<<"max_len", 2>>>>, "ab", "abc"), Txt(<<<<"min_len", 1>>, <<"max_len", 2>>>>, "ab", "abc"), Txt(<<<<"min_len", 2>>, <<"max_len", 2>>>>, "ab", "abc"),
  Txt(<<<<"len_bytes", 2>>>>, "ab", "a"), Txt(<<<<"min_bytes", 2>>>>, "ab", "a"), Txt(<<<<"max_bytes", 2>>>>, "ab", "abc"), Txt(<<<<"min_bytes", 1>>, <<"max_bytes", 2>>>>, "ab", "abc"),
  Txt(<<<<"prefix", Codes("a")>>>>, "ab", "ba"), Txt(<<<<"suffix", Codes("a")>>>>, "ba", "ab"), Txt(<<<<"contains", Codes("c")>>>>, "acb", "ab"), Txt(<<<<"not_contains", Codes("c")>>>>, "ab", "acb"),
  Txt(<<<<"in", <<Codes("a"), Codes("b")>>>>>>, "b", "c"), Txt(<<<<"not_in", <<Codes("a"), Codes("b")>>>>>>, "c", "b"), Txt(<<<<"min_len", 2>>, <<"prefix", Codes("a")>>, <<"not_contains", Codes("z")>>>>, "ab", "z"),
  Byt(<<<<"const", <<0, 255>>>>>>, <<0, 255>>, <<0>>), Byt(<<<<"len", 2>>>>, <<0, 255>>, <<0>>), Byt(<<<<"min_len", 2>>>>, <<0, 255>>, <<0>>), Byt(<<<<"max_len", 1>>>>, <<255>>, <<0, 255>>), Byt(<<<<"min_len", 1>>, <<"max_len", 2>>>>, <<255>>, <<>>),
  Byt(<<<<"prefix", <<0>>>>>>, <<0, 255>>, <<255, 0>>), Byt(<<<<"suffix", <<0>>>>>>, <<255, 0>>, <<0, 255>>), Byt(<<<<"contains", <<7>>>>>>, <<0, 7, 0>>, <<0, 0>>), Byt(<<<<"in", <<<<0>>, <<1>>>>>>>>, <<1>>, <<2>>), Byt(<<<<"not_in", <<<<0>>, <<1>>>>>>>>, <<2>>, <<1>>),
  <<El("any", Rec(<<<<"in", <<"x/y">>>>>>)), <<<<"x/y">>, <<"z">>>>>>, <<El("any", Rec(<<<<"not_in", <<"x/y">>>>>>)), <<<<"z">>, <<"x/y">>>>>>,
  <<El("duration", Rec(<<<<"const", 3>>>>)), <<<<3>>, <<1>>>>>>, <<El("duration", Rec(<<<<"gt", 1>>, <<"lte", 3>>>>)), <<<<3>>, <<1>>>>>>, <<El("duration", Rec(<<<<"gte", 3>>, <<"lt", 1>>>>)), <<<<3>>, <<1>>>>>>,
  <<El("duration", Rec(<<<<"in", <<1, 3>>>>>>)), <<<<3>>, <<2>>>>>>, <<El("duration", Rec(<<<<"not_in", <<1, 3>>>>>>)), <<<<2>>, <<3>>>>>>, <<El("duration", Rec(<<<<"lt", 3>>>>)), <<<<2>>, <<-1>>>>>>,
  <<El("timestamp", Rec(<<<<"const", 3>>>>)), <<<<3>>, <<1>>>>>>, <<El("timestamp", Rec(<<<<"gt", 1>>, <<"lte", 3>>>>)), <<<<3>>, <<1>>>>>>, <<El("timestamp", Rec(<<<<"gte", 3>>, <<"lt", 1>>>>)), <<<<3>>, <<1>>>>>>, <<El("timestamp", Rec(<<<<"lt", 3>>>>)), <<<<2>>, <<-1>>>>>>,
  <<MsgEl("T1", FALSE, FALSE), <<<<Set1("x", 3)>>, <<Set1("x", 1)>>>>>> >>
Wrappable == {"bool", "string", "bytes", "int32", "int64", "uint32", "uint64", "float", "double"}
Plains(kinds) == FlattenSeq([i \in DOMAIN kinds |-> NumPlaces(kinds[i])]) \o OtherPlaces(0)
KeyText(k, v) == IF k = "string" THEN (CHOOSE t \in {"", "a", "b", "c", "z", "ab", "ba", "abc", "acb"} : Codes(t) = v)
                 ELSE IF k = "bool" THEN (IF v THEN "true" ELSE "false") ELSE ToString(IF k \in {"int32", "int64", "sint32", "double"} THEN v - 2 ELSE v)
ListOf(el, q) == <<Fld("f", "rep", "", el, NoRules, AnyKey), q>>
MapOf(el, q) == <<Fld("f", "map", "", el, NoRules, AnyKey), [k \in 1..Len(q) |-> Entry(<<"[a]", "[b]">>[k], <<<<97>>, <<98>>>>[k], q[k])]>>
PlaceHolders(el, g, b) == \* fields holding the bad value, as <<field, value>>
  LET w == [el EXCEPT !.w = TRUE] IN
  {<<One("f", el), b>>, <<One("f", el), g>>, <<[One("f", el) EXCEPT !.oneof = "o"], b>>, ListOf(el, <<g, b>>), ListOf(el, <<b, g, b>>), MapOf(el, <<b>>), MapOf(el, <<g, b>>)}
  \cup (IF el.k \notin Wrappable THEN {} ELSE {<<One("f", w), <<b>>>>, <<One("f", w), <<>>>>, <<[One("f", w) EXCEPT !.oneof = "o"], <<b>>>>, ListOf(w, <<<<g>>, <<b>>>>), ListOf(w, <<<<>>, <<b>>>>), MapOf(w, <<<<g>>, <<b>>>>)})
  \cup (IF el.k \in {"string", "bool", "int32", "int64", "uint32", "uint64", "sint32", "fixed64", "sfixed32"}
        THEN {<<Fld("f", "map", "", e, NoRules, el), IF two THEN <<Entry("[" \o KeyText(el.k, g) \o "]", g, v), Entry("[" \o KeyText(el.k, b) \o "]", b, v)>> ELSE <<Entry("[" \o KeyText(el.k, b) \o "]", b, v)>>>>
                : <<e, v>> \in {<<El("int64", NoRules), 3>>, <<MsgEl("T1", FALSE, FALSE), <<Set1("x", 1)>>>>}, two \in BOOLEAN} ELSE {})
PlaceCases(kinds) == Rows(Plains(kinds), LAMBDA p :
  UNION {{Case([t \in {"T0", "T1"} |-> IF t = "T0" THEN TypeWith("on", h[1]) ELSE LeafS(0)], With(Set1("x", 3), "f", h[2]), TRUE, TRUE)} : h \in PlaceHolders(p[1], p[2][1], p[2][2])})

Family(name) ==
  CASE name = "lists"    -> Lists(2)
    [] name = "lists3"   -> Lists(3)
    [] name = "maps"     -> Maps(SubSeq(MapKeys(0), 1, 1))
    [] name = "maps3"    -> Maps(MapKeys(0))
    [] name = "sparse"   -> Sparse(0) \o NilItems(0)
    [] name = "presence" -> PresenceCases(0)
    [] name = "defaults" -> DefaultCases(0)
    [] name = "nest2"    -> Nest2(0) \o SetToSeq(RecVals(0))
    [] name = "nest3"    -> Nest3({FALSE})
    [] name = "unimpl"   -> UnimplCases(0) \o NoSparseCases(0)
    [] name = "beside"   -> BesideCases(0)
    [] name = "sizes"    -> Sizes(0)
    [] name = "unique"   -> Uniques(0)
    [] name = "declared" -> Declared(0)
    [] name = "formats"  -> FormatCases(0)
    [] name = "places"   -> PlaceCases(<<"int32", "fixed64">>)
    [] name = "places3"  -> PlaceCases(<<"int32", "fixed64", "double", "uint32", "sint32", "sfixed32", "int64", "uint64", "float">>)
    [] name = "nest3s"   -> Nest3(BOOLEAN)
=============================================================================
