------------------------------- MODULE PGVMsg -------------------------------
(* What validating a whole message must report: fields, oneofs, containers,  *)
(* presence and embedded messages.  Declarative: the set of results a call   *)
(* may return (more than one only because maps are visited in any order).    *)
(*                                                                           *)
(* A schema S maps a type name to                                            *)
(*   [mode, fields, oneofs]                                                  *)
(*     mode   "on" | "disabled" | "ignored" | "none" | "legacy"              *)
(*     fields sequence, in declaration order, of                             *)
(*       [n, card, oneof, el, cr, key]                                       *)
(*         card  "one" | "rep" | "map";  oneof "" or the oneof's name        *)
(*         el    [k, w, ty, r, req, skip, zero, defined]: kind, wrapped?,    *)
(*               message type, rules, message rules, default value           *)
(*         cr    container rules; key: el of the map keys                    *)
(*     oneofs sequence of [n, required]                                      *)
(* A message value maps the names of its set fields to                       *)
(*   scalar: the value; message-like: <<>> (nil) or <<value>>;               *)
(*   list: sequence of those; map: sequence of [kt, k, v] with kt the text   *)
(*   of the key in brackets.  It always has a dummy field "_".                           *)
EXTENDS PGVRules, TLC

(* ---- results ---------------------------------------------------------------*)
(* An error: field f, element i ("" if none), whether the violated rule is    *)
(* one of a map key, message type t and cause c: <<>> or <<kind, errors>>     *)
(* with kind "multi", "single" or "legacy".                                   *)
Node(ty, f, i, key, c) == [t |-> ty, f |-> f, i |-> i, key |-> key, c |-> c]

(* ---- one element ------------------------------------------------------------*)
Embeds(el) == el.k = "msg" /\ ~el.w
MessageLike(el) == el.w \/ el.k \in {"msg", "any", "duration", "timestamp"}
Scalar(lang, el, x) ==
  CASE el.k = "bool"   -> BoolViol(el.r, x)
    [] el.k = "enum"   -> EnumViol(el.r, x, Elems(el.defined))
    [] el.k = "string" -> StrViol(lang, el.r, x)
    [] el.k = "bytes"  -> BytesViol(lang, el.r, x)
    [] OTHER           -> NumViol(el.r, x, el.zero)
SetViol(lang, el, x) ==
  CASE el.k = "any" -> AnyViol(el.r, x)
    [] el.k = "duration" -> DurViol(el.r, x)
    [] el.k = "timestamp" -> TsViol(el.r, x)
    [] el.k = "msg" -> <<>>
Required(el) == IF el.k = "msg" \/ el.w THEN el.req ELSE On(el.r, "required")
(* violated rules of an element apart from those inside an embedded message *)
OwnViol(lang, el, v) ==
  IF ~MessageLike(el) THEN Scalar(lang, el, v)
  ELSE IF v = <<>> THEN If(Required(el), "required")
  ELSE IF el.w THEN Scalar(lang, el, v[1]) ELSE SetViol(lang, el, v[1])

(* ---- fields ------------------------------------------------------------------*)
IsSet(m, F) == F.n \in DOMAIN m
Value(m, F) ==
  IF IsSet(m, F) THEN m[F.n]
  ELSE IF F.card # "one" THEN <<>>
  ELSE IF MessageLike(F.el) THEN <<>> ELSE F.el.zero
(* Order of evaluation: fields outside oneofs in declaration order, then the  *)
(* oneofs, each through the member that is set.                               *)
OfOneof(T, o) == SelectSeq(T.fields, LAMBDA F : F.oneof = o)
Plain(T) == OfOneof(T, "")

SizeViol(F, n) ==
  IF F.card = "rep" THEN If(~SizeOK(F.cr, "min_items", "max_items", n), "size")
  ELSE If(~SizeOK(F.cr, "min_pairs", "max_pairs", n), "size")
SkipContainer(F, n) == On(F.cr, "ignore_empty") /\ n = 0
IndexText(k) == "[" \o ToString(k) \o "]"          \* of a list element, from 0
Repeats(q, k) == \E j \in 1..(k - 1) : q[j] = q[k]

(* ---- sets of sequences ---------------------------------------------------------*)
Cat(A, B) == {a \o b : a \in A, b \in B}
RECURSIVE Perms(_)
Perms(X) == IF X = {} THEN {<<>>} ELSE UNION {{<<x>> \o p : p \in Perms(X \ {x})} : x \in X}
Names(ty, f, i, key, viol) == [j \in 1..Len(viol) |-> Node(ty, f, i, key, <<>>)]

(* ---- Go: the sequences of errors ValidateAll may report ------------------------*)
RECURSIVE AllOf(_, _, _), FirstOf(_, _, _), AllEl(_, _, _, _, _, _), AllField(_, _, _, _, _), CatAll(_, _), AllList(_, _, _, _, _), AllMapIn(_, _, _, _, _)
CatAll(sets, k) == IF k > Len(sets) THEN {<<>>} ELSE Cat(sets[k], CatAll(sets, k + 1))

(* results of validating an embedded message that is set, in the given mode *)
Inner(S, all, ty, m) ==
  CASE S[ty].mode \in {"disabled", "ignored", "none"} -> {<<>>}
    [] S[ty].mode = "legacy" -> IF "bad" \in DOMAIN m THEN {<<"legacy", <<>>>>} ELSE {<<>>}
    [] OTHER -> {IF q = <<>> THEN <<>> ELSE <<IF all THEN "multi" ELSE "single", q>> :
                   q \in IF all THEN AllOf(S, ty, m) ELSE FirstOf(S, ty, m)}
Embedded(S, all, ty, F, i, v) == \* errors contributed by the embedded message
  IF ~Embeds(F.el) \/ F.el.skip \/ v = <<>> THEN {<<>>}
  ELSE {IF c = <<>> THEN <<>> ELSE <<Node(ty, F.n, i, FALSE, c)>> : c \in Inner(S, all, F.el.ty, v[1])}
AllEl(S, all, ty, F, i, v) ==
  Cat({Names(ty, F.n, i, FALSE, OwnViol("go", F.el, v))}, Embedded(S, all, ty, F, i, v))
AllList(S, all, ty, F, q) ==
  CatAll([k \in 1..Len(q) |->
     Cat({IF On(F.cr, "unique") /\ Repeats(q, k) THEN <<Node(ty, F.n, IndexText(k - 1), FALSE, <<>>)>> ELSE <<>>},
         AllEl(S, all, ty, F, IndexText(k - 1), q[k]))], 1)
AllMapIn(S, all, ty, F, p) == \* entries visited in the order p
  CatAll([k \in 1..Len(p) |->
     Cat(Cat({IF On(F.cr, "no_sparse") /\ p[k].v = <<>> THEN <<Node(ty, F.n, p[k].kt, FALSE, <<>>)>> ELSE <<>>},
             {Names(ty, F.n, p[k].kt, TRUE, Scalar("go", F.key, p[k].k))}),
         AllEl(S, all, ty, F, p[k].kt, p[k].v))], 1)
(* Entries that report nothing may be visited at any time: only the order of  *)
(* the others matters.                                                        *)
Orders(F, v, Quiet(_)) == Perms({e \in Elems(v) : ~Quiet(e)})
GoQuiet(S, F, e) ==
  /\ ~(On(F.cr, "no_sparse") /\ e.v = <<>>)
  /\ Scalar("go", F.key, e.k) = <<>>
  /\ AllEl(S, FALSE, "", F, e.kt, e.v) = {<<>>}
AllField(S, all, ty, F, v) ==
  IF F.card = "one" THEN AllEl(S, all, ty, F, "", v)
  ELSE IF SkipContainer(F, Len(v)) THEN {<<>>}
  ELSE Cat({Names(ty, F.n, "", FALSE, SizeViol(F, Len(v)))},
           IF F.card = "rep" THEN AllList(S, all, ty, F, v)
           ELSE UNION {AllMapIn(S, all, ty, F, p) : p \in Orders(F, v, LAMBDA e : GoQuiet(S, F, e))})
OneofParts(S, all, ty, T, m, o) ==
  LET set == SelectSeq(OfOneof(T, o.n), LAMBDA F : IsSet(m, F))
  IN IF set = <<>> THEN {IF o.required THEN <<Node(ty, o.n, "", FALSE, <<>>)>> ELSE <<>>}
     ELSE AllField(S, all, ty, set[1], m[set[1].n])
Parts(S, all, ty, m) ==
  LET T == S[ty]  pl == Plain(T) IN
  [k \in 1..(Len(pl) + Len(T.oneofs)) |->
     IF k <= Len(pl) THEN AllField(S, all, ty, pl[k], Value(m, pl[k]))
     ELSE OneofParts(S, all, ty, T, m, T.oneofs[k - Len(pl)])]
AllOf(S, ty, m) == IF S[ty].mode # "on" THEN {<<>>} ELSE CatAll(Parts(S, TRUE, ty, m), 1)

(* Validate returns the first error; embedded messages are themselves         *)
(* validated up to their first error.                                         *)
RECURSIVE FirstIn(_, _)
FirstIn(parts, k) == \* first errors of a sequence of sets of sequences
  IF k > Len(parts) THEN {<<>>}
  ELSE UNION {IF q = <<>> THEN FirstIn(parts, k + 1) ELSE {<<q[1]>>} : q \in parts[k]}
FirstOf(S, ty, m) == IF S[ty].mode # "on" THEN {<<>>} ELSE FirstIn(Parts(S, FALSE, ty, m), 1)

(* ---- C++: true, false with the field of the first violation, or exception -------*)
(* An outcome is <<"T">>, <<"F", field>> or <<"X">>.                             *)
CcUnimplemented(el) ==
  \/ el.k = "string" /\ \E k \in {"email", "uri", "uri_ref"} : On(el.r, k)
  \/ el.k = "bytes" /\ \E k \in {"ip", "ipv4", "ipv6"} : On(el.r, k)
  \/ el.k = "timestamp" /\ (NeedsValue(el.r))
CcExempt(el, x) == el.k \in {"string", "bytes"} /\ On(el.r, "ignore_empty") /\ x = <<>>
Without(r, ks) == [x \in DOMAIN r \ ks |-> r[x]]
CcFormats == {"email", "uri", "uri_ref"}
CcByteFormats == {"ip", "ipv4", "ipv6"}
(* events of one element, as a sequence: the first decides *)
CcScalar(el, x) ==
  IF ~CcUnimplemented(el) THEN [j \in DOMAIN Scalar("cc", el, x) |-> "F"]
  ELSE IF CcExempt(el, x) THEN <<>>
  ELSE LET r == Without(el.r, IF el.k = "string" THEN CcFormats ELSE CcByteFormats)
           q == Scalar("cc", [el EXCEPT !.r = r], x)
       IN IF q = <<>> THEN <<"X">> ELSE <<"F">>
CcOwn(el, v) ==
  IF ~MessageLike(el) THEN CcScalar(el, v)
  ELSE IF el.k = "timestamp" THEN If(v = <<>> /\ Required(el), "F") \o If(CcUnimplemented(el), "X")
  ELSE IF v = <<>> THEN If(Required(el), "F")
  ELSE IF el.w THEN CcScalar(el, v[1])
  ELSE [j \in DOMAIN SetViol("cc", el, v[1]) |-> "F"]
RECURSIVE CcOf(_, _, _), CcFirst(_, _), CcEl(_, _, _), CcField(_, _, _)
Tag(e, f) == IF e = "X" THEN <<"X">> ELSE <<"F", f>>
CcEl(S, F, v) ==
  LET own == CcOwn(F.el, v) IN
  IF own # <<>> THEN {Tag(own[1], F.n)}
  ELSE IF ~Embeds(F.el) \/ F.el.skip \/ v = <<>> THEN {<<"T">>}
  ELSE {IF o[1] = "F" THEN <<"F", F.n>> ELSE o : o \in CcOf(S, F.el.ty, v[1])}
CcFirst(parts, k) ==
  IF k > Len(parts) THEN {<<"T">>}
  ELSE UNION {IF o[1] = "T" THEN CcFirst(parts, k + 1) ELSE {o} : o \in parts[k]}
CcKey(F, k) == LET own == CcScalar(F.key, k) IN IF own = <<>> THEN {<<"T">>} ELSE {Tag(own[1], F.n)}
CcQuiet(S, F, e) == CcKey(F, e.k) = {<<"T">>} /\ CcEl(S, F, e.v) = {<<"T">>}
CcField(S, F, v) ==
  IF F.card = "one" THEN CcEl(S, F, v)
  ELSE IF SkipContainer(F, Len(v)) THEN {<<"T">>}
  ELSE IF SizeViol(F, Len(v)) # <<>> THEN {<<"F", F.n>>}
  ELSE IF F.card = "rep" THEN
    CcFirst([k \in 1..Len(v) |-> IF On(F.cr, "unique") /\ Repeats(v, k) THEN {<<"F", F.n>>} ELSE CcEl(S, F, v[k])], 1)
  ELSE UNION {CcFirst([k \in 1..(Len(p) + 1) |->
                 IF k > Len(p) THEN {IF On(F.cr, "no_sparse") THEN <<"X">> ELSE <<"T">>}
                 ELSE CcFirst(<<CcKey(F, p[k].k), CcEl(S, F, p[k].v)>>, 1)], 1) : p \in Orders(F, v, LAMBDA e : CcQuiet(S, F, e))}
CcOf(S, ty, m) ==
  IF S[ty].mode # "on" THEN {<<"T">>} ELSE
  LET T == S[ty]  pl == Plain(T) IN
  CcFirst([k \in 1..(Len(pl) + Len(T.oneofs)) |->
     IF k <= Len(pl) THEN CcField(S, pl[k], Value(m, pl[k]))
     ELSE LET o == T.oneofs[k - Len(pl)]
              set == SelectSeq(OfOneof(T, o.n), LAMBDA F : IsSet(m, F))
          IN IF set = <<>> THEN {IF o.required THEN <<"F", o.n>> ELSE <<"T">>}
             ELSE CcField(S, set[1], m[set[1].n])], 1)

(* ---- Java: normal return or the exception that escapes ---------------------------*)
(* <<"T">>, <<"F", type, field>> (a ValidationException naming the innermost         *)
(* field) or <<"X", type, field>> (an UnimplementedException).  A list's uniqueness   *)
(* is decided before its items, all keys of a map before its values; a map cannot be *)
(* asked to have no sparse values, not even an empty one.                             *)
RECURSIVE JavaOf(_, _, _)
JavaEl(S, ty, F, v) ==
  IF OwnViol("java", F.el, v) # <<>> THEN {<<"F", ty, F.n>>}
  ELSE IF ~Embeds(F.el) \/ F.el.skip \/ v = <<>> THEN {<<"T">>}
  ELSE JavaOf(S, F.el.ty, v[1])
JavaField(S, ty, F, v) ==
  IF F.card = "one" THEN JavaEl(S, ty, F, v)
  ELSE IF SkipContainer(F, Len(v)) THEN {<<"T">>}
  ELSE IF SizeViol(F, Len(v)) # <<>> THEN {<<"F", ty, F.n>>}
  ELSE IF F.card = "rep" THEN
    IF On(F.cr, "unique") /\ \E k \in DOMAIN v : Repeats(v, k) THEN {<<"F", ty, F.n>>}
    ELSE CcFirst([k \in 1..Len(v) |-> JavaEl(S, ty, F, v[k])], 1)
  ELSE IF On(F.cr, "no_sparse") THEN {<<"X", ty, F.n>>}
  ELSE IF \E e \in Elems(v) : Scalar("java", F.key, e.k) # <<>> THEN {<<"F", ty, F.n>>}
  ELSE UNION {CcFirst([k \in 1..Len(p) |-> JavaEl(S, ty, F, p[k].v)], 1) :
              p \in Orders(F, v, LAMBDA e : JavaEl(S, ty, F, e.v) = {<<"T">>})}
JavaOf(S, ty, m) ==
  IF S[ty].mode # "on" THEN {<<"T">>} ELSE
  LET T == S[ty]  pl == Plain(T) IN
  CcFirst([k \in 1..(Len(pl) + Len(T.oneofs)) |->
     IF k <= Len(pl) THEN JavaField(S, ty, pl[k], Value(m, pl[k]))
     ELSE LET o == T.oneofs[k - Len(pl)]
              set == SelectSeq(OfOneof(T, o.n), LAMBDA F : IsSet(m, F))
          IN IF set = <<>> THEN {IF o.required THEN <<"F", ty, o.n>> ELSE <<"T">>}
             ELSE JavaField(S, ty, set[1], m[set[1].n])], 1)
=============================================================================
