----------------------------- MODULE PGVChecker -----------------------------
(* Which rules the plugin must refuse to generate code for.                   *)
(*                                                                            *)
(* A field F is [card, k, w, kk]: cardinality "one" | "rep" | "map", kind of  *)
(* the value (scalar kind, "enum", "msg", "any", "duration", "timestamp"),    *)
(* wrapped?, kind of the map key.  Rules R are [t, r, m]: rule type ("none",  *)
(* a kind, "repeated" or "map"), its record r (whose items, keys and values   *)
(* are rules again), and the message rules m (<<>> or <<record>>).            *)
(* Numbers and instants are ranks; a rank below 0 is no valid instant.        *)
EXTENDS PGVText

Has(r, x) == x \in DOMAIN r
On(r, x) == Has(r, x) /\ r[x]
All(r, X) == \A x \in X : Has(r, x)
Any2(r, X) == \E x \in X : Has(r, x)

Wrappable == {"float", "double", "int32", "int64", "uint32", "uint64", "bool", "string", "bytes"}
Numeric == {"float", "double", "int32", "int64", "uint32", "uint64", "sint32", "sint64", "fixed32", "fixed64", "sfixed32", "sfixed64"}
Special == {"any", "duration", "timestamp"}
IsMessage(F) == F.card = "one" /\ (F.w \/ F.k \in Special \cup {"msg"})
Element(F) == [card |-> "one", k |-> F.k, w |-> F.w, kk |-> ""]
Key(F) == [card |-> "one", k |-> F.kk, w |-> FALSE, kk |-> ""]

Fits(F, t) ==
  CASE t = "repeated" -> F.card = "rep"
    [] t = "map"      -> F.card = "map"
    [] OTHER          -> F.card = "one" /\ F.k = t

(* ---- contradictions -----------------------------------------------------------*)
Bounds == {"lt", "lte", "gt", "gte"}
InAndNotIn(r) == All(r, {"in", "not_in"})
Comparisons(r) ==
  \/ InAndNotIn(r)
  \/ Has(r, "const") /\ Any2(r, Bounds \cup {"in", "not_in"})
  \/ Has(r, "in") /\ Any2(r, Bounds)
  \/ All(r, {"lt", "lte"})
  \/ All(r, {"gt", "gte"})
  \/ \E lo \in {"gt", "gte"}, hi \in {"lt", "lte"} : All(r, {lo, hi}) /\ r[lo] = r[hi]
Above(r, lo, hi) == All(r, {lo, hi}) /\ r[lo] > r[hi]
Affix == {"prefix", "suffix", "contains"}
Literals(r) == {r[x] : x \in DOMAIN r \cap (Bounds \cup {"const", "within"})} \cup UNION {Elems(r[x]) : x \in DOMAIN r \cap {"in", "not_in"}}
BadLiteral(r) == \E x \in Literals(r) : x < 0
BadPattern(r) == Has(r, "pattern") /\ r.pattern = "bad"
WellKnown(r) == Has(r, "well_known_regex") /\ r.well_known_regex # "UNKNOWN"

StringConflict(r) ==
  \/ Has(r, "len") /\ Any2(r, {"min_len", "max_len"})
  \/ Has(r, "len_bytes") /\ Any2(r, {"min_bytes", "max_bytes"})
  \/ Above(r, "min_len", "max_len") \/ Above(r, "min_bytes", "max_bytes") \/ Above(r, "max_len", "max_bytes")
  \/ InAndNotIn(r)
  \/ BadPattern(r)
  \/ Has(r, "in") /\ (Has(r, "pattern") \/ WellKnown(r))
  \/ Has(r, "pattern") /\ WellKnown(r)
  \/ \E x \in Affix : \/ All(r, {x, "max_len"}) /\ Len(r[x]) > r.max_len
                      \/ All(r, {x, "max_bytes"}) /\ ByteLen(r[x]) > r.max_bytes
BytesConflict(r) ==
  \/ Has(r, "len") /\ Any2(r, {"min_len", "max_len"})
  \/ Above(r, "min_len", "max_len")
  \/ InAndNotIn(r)
  \/ BadPattern(r)
  \/ All(r, {"in", "pattern"})
  \/ \E x \in Affix : All(r, {x, "max_len"}) /\ Len(r[x]) > r.max_len
EnumConflict(r, defined) ==
  \/ InAndNotIn(r)
  \/ On(r, "defined_only") /\ Has(r, "in") /\ ~(Elems(r.in) \subseteq defined)
DurationConflict(r) == Comparisons(r) \/ BadLiteral(r)
TimestampConflict(r) ==
  \/ Comparisons(r) \/ BadLiteral(r)
  \/ Any2(r, {"lt_now", "gt_now", "within"}) /\ Any2(r, Bounds)
  \/ All(r, {"lt_now", "gt_now"})
  \/ Has(r, "within") /\ r.within = 0                 \* rank 0 of within: not positive

Defined == {0, 1, 5}
RECURSIVE RejectType(_, _)
Nested(F, r, x) == Has(r, x) /\
  LET E == IF x = "keys" THEN Key(F) ELSE Element(F)
      R == r[x]
  IN \/ RejectType(E, R)
     \/ R.m # <<>> /\ (~IsMessage(E) \/ (E.k \in Special /\ ~E.w) \/ (On(R.m[1], "skip") /\ R.t # "none"))
Conflict(F, t, r) ==
  CASE t \in Numeric     -> Comparisons(r)
    [] t = "bool"        -> FALSE
    [] t = "string"      -> StringConflict(r)
    [] t = "bytes"       -> BytesConflict(r)
    [] t = "enum"        -> EnumConflict(r, Defined)
    [] t = "any"         -> InAndNotIn(r)
    [] t = "duration"    -> DurationConflict(r)
    [] t = "timestamp"   -> TimestampConflict(r)
    [] t = "repeated"    -> \/ Above(r, "min_items", "max_items")
                            \/ On(r, "unique") /\ IsMessage(Element(F))
                            \/ Nested(F, r, "items")
    [] t = "map"         -> \/ Above(r, "min_pairs", "max_pairs")
                            \/ On(r, "no_sparse") /\ ~IsMessage(Element(F))
                            \/ Nested(F, r, "keys") \/ Nested(F, r, "values")
RejectType(F, R) == R.t # "none" /\ (~Fits(F, R.t) \/ Conflict(F, R.t, R.r))
RejectMessage(F, R) == R.m # <<>> /\ (~IsMessage(F) \/ (F.k \in Special /\ ~F.w) \/ (On(R.m[1], "skip") /\ R.t # "none"))
Reject(F, R) == RejectMessage(F, R) \/ RejectType(F, R)

(* ---- where the field stands ---------------------------------------------------*)
(* A placement is a chain of message modes, outermost first, the field being in   *)
(* the last; targeted: the file is one code is generated for.                     *)
Looked(p) == p.targeted /\ p.modes[Len(p.modes)] # "disabled"
Fails(p, F, R) == Looked(p) /\ Reject(F, R)
=============================================================================
