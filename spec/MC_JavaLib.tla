------------------------------ MODULE MC_JavaLib ------------------------------
(* The Java runtime library: every method of the comparison, constant,         *)
(* collection, string, bytes, list, map, enum, required and timestamp checks   *)
(* over all small arguments.  Ordered values are ranks.  A call's outcome is    *)
(* "T" (returns), "F" (ValidationException) or "X" (UnimplementedException).    *)
EXTENDS PGVRules, Json, TLC
CONSTANTS StrLen, ListLen
VARIABLES call, out
vars == <<call, out>>
R == 0..4
Alpha == {97, 233, 128512}
Strs(n) == UNION {[1..k -> Alpha] : k \in 0..n}
BAlpha == {97, 0, 255}
Byts(n) == UNION {[1..k -> BAlpha] : k \in 0..n}
Lists(n) == UNION {[1..k -> 0..2] : k \in 0..n}
Cmp == {"lessThan", "lessThanOrEqual", "greaterThan", "greaterThanOrEqual"}
SmallSets == {<<>>} \cup {<<x>> : x \in R} \cup {<<x, y>> : x \in R, y \in R}
Strip(rec, keys) == [k \in keys |-> rec[k]]
Ranges == UNION {{Strip([lt |-> hi, lte |-> hi, gt |-> lo, gte |-> lo], {p, q}) : lo \in R, hi \in R} : p \in {"lt", "lte"}, q \in {"gt", "gte"}}
C(f, m, a) == [f |-> f, m |-> m, a |-> a]
Sizes == 0..6
EmailAlpha == {97, 64, 60, 62}
Angle == UNION {[1..k -> EmailAlpha] : k \in 0..6}
Calls(f) ==
  CASE f = "cmp"   -> {C(f, m, [v |-> v, l |-> l]) : m \in Cmp, v \in R, l \in R}
    [] f = "range" -> {C(f, "range", [v |-> v, r |-> r]) : v \in R, r \in {x \in Ranges : Lo(x) # Hi(x)}}
    [] f = "const" -> {C(f, "constant", [v |-> v, l |-> l]) : v \in R, l \in R}
    [] f = "set"   -> {C(f, m, [v |-> v, s |-> s]) : m \in {"in", "notIn"}, v \in R, s \in SmallSets}
    [] f = "slen"  -> {C(f, m, [s |-> s, n |-> n]) : m \in {"length", "minLength", "maxLength"}, s \in Strs(StrLen), n \in 0..(StrLen + 1)}
                 \cup {C(f, m, [s |-> s, n |-> n]) : m \in {"lenBytes", "minBytes", "maxBytes"}, s \in Strs(StrLen), n \in 0..(4 * StrLen + 1)}
    [] f = "saff"  -> {C(f, m, [s |-> s, p |-> p]) : m \in {"prefix", "suffix", "contains", "notContains"}, s \in Strs(StrLen), p \in Strs(2)}
    [] f = "blen"  -> {C(f, m, [s |-> s, n |-> n]) : m \in {"length", "minLength", "maxLength"}, s \in Byts(3), n \in 0..4}
    [] f = "baff"  -> {C(f, m, [s |-> s, p |-> p]) : m \in {"prefix", "suffix", "contains"}, s \in Byts(StrLen), p \in Byts(2)}
    [] f = "bip"   -> {C(f, m, [n |-> n]) : m \in {"ip", "ipv4", "ipv6"}, n \in 0..17}
    [] f = "list"  -> {C(f, m, [s |-> s, n |-> n]) : m \in {"minItems", "maxItems"}, s \in Lists(ListLen), n \in Sizes}
                 \cup {C(f, "unique", [s |-> s]) : s \in Lists(ListLen)}
                 \cup {C(f, m, [s |-> s, bad |-> b]) : m \in {"forEach", "validateParts"}, s \in Lists(ListLen), b \in SUBSET (0..2)}
    [] f = "map"   -> {C(f, m, [k |-> k, n |-> n]) : m \in {"min", "max"}, k \in Sizes, n \in Sizes} \cup {C(f, "noSparse", [k |-> k]) : k \in Sizes}
    [] f = "misc"  -> {C(f, "required", [set |-> b]) : b \in BOOLEAN} \cup {C(f, "definedOnly", [n |-> n]) : n \in {-1, 0, 1, 2, 3, 5, 6, 7}}
    [] f = "within" -> {C(f, "within", [v |-> v, w |-> w, d |-> d]) : v \in 0..4, w \in 0..4, d \in -4..4}
    [] f = "email" -> {C(f, "email", [s |-> s]) : s \in Angle}
Families == {"cmp", "range", "const", "set", "slen", "saff", "blen", "baff", "bip", "list", "map", "misc", "within", "email"}
Abs(x) == IF x < 0 THEN -x ELSE x
\* the address of a value in angle brackets is what follows the last opening one
Address(s) == LET n == Len(s) O == {i \in 1..n : s[i] = 60} IN
  IF n > 0 /\ s[n] = 62 /\ O # {} THEN LET k == CHOOSE i \in O : \A j \in O : j <= i IN SubSeq(s, k + 1, n - 1) ELSE s
Holds(c) == LET a == c.a m == c.m IN
  CASE c.f = "cmp" -> (CASE m = "lessThan" -> a.v < a.l [] m = "lessThanOrEqual" -> a.v <= a.l [] m = "greaterThan" -> a.v > a.l [] OTHER -> a.v >= a.l)
    [] c.f = "range" -> RangeOK(a.r, a.v)
    [] c.f = "const" -> a.v = a.l
    [] c.f = "set" -> (m = "in") = (a.v \in Elems(a.s))
    [] c.f = "slen" -> (CASE m = "length" -> Len(a.s) = a.n [] m = "minLength" -> Len(a.s) >= a.n [] m = "maxLength" -> Len(a.s) <= a.n
                          [] m = "lenBytes" -> ByteLen(a.s) = a.n [] m = "minBytes" -> ByteLen(a.s) >= a.n [] m = "maxBytes" -> ByteLen(a.s) <= a.n)
    [] c.f = "blen" -> (CASE m = "length" -> Len(a.s) = a.n [] m = "minLength" -> Len(a.s) >= a.n [] m = "maxLength" -> Len(a.s) <= a.n)
    [] c.f \in {"saff", "baff"} -> (CASE m = "prefix" -> Prefix(a.p, a.s) [] m = "suffix" -> Suffix(a.p, a.s) [] m = "contains" -> Contains(a.s, a.p) [] OTHER -> ~Contains(a.s, a.p))
    [] c.f = "bip" -> (CASE m = "ip" -> a.n \in {4, 16} [] m = "ipv4" -> a.n = 4 [] OTHER -> a.n = 16)
    [] c.f = "list" -> (CASE m = "minItems" -> Len(a.s) >= a.n [] m = "maxItems" -> Len(a.s) <= a.n
                          [] m = "unique" -> \A i, j \in DOMAIN a.s : i # j => a.s[i] # a.s[j]
                          [] OTHER -> \A i \in DOMAIN a.s : a.s[i] \notin a.bad)
    [] c.f = "map" -> (CASE m = "min" -> a.k >= a.n [] OTHER -> a.k <= a.n)
    [] m = "required" -> a.set
    [] m = "definedOnly" -> a.n \in {0, 1, 5}
    [] m = "within" -> Abs(a.v - a.w) <= Abs(a.d)
    [] m = "email" -> Email(Address(a.s))
Outcome(c) == IF c.m = "noSparse" THEN "X" ELSE IF Holds(c) THEN "T" ELSE "F"
Init == out = "" /\ \E f \in Families : \E c \in Calls(f) : call = c
Next == out = "" /\ out' = Outcome(call) /\ UNCHANGED call /\ PrintT(ToJson([call |-> call, out |-> out']))
Spec == Init /\ [][Next]_vars

(* ---- laws ------------------------------------------------------------------------ *)
Flip == [lessThan |-> "greaterThanOrEqual", lessThanOrEqual |-> "greaterThan", greaterThan |-> "lessThanOrEqual", greaterThanOrEqual |-> "lessThan"]
Complement == (out # "" /\ call.f = "cmp") => Holds(call) # Holds([call EXCEPT !.m = Flip[call.m]])
SetLaw == (out # "" /\ call.f = "set") => Holds(call) # Holds([call EXCEPT !.m = IF call.m = "in" THEN "notIn" ELSE "in"])
RangeLaw == (out # "" /\ call.f = "range") =>
  LET r == call.a.r v == call.a.v
      lo == IF "gt" \in DOMAIN r THEN v > r.gt ELSE v >= r.gte
      hi == IF "lt" \in DOMAIN r THEN v < r.lt ELSE v <= r.lte
  IN Holds(call) = IF Lo(r) < Hi(r) THEN lo /\ hi ELSE lo \/ hi
LengthLaw == (out # "" /\ call.f \in {"slen", "blen"} /\ call.m = "length") =>
  Holds(call) = (Holds([call EXCEPT !.m = "minLength"]) /\ Holds([call EXCEPT !.m = "maxLength"]))
AffixLaw == (out # "" /\ call.f \in {"saff", "baff"} /\ call.m \in {"prefix", "suffix"} /\ Holds(call)) => Holds([call EXCEPT !.m = "contains"])
=============================================================================
