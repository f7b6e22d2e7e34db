------------------------------- MODULE MC_Str -------------------------------
(* Every accepted combination of length and content rules over a small       *)
(* alphabet (one to four bytes per character), on every value of up to MaxLen *)
(* characters; the same for bytes.  Checked against an independent reading   *)
(* (the accepted set as a set); emitted for replay.                           *)
EXTENDS PGVRules, Json, TLC
CONSTANTS Kind, Alphabet, MaxLen, MaxBytes, Rich
Strings(n) == UNION {[1..k -> Alphabet] : k \in 0..n}
Values == Strings(MaxLen)
Bytes == Kind = "bytes"
VARIABLES cfg, viol
vars == <<cfg, viol>>

Empty == [x \in {} |-> 0]
Put(r, k, v) == [x \in DOMAIN r \cup {k} |-> IF x = k THEN v ELSE r[x]]
Merge(a, b) == [x \in DOMAIN a \cup DOMAIN b |-> IF x \in DOMAIN a THEN a[x] ELSE b[x]]
Lens(eq, lo, hi, top) ==
  {Put(Empty, eq, n) : n \in 0..top} \cup {Put(Empty, lo, n) : n \in 0..top} \cup {Put(Empty, hi, n) : n \in 0..top}
  \cup {Put(Put(Empty, lo, p[1]), hi, p[2]) : p \in {q \in (0..top) \X (0..top) : q[1] <= q[2]}}
LenCfgs == Lens("len", "min_len", "max_len", MaxLen + 1)
ByteCfgs == IF Bytes THEN {} ELSE Lens("len_bytes", "min_bytes", "max_bytes", MaxBytes)
AffixKeys == {"prefix", "suffix", "contains"} \cup (IF Bytes THEN {} ELSE {"not_contains"})
One == CHOOSE c \in Alphabet : TRUE
Affixes(n) == {Put(Empty, k, p) : k \in AffixKeys, p \in Strings(n) \ {<<>>}}
PairAffixes == {Merge(a, b) : a \in Affixes(1), b \in Affixes(1)}
SetCfgs == {Put(Empty, "const", c) : c \in Strings(1) \cup {<<One, One>>}}
   \cup {Put(Empty, k, <<p, q>>) : k \in {"in", "not_in"}, p \in Strings(1), q \in {<<One, One>>, <<One>>}}
(* the plugin refuses affixes longer than the maximum length *)
MaxOf(r) == IF Has(r, "max_len") THEN r.max_len ELSE IF Has(r, "len") THEN r.len ELSE 99
Admissible(r) ==
  /\ \A k \in {"prefix", "suffix", "contains"} : Has(r, k) => Len(r[k]) <= MaxOf(r)
  /\ Has(r, "max_bytes") => /\ \A k \in {"prefix", "suffix", "contains"} : Has(r, k) => ByteLen(r[k]) <= r.max_bytes
                            /\ Has(r, "max_len") => r.max_len <= r.max_bytes
  /\ Has(r, "in") => ~Has(r, "not_in")
Some(S) == IF Rich THEN S ELSE {r \in S : \A k \in DOMAIN r : k \in {"len", "min_len", "max_len", "min_bytes", "max_bytes", "len_bytes"} => r[k] \in {1, 2, 4}}
Configs == {r \in LenCfgs \cup ByteCfgs \cup Affixes(2) \cup PairAffixes \cup SetCfgs
              \cup {Merge(a, b) : a \in Some(LenCfgs), b \in Affixes(1)}
              \cup {Merge(a, b) : a \in Some(LenCfgs), b \in Some(ByteCfgs)}
              \cup {Merge(a, b) : a \in Some(LenCfgs), b \in SetCfgs}
              \cup {Merge(a, b) : a \in Affixes(1), b \in SetCfgs} : Admissible(r)}
Init == \E r \in Configs, ie \in BOOLEAN : cfg = (IF ie THEN Put(r, "ignore_empty", TRUE) ELSE r) /\ viol = {}
V(s) == IF Bytes THEN BytesViol("go", cfg, s) ELSE StrViol("go", cfg, s)
Eval == /\ viol = {} /\ UNCHANGED cfg
        /\ viol' = {<<s, V(s)>> : s \in Values}
        /\ PrintT(ToJson([cfg |-> cfg, viol |-> viol']))
Spec == Init /\ [][Eval]_vars

(* ---- independent reading ------------------------------------------------------*)
Text(P(_)) == {s \in Values : P(s)}
Size(s) == IF Bytes THEN Len(s) ELSE Len(s)
RECURSIVE Bts(_)
Bts(s) == IF s = <<>> THEN 0 ELSE Bts(Tail(s)) + (CASE s[1] < 128 -> 1 [] s[1] < 2048 -> 2 [] s[1] < 65536 -> 3 [] OTHER -> 4)
Meets(k, s) ==
  LET x == cfg[k] IN
  CASE k = "len" -> Size(s) = x [] k = "min_len" -> Size(s) >= x [] k = "max_len" -> Size(s) <= x
    [] k = "len_bytes" -> Bts(s) = x [] k = "min_bytes" -> Bts(s) >= x [] k = "max_bytes" -> Bts(s) <= x
    [] k = "prefix" -> \E t \in Values : s = x \o t
    [] k = "suffix" -> \E t \in Values : s = t \o x
    [] k = "contains" -> \E t, u \in Values : s = t \o x \o u
    [] k = "not_contains" -> ~\E t, u \in Values : s = t \o x \o u
    [] k = "const" -> s = x [] k = "in" -> s \in Elems(x) [] k = "not_in" -> s \notin Elems(x)
    [] k = "ignore_empty" -> TRUE
Accepts(s) == (On(cfg, "ignore_empty") /\ s = <<>>) \/ \A k \in DOMAIN cfg : Meets(k, s)
Agrees == \A p \in viol : (p[2] = <<>>) = Accepts(p[1])
(* the verdict does not depend on whether a length is written as len or as min = max *)
=============================================================================
