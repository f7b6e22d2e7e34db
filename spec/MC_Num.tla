------------------------------ MODULE MC_Num --------------------------------
(* Every accepted combination of ordered rules over ranks 0..R, with every   *)
(* value.  Each initial state is one rule set; the single step evaluates it. *)
(* Checked: the verdict agrees with an independent set-theoretic reading.    *)
(* Emitted: one JSON line per rule set with the violations of every value.   *)
EXTENDS PGVRules, Json, TLC
CONSTANTS R, Zeros, InSets, NotInRanges
Rank == 0..R

VARIABLES cfg, zero, viol
vars == <<cfg, zero, viol>>

LoOpts == {<<>>} \cup {<<k, b>> : k \in {"gt", "gte"}, b \in Rank}
HiOpts == {<<>>} \cup {<<k, b>> : k \in {"lt", "lte"}, b \in Rank}
Small(n) == {S \in SUBSET Rank : Cardinality(S) <= n}
AsSeq(S) == LET RECURSIVE F(_) F(T) == IF T = {} THEN <<>> ELSE LET m == CHOOSE x \in T : \A y \in T : x <= y IN <<m>> \o F(T \ {m}) IN F(S)

Empty == [x \in {} |-> 0]
Put(r, k, v) == [x \in DOMAIN r \cup {k} |-> IF x = k THEN v ELSE r[x]]
WithLo(r, lo) == IF lo = <<>> THEN r ELSE Put(r, lo[1], lo[2])
WithHi(r, hi) == IF hi = <<>> THEN r ELSE Put(r, hi[1], hi[2])
WithIE(r, b)  == IF b THEN Put(r, "ignore_empty", TRUE) ELSE r

Ranges == {WithHi(WithLo(Empty, lo), hi) : <<lo, hi>> \in
             {p \in LoOpts \X HiOpts : p[1] = <<>> \/ p[2] = <<>> \/ p[1][2] # p[2][2]}}
Configs ==
  {WithIE(r, ie) : r \in
       Ranges
  \cup {Put(Empty, "const", c) : c \in Rank}
  \cup {Put(Empty, "in", AsSeq(S)) : S \in Small(InSets) \ {{}}}
  \cup {Put(Empty, "not_in", AsSeq(S)) : S \in Small(InSets) \ {{}}}
  \cup (IF NotInRanges THEN {Put(r, "not_in", AsSeq(S)) : r \in Ranges, S \in Small(1) \ {{}}} ELSE {}),
   ie \in BOOLEAN}

Init == cfg \in Configs /\ zero \in Zeros /\ viol = <<>>
Verdicts == [v \in 1..(R + 1) |-> NumViol(cfg, v - 1, zero)]
Eval == /\ viol = <<>>
        /\ viol' = Verdicts
        /\ UNCHANGED <<cfg, zero>>
        /\ PrintT(ToJson([zero |-> zero, cfg |-> cfg, viol |-> viol']))
Next == Eval
Spec == Init /\ [][Next]_vars

(* ---- independent reading: the accepted set as a set -------------------------*)
LoSet == IF Has(cfg, "gt") THEN {v \in Rank : cfg.gt < v} ELSE IF Has(cfg, "gte") THEN {v \in Rank : cfg.gte <= v} ELSE Rank
HiSet == IF Has(cfg, "lt") THEN {v \in Rank : v < cfg.lt} ELSE IF Has(cfg, "lte") THEN {v \in Rank : v <= cfg.lte} ELSE Rank
(* when the two half-lines cover everything the bounds mean "outside" exactly if upper < lower *)
RangeSet == IF HasLo(cfg) /\ HasHi(cfg) /\ Hi(cfg) < Lo(cfg) THEN LoSet \cup HiSet ELSE LoSet \cap HiSet
Accepted ==
  LET base == (RangeSet
              \cap (IF Has(cfg, "const") THEN {cfg.const} ELSE Rank)
              \cap (IF Has(cfg, "in") THEN Elems(cfg.in) ELSE Rank))
              \ (IF Has(cfg, "not_in") THEN Elems(cfg.not_in) ELSE {})
  IN IF On(cfg, "ignore_empty") THEN base \cup {zero} ELSE base
VerdictIsAcceptedSet == viol # <<>> => \A v \in Rank : (viol[v + 1] = <<>>) <=> v \in Accepted
AtMostOneEach == viol # <<>> => \A v \in Rank : Len(viol[v + 1]) = Cardinality(Elems(viol[v + 1]))
=============================================================================
