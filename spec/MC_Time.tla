------------------------------ MODULE MC_Time -------------------------------
(* Every accepted combination of absolute Duration or Timestamp rules over    *)
(* ranks 0..R (a table of increasing instants chosen by the harness), on every *)
(* rank, on a value that is no valid instant, and on the unset field.          *)
EXTENDS PGVRules, Json, TLC
CONSTANTS Kind, R, Sets
Rank == 0..R
VARIABLES cfg, out
vars == <<cfg, out>>
Empty == [x \in {} |-> 0]
Put(r, k, v) == [x \in DOMAIN r \cup {k} |-> IF x = k THEN v ELSE r[x]]
AsSeq(S) == LET RECURSIVE F(_) F(T) == IF T = {} THEN <<>> ELSE LET m == CHOOSE x \in T : \A y \in T : x <= y IN <<m>> \o F(T \ {m}) IN F(S)
Bound(ks) == {<<>>} \cup {<<k, b>> : k \in ks, b \in Rank}
Add(r, b) == IF b = <<>> THEN r ELSE Put(r, b[1], b[2])
Ranges == {Add(Add(Empty, p[1]), p[2]) : p \in {q \in Bound({"gt", "gte"}) \X Bound({"lt", "lte"}) : q[1] = <<>> \/ q[2] = <<>> \/ q[1][2] # q[2][2]}}
Lists == {AsSeq(S) : S \in {T \in SUBSET Rank : T # {} /\ Cardinality(T) <= Sets}}
Absolute == Ranges \cup {Put(Empty, "const", c) : c \in Rank}
Configs == IF Kind = "timestamp" THEN Absolute
           ELSE Absolute \cup {Put(Empty, k, q) : k \in {"in", "not_in"}, q \in Lists} \cup {Put(r, "not_in", <<b>>) : r \in Ranges, b \in Rank}
V(r, v) == IF Kind = "duration" THEN DurViol(r, v) ELSE TsViol(r, v)
Init == \E r \in Configs, q \in BOOLEAN : cfg = (IF q THEN Put(r, "required", TRUE) ELSE r) /\ out = <<>>
Eval == /\ out = <<>> /\ UNCHANGED cfg
        /\ out' = [unset |-> If(On(cfg, "required"), "required"), bad |-> V(cfg, INVALID), viol |-> [v \in 1..(R + 1) |-> V(cfg, v - 1)]]
        /\ PrintT(ToJson([cfg |-> cfg, out |-> out']))
Spec == Init /\ [][Eval]_vars
(* ---- independent reading ----------------------------------------------------*)
LoSet == IF Has(cfg, "gt") THEN {v \in Rank : cfg.gt < v} ELSE IF Has(cfg, "gte") THEN {v \in Rank : cfg.gte <= v} ELSE Rank
HiSet == IF Has(cfg, "lt") THEN {v \in Rank : v < cfg.lt} ELSE IF Has(cfg, "lte") THEN {v \in Rank : v <= cfg.lte} ELSE Rank
Outside == HasLo(cfg) /\ HasHi(cfg) /\ Hi(cfg) < Lo(cfg)
Accepted == (((IF Outside THEN LoSet \cup HiSet ELSE LoSet \cap HiSet)
             \cap (IF Has(cfg, "const") THEN {cfg.const} ELSE Rank)) \cap (IF Has(cfg, "in") THEN Elems(cfg.in) ELSE Rank))
             \ (IF Has(cfg, "not_in") THEN Elems(cfg.not_in) ELSE {})
Agrees == out # <<>> => /\ \A v \in Rank : (out.viol[v + 1] = <<>>) <=> v \in Accepted
                        /\ (out.bad = <<>>) <=> DOMAIN cfg \subseteq {"required"}
=============================================================================
