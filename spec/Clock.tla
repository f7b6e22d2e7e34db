------------------------------- MODULE Clock --------------------------------
(* Timestamps compared with the clock.  Time passes in half ticks; calls       *)
(* happen on even instants, timestamps lie on odd ones, so no call coincides   *)
(* with a boundary.  A behaviour is the sequence of verdicts one fixed message *)
(* gets while the clock advances: the verdict depends on the clock at the call *)
(* and on nothing earlier.                                                     *)
EXTENDS PGVRules, Json, TLC
CONSTANTS Last, Withins
VARIABLES rule, ts, now, log
vars == <<rule, ts, now, log>>
Empty == [x \in {} |-> 0]
Put(r, k, v) == [x \in DOMAIN r \cup {k} |-> IF x = k THEN v ELSE r[x]]
Dirs == {Empty} \cup {Put(Empty, k, b) : k \in {"lt_now", "gt_now"}, b \in BOOLEAN}
Rules == {r \in {Put(d, "within", w) : d \in Dirs, w \in Withins} \cup Dirs : DOMAIN r # {}}
Instants == {2 * k + 1 : k \in (-Last)..Last}
Init == rule \in Rules /\ ts \in Instants /\ now = 0 /\ log = <<>>
Call == /\ now <= Last
        /\ log' = Append(log, TsNowViol(rule, ts - now) = <<>>)
        /\ now' = now + 2
        /\ UNCHANGED <<rule, ts>>
        /\ (now' > Last => PrintT(ToJson([rule |-> rule, ts |-> ts, log |-> log'])))
Spec == Init /\ [][Call]_vars
(* ---- what the rules mean over time ----------------------------------------------*)
W == IF Has(rule, "within") THEN rule.within ELSE 1000
(* the instants at which the message is accepted form one interval of the clock *)
Interval == \A i, j, k \in DOMAIN log : (i < j /\ j < k /\ log[i] /\ log[k]) => log[j]
PastOnly == On(rule, "lt_now") => \A i \in DOMAIN log : log[i] => ts < 2 * (i - 1)
FutureOnly == On(rule, "gt_now") => \A i \in DOMAIN log : log[i] => ts > 2 * (i - 1)
NoExpiry == (On(rule, "lt_now") /\ ~Has(rule, "within")) => \A i, j \in DOMAIN log : (i < j /\ log[i]) => log[j]
Near == \A i \in DOMAIN log : log[i] => ((On(rule, "lt_now") \/ On(rule, "gt_now") \/ Has(rule, "within")) => ts - 2 * (i - 1) \in (-W)..W)
Both == Has(rule, "within") /\ ~On(rule, "lt_now") /\ ~On(rule, "gt_now") =>
          \A i \in DOMAIN log : log[i] <=> (ts - 2 * (i - 1) < W /\ 2 * (i - 1) - ts < W)
=============================================================================
