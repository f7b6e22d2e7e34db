----------------------------- MODULE DumpFamily -----------------------------
(* Writes one of the families of Families.tla to a file, as numbered cases.   *)
EXTENDS Families, Json, IOUtils
VARIABLE done
Numbered(q) ==
  [i \in 1..Len(q) |-> [id |-> i, S |-> q[i].S, ty |-> q[i].ty, m |-> q[i].m, go |-> q[i].go, cc |-> q[i].cc]]
Init == done = FALSE
Next == ~done /\ done' = JsonSerialize(IOEnv.OUT, Numbered(TLCEval(Family(IOEnv.FAMILY))))
Spec == Init /\ [][Next]_done
=============================================================================
