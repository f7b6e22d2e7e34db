------------------------------ MODULE History -------------------------------
(* Calls of validators over time: several callers (goroutines, threads), a   *)
(* few shared messages, two modes.  A call is not atomic: it goes through    *)
(* the elements of its message, keeping what it has seen in working storage, *)
(* and other calls may begin, move and end meanwhile.                        *)
(*   Isolated  every call returns what a lone call on that message returns   *)
(*   Untouched no call changes a message                                     *)
(* Both hold because working storage is private; with Shared = TRUE (a       *)
(* package-level table, say) TLC finds a violation.                          *)
(* With Steps = FALSE calls move in one step, and the complete histories of   *)
(* begin and end events are printed for replay against real validators.      *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS Procs, MaxCalls, Steps, Shared
Objs == {1, 2}
Modes == {"all", "first"}
Start == [o \in Objs |-> IF o = 1 THEN <<7, 8>> ELSE <<7, 7>>]     \* lists that must be unique
VARIABLES msgs, call, seen, calls, hist
vars == <<msgs, call, seen, calls, hist>>
Idle == [o |-> 0, mode |-> "", at |-> 0, dup |-> FALSE]
Init == /\ msgs = Start /\ calls = 0 /\ hist = <<>>
        /\ call = [p \in Procs |-> Idle] /\ seen = [p \in Procs |-> {}]
Slot(p) == IF Shared THEN CHOOSE q \in Procs : TRUE ELSE p
Event(e) == hist' = Append(hist, e)
(* callers are interchangeable: they first appear in order *)
Fresh(p) == \A q \in Procs : q < p => \E k \in DOMAIN hist : hist[k][2] = q
Begin(p, o, md) ==
  /\ call[p] = Idle /\ calls < MaxCalls /\ Fresh(p)
  /\ calls' = calls + 1
  /\ call' = [call EXCEPT ![p] = [o |-> o, mode |-> md, at |-> IF Steps THEN 1 ELSE 3, dup |-> FALSE]]
  /\ seen' = [seen EXCEPT ![Slot(p)] = {}]
  /\ Event(<<"b", p, o, md>>) /\ UNCHANGED msgs
Visit(p) ==
  /\ call[p].at \in 1..2
  /\ LET x == msgs[call[p].o][call[p].at] IN
     /\ call' = [call EXCEPT ![p].at = @ + 1, ![p].dup = @ \/ x \in seen[Slot(p)]]
     /\ seen' = [seen EXCEPT ![Slot(p)] = @ \cup {x}]
  /\ UNCHANGED <<msgs, calls, hist>>
End(p) ==
  /\ call[p].at = 3
  /\ call' = [call EXCEPT ![p] = Idle]
  /\ Event(<<"e", p, call[p].o, IF call[p].dup THEN "bad" ELSE "ok">>) /\ UNCHANGED <<msgs, seen, calls>>
Quiet == \A p \in Procs : call[p] = Idle
Done == calls = MaxCalls /\ Quiet /\ UNCHANGED vars
Next == (\E p \in Procs : (\E o \in Objs, md \in Modes : Begin(p, o, md)) \/ Visit(p) \/ End(p)) \/ Done
Spec == Init /\ [][Next]_vars
Untouched == msgs = Start
Isolated == Steps => \A k \in DOMAIN hist : hist[k][1] = "e" => hist[k][4] = (IF hist[k][3] = 2 THEN "bad" ELSE "ok")
(* two calls are in progress at the same time on the same message: reachable *)
Emit == (calls' = MaxCalls /\ Quiet' /\ ~Quiet) => PrintT(ToJson([hist |-> hist']))
GenSpec == Init /\ [][Next /\ Emit]_vars
=============================================================================
