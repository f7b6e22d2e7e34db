----------------------------- MODULE Interceptors -----------------------------
(* The gRPC interceptors as observed from both sides.  Several calls share one  *)
(* interceptor.  Server: the transport delivers events to the listener the      *)
(* interceptor returned; what the service sees and what is done to the call is  *)
(* observable.  Client: the caller's operations and what reaches the transport. *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils
CONSTANTS Calls, Depth
VARIABLES side, hist, seen, closes, raised, over, done, todo
vars == <<side, hist, seen, closes, raised, over, done, todo>>
\* seen[c]: what reaches the other side; closes[c]: how the interceptor or the service ended the call;
\* raised: per operation, did the caller get an exception; over: calls the server interceptor has ended

Good(v) == v \in {"good", "good2"}
Bad(v) == v \in {"bad", "bad2", "unimpl"}          \* good2 and bad2 are messages of another class
Empty(x_) == [c \in Calls |-> <<>>]
Start == hist = <<>> /\ seen = Empty(0) /\ closes = Empty(0) /\ raised = <<>> /\ over = {} /\ done = {}
H(c, e) == hist' = Append(hist, [c |-> c, e |-> e])
Ended(c) == \E i \in DOMAIN hist : hist[i].c = c /\ hist[i].e \in {"cancel", "complete"}

(* ---- server ------------------------------------------------------------------ *)
ServerMsg(c, v) ==
  /\ ~Ended(c) /\ H(c, v) /\ UNCHANGED done
  /\ IF c \in over THEN UNCHANGED <<seen, closes, over>>                 \* nothing after the rejection
     ELSE IF Good(v) THEN seen' = [seen EXCEPT ![c] = Append(@, v)] /\ UNCHANGED <<closes, over>>
     ELSE /\ over' = over \cup {c} /\ UNCHANGED seen
          /\ closes' = IF c \in done THEN closes ELSE [closes EXCEPT ![c] = Append(@, v)]    \* INVALID_ARGUMENT, naming the violation
  /\ raised' = Append(raised, "no")
ServerEvent(c, e) == \* half-close, ready, cancellation, completion
  /\ ~Ended(c) /\ (e = "half" => ~\E i \in DOMAIN hist : hist[i].c = c /\ hist[i].e = "half")
  /\ H(c, e) /\ UNCHANGED <<closes, over, done>> /\ raised' = Append(raised, "no")
  /\ seen' = IF e = "half" /\ c \in over THEN seen ELSE [seen EXCEPT ![c] = Append(@, e)]
ServiceClose(c) ==   \* the service answers and closes the call itself
  /\ ~Ended(c) /\ c \notin over /\ c \notin done /\ done' = done \cup {c}
  /\ H(c, "close") /\ UNCHANGED <<seen, over>> /\ raised' = Append(raised, "no")
  /\ closes' = [closes EXCEPT ![c] = Append(@, "service")]
ServiceReply(c) ==   \* responses are nobody's business, valid or not
  /\ ~Ended(c) /\ c \notin over /\ c \notin done
  /\ H(c, "reply") /\ UNCHANGED <<closes, over, done>> /\ raised' = Append(raised, "no")
  /\ seen' = [seen EXCEPT ![c] = Append(@, "reply")]
ServerOps == {"good", "good2", "bad", "bad2", "unimpl", "reply", "half", "ready", "cancel", "complete", "close"}
Server(c, e) == CASE Good(e) \/ Bad(e) -> ServerMsg(c, e) [] e = "close" -> ServiceClose(c) [] e = "reply" -> ServiceReply(c) [] OTHER -> ServerEvent(c, e)

(* ---- client ------------------------------------------------------------------ *)
ClientSend(c, v) ==
  /\ H(c, v) /\ UNCHANGED <<closes, over, done>>
  /\ seen' = IF Good(v) THEN [seen EXCEPT ![c] = Append(@, v)] ELSE seen
  /\ raised' = Append(raised, IF Good(v) THEN "no" ELSE v)               \* the same status as an exception
ClientEvent(c, e) ==
  /\ H(c, e) /\ seen' = [seen EXCEPT ![c] = Append(@, e)] /\ UNCHANGED <<closes, over, done>> /\ raised' = Append(raised, "no")
ClientOps == {"good", "good2", "bad", "bad2", "unimpl", "half", "cancel", "request", "reply"}
Client(c, e) == ~Ended(c) /\ (IF Good(e) \/ Bad(e)
                THEN ~(\E i \in DOMAIN hist : hist[i].c = c /\ hist[i].e = "half") /\ ClientSend(c, e) ELSE ClientEvent(c, e))

Do(c, e) == IF side = "server" THEN Server(c, e) ELSE Client(c, e)
Emit == PrintT(ToJson([side |-> side, hist |-> hist', seen |-> seen', closes |-> closes', raised |-> raised']))
Ops == IF side = "server" THEN ServerOps ELSE ClientOps
FreeInit == Start /\ side \in {"server", "client"} /\ todo = <<>>
FreeNext == /\ Len(hist) < Depth /\ \E c \in Calls, e \in Ops : Do(c, e)
            /\ (Len(hist') = Depth => Emit) /\ UNCHANGED <<side, todo>>
FreeSpec == FreeInit /\ [][FreeNext]_vars
ScriptInit == \E ss \in {JsonDeserialize(IOEnv.SCRIPTS)} : \E i \in DOMAIN ss : Start /\ side = ss[i].side /\ todo = ss[i].ops
ScriptNext == /\ todo # <<>> /\ todo' = Tail(todo) /\ UNCHANGED side
              /\ IF ENABLED Do(Head(todo).c, Head(todo).e) THEN Do(Head(todo).c, Head(todo).e)
                 ELSE UNCHANGED <<hist, seen, closes, raised, over, done>>       \* an event the transport cannot produce here: dropped
              /\ (todo' = <<>> => Emit)
ScriptSpec == ScriptInit /\ [][ScriptNext]_vars

(* ---- properties ---------------------------------------------------------------- *)
Mine(c) == SelectSeq(hist, LAMBDA h : h.c = c)
FirstBad(c) == LET m == Mine(c) B == {i \in DOMAIN m : Bad(m[i].e)} IN IF B = {} THEN Len(m) + 1 ELSE CHOOSE i \in B : \A j \in B : i <= j
Msgs(s) == SelectSeq(s, LAMBDA e : Good(e) \/ Bad(e))
\* the service sees exactly the valid messages before the first invalid one, in order
Prefix == side = "server" => \A c \in Calls :
  Msgs(seen[c]) = SelectSeq([i \in 1..(FirstBad(c) - 1) |-> Mine(c)[i].e], LAMBDA e : Good(e))
\* and no half-close after it
NoHalf == side = "server" => \A c \in Calls :
  ("half" \in {seen[c][i] : i \in DOMAIN seen[c]}) =>
     \E i \in 1..(FirstBad(c) - 1) : Mine(c)[i].e = "half"
\* a call is closed at most once, and an invalid message always closes it
Once == side = "server" => \A c \in Calls : Len(closes[c]) <= 1 /\ (FirstBad(c) <= Len(Mine(c)) => Len(closes[c]) = 1)
\* the client never sends an invalid message, sends every valid one, and tells the caller about the others
NeverSent == side = "client" => \A c \in Calls :
  Msgs(seen[c]) = SelectSeq([i \in DOMAIN Mine(c) |-> Mine(c)[i].e], LAMBDA e : Good(e))
Told == side = "client" => \A i \in DOMAIN hist : (raised[i] # "no") = Bad(hist[i].e)
\* calls do not influence each other
Isolated == \A c \in Calls : c \in over <=> (side = "server" /\ FirstBad(c) <= Len(Mine(c)))
=============================================================================
