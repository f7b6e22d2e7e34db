--------------------------- MODULE ValidatorIndexes ---------------------------
(* The Java validator indexes: a chain of indexes, each explicit (a registry   *)
(* changed by Add) or reflective (a fixed world of classes, some of which      *)
(* have a generated validator), each falling back on the next one or on a      *)
(* constant.  A history interleaves registrations, lookups and validations     *)
(* through fresh and through old validators; every validation's outcome and    *)
(* the validators it ran (with the index they were handed) are observable.     *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils
VARIABLES world,    \* sequence of [kind |-> "E" or "R", fb |-> "none", "valid", "invalid" or "next"]
          reg,      \* registrations: <<index, class>> -> validator
          handles,  \* validators handed out: sequence of <<index, class>>
          hist,     \* operations so far
          obs,      \* what each of them showed
          todo      \* operations still to be replayed (script mode)
vars == <<world, reg, handles, hist, obs, todo>>

(* ---- classes --------------------------------------------------------------- *)
(* name -> does the validator class belonging to its outermost class offer a     *)
(* validator for it?                                                             *)
Classes == [Plain |-> TRUE,       \* top-level, PlainValidator
            Outer |-> FALSE,      \* OuterValidator exists but has none for Outer itself
            In    |-> TRUE,       \* Outer.In, found through OuterValidator (decoys: InValidator, Outer.InValidator)
            Deep  |-> TRUE,       \* Outer.In.Deep
            Orphan |-> FALSE,     \* Outer.In.Orphan: OuterValidator answers null
            Alone |-> FALSE,      \* no validator class at all
            Odd   |-> FALSE,      \* OddValidator is no generated class: no validatorFor
            Sub   |-> FALSE,      \* a subclass of Plain without validator
            Twin  |-> FALSE]      \* same simple name as Plain, other package, no validator
Cls == DOMAIN Classes

(* ---- validators ------------------------------------------------------------- *)
(* ok accepts, rej rejects, chk judges the value, boom fails with an unrelated   *)
(* exception, and [del |-> c] asks the index it was handed for c's validator.    *)
Res(o, cs) == [out |-> o, calls |-> cs]
RECURSIVE Run(_, _, _, _, _)
RECURSIVE RunImpl(_, _, _, _, _)
RunImpl(ix, id, impl, v, fuel) ==
  LET me == <<id, ix>> IN
  CASE impl = "ok"   -> Res(<<"ok">>, <<me>>)
    [] impl = "rej"  -> Res(<<"rej", id>>, <<me>>)
    [] impl = "chk"  -> Res(IF v = "good" THEN <<"ok">> ELSE <<"rej", id>>, <<me>>)
    [] impl = "boom" -> Res(<<"boom", id>>, <<me>>)
    [] OTHER -> IF fuel = 0 THEN Res(<<"cycle">>, <<me>>)
                ELSE LET r == Run(ix, impl, v, fuel - 1, 0) IN Res(r.out, <<me>> \o r.calls)
Run(ix, c, v, fuel, x_) ==
  LET w == world[ix] IN
  IF w.kind = "E" /\ <<ix, c>> \in DOMAIN reg
  THEN LET r == reg[<<ix, c>>] IN RunImpl(ix, r.id, r.impl, v, fuel)
  ELSE IF w.kind = "R" /\ Classes[c]
  THEN RunImpl(ix, c, "chk", v, fuel)
  ELSE CASE w.fb = "invalid" -> Res(<<"rej", "UNKNOWN">>, <<>>)
         [] w.fb = "next"    -> Run(ix + 1, c, v, fuel, 0)
         [] OTHER            -> Res(<<"ok">>, <<>>)

(* ---- operations -------------------------------------------------------------- *)
\* delegation is acyclic: a validator for a class only asks for classes later in this order
Order == <<"Outer", "In", "Plain", "Alone">>
Pos(c) == IF \E i \in DOMAIN Order : Order[i] = c THEN CHOOSE i \in DOMAIN Order : Order[i] = c ELSE 99
Add(ix, c, impl) ==
  /\ world[ix].kind = "E"
  /\ (impl \in Cls => Pos(c) < Pos(impl))
  /\ reg' = [k \in DOMAIN reg \cup {<<ix, c>>} |-> IF k = <<ix, c>> THEN [id |-> "a" \o ToString(Len(hist) + 1), impl |-> impl] ELSE reg[k]]
  /\ hist' = Append(hist, [op |-> "add", ix |-> ix, c |-> c, impl |-> impl])
  /\ obs' = Append(obs, Res(<<"done">>, <<>>))
  /\ UNCHANGED <<world, handles>>
Look(ix, c) ==       \* how: by class or by instance makes no difference
  /\ handles' = Append(handles, <<ix, c>>)
  /\ hist' = Append(hist, [op |-> "look", ix |-> ix, c |-> c])
  /\ obs' = Append(obs, Res(<<"done">>, <<>>))
  /\ UNCHANGED <<world, reg>>
Validate(h, v) ==    \* through a validator handed out earlier
  /\ h \in DOMAIN handles
  /\ hist' = Append(hist, [op |-> "val", h |-> h, v |-> v])
  /\ obs' = Append(obs, Run(handles[h][1], handles[h][2], v, 4, 0))
  /\ UNCHANGED <<world, reg, handles>>
Fresh(ix, c, v) ==   \* lookup and validation in one go
  /\ hist' = Append(hist, [op |-> "fresh", ix |-> ix, c |-> c, v |-> v])
  /\ obs' = Append(obs, Run(ix, c, v, 4, 0))
  /\ UNCHANGED <<world, reg, handles>>
Do(o) == CASE o.op = "add" -> Add(o.ix, o.c, o.impl) [] o.op = "look" -> Look(o.ix, o.c)
           [] o.op = "val" -> Validate(o.h, o.v)     [] o.op = "fresh" -> Fresh(o.ix, o.c, o.v)

Emit == PrintT(ToJson([world |-> world, hist |-> hist', obs |-> obs']))
Start(w) == world = w /\ reg = [k \in {} |-> [id |-> "", impl |-> ""]] /\ handles = <<>> /\ hist = <<>> /\ obs = <<>>

(* (1) all histories of Depth operations over a few classes *)
CONSTANTS Depth, FreeClasses, FreeImpls
N(k, f) == [kind |-> k, fb |-> f]
Worlds == {<<N("E", "none")>>, <<N("E", "invalid")>>, <<N("E", "next"), N("E", "invalid")>>,
           <<N("R", "none")>>, <<N("R", "invalid")>>, <<N("R", "next"), N("E", "invalid")>>,
           <<N("E", "next"), N("R", "invalid")>>, <<N("E", "next"), N("R", "next"), N("E", "valid")>>}
FreeInit == todo = <<>> /\ \E w \in Worlds : Start(w)
FreeNext == /\ Len(hist) < Depth /\ UNCHANGED todo
            /\ \/ \E ix \in DOMAIN world, c \in FreeClasses, impl \in FreeImpls : Add(ix, c, impl)
               \/ \E c \in FreeClasses : Look(1, c)
               \/ \E h \in DOMAIN handles, v \in {"good", "bad"} : Validate(h, v)
               \/ \E ix \in DOMAIN world, c \in FreeClasses, v \in {"good", "bad"} : ix = 1 /\ Fresh(ix, c, v)
            /\ (Len(hist') = Depth => Emit)
FreeSpec == FreeInit /\ [][FreeNext]_vars
(* (2) given histories: SCRIPTS is a JSON list of [world, ops] *)
ScriptInit == \E ss \in {JsonDeserialize(IOEnv.SCRIPTS)} : \E i \in DOMAIN ss : Start(ss[i].world) /\ todo = ss[i].ops
ScriptNext == todo # <<>> /\ Do(Head(todo)) /\ todo' = Tail(todo) /\ (todo' = <<>> => Emit)
ScriptSpec == ScriptInit /\ [][ScriptNext]_vars

(* ---- properties ---------------------------------------------------------------- *)
\* the newest registration for exactly that class decides, whenever the validator was obtained
Newest(ix, c, n) == {k \in 1..n : hist[k].op = "add" /\ hist[k].ix = ix /\ hist[k].c = c}
Max(S) == CHOOSE x \in S : \A y \in S : y <= x
ExactlyThatClass ==
  \A n \in DOMAIN hist : hist[n].op \in {"val", "fresh"} =>
    LET t == IF hist[n].op = "val"
             THEN LET looks == SelectSeq([k \in DOMAIN hist |-> k], LAMBDA k : hist[k].op = "look") IN
                  <<hist[looks[hist[n].h]].ix, hist[looks[hist[n].h]].c>>
             ELSE <<hist[n].ix, hist[n].c>>
        reg1 == Newest(t[1], t[2], n - 1) IN
    world[t[1]].kind = "E" =>
      IF reg1 # {} THEN /\ obs[n].calls # <<>> /\ obs[n].calls[1] = <<"a" \o ToString(Max(reg1)), t[1]>>
      ELSE /\ (world[t[1]].fb = "none" => obs[n] = Res(<<"ok">>, <<>>))
           /\ (world[t[1]].fb = "invalid" => obs[n] = Res(<<"rej", "UNKNOWN">>, <<>>))
\* a rejection is that of a validator that was run last, or the fallback's
Reported == \A n \in DOMAIN obs : obs[n].out[1] \in {"rej", "boom"} =>
  IF obs[n].out[2] = "UNKNOWN" THEN world[Len(world)].fb = "invalid" \/ \E i \in DOMAIN world : world[i].fb = "invalid"
  ELSE obs[n].calls # <<>> /\ obs[n].calls[Len(obs[n].calls)][1] = obs[n].out[2]
Acyclic == \A n \in DOMAIN obs : obs[n].out # <<"cycle">>
=============================================================================
