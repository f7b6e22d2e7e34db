----------------------------- MODULE Validator ------------------------------
(* The validation run as a state machine: a stack of frames, one per message *)
(* being validated, each with the checks still to do.  Every call starts     *)
(* with one frame; an embedded message pushes one; a map picks its next      *)
(* entry nondeterministically.  The modes are                                *)
(*   "all"   Go ValidateAll: keep going, collect                             *)
(*   "first" Go Validate: leave every frame at its first error               *)
(*   "cc"    C++: leave at the first error; an unimplemented rule throws     *)
(*   "java"  Java: the first error is an exception that leaves all frames    *)
(* MsgOutcomes (in PGVMsg) says what the results must be; that the machine   *)
(* can produce exactly those is checked by the MC_* models.                  *)
EXTENDS PGVMsg, Json, IOUtils
(* The cases to run, records [id, S, ty, m, go, cc, java] of schema, root type, *)
(* value and targets: a family of Families.tla written out by DumpFamily, or  *)
(* random ones written by the harness.                                        *)
Cases == JsonDeserialize(IOEnv.CASES)
VARIABLES case, mode, stack, result       \* case never changes
vars == <<case, mode, stack, result>>

S == case.S
Task(op, F, i, v) == [op |-> op, F |-> F, i |-> i, v |-> v]
NoField == [n |-> ""]

(* the checks a message starts with *)
Tasks(ty, m) ==
  LET T == S[ty]  pl == Plain(T) IN
  [k \in 1..(Len(pl) + Len(T.oneofs)) |->
     IF k <= Len(pl) THEN Task("field", pl[k], "", Value(m, pl[k]))
     ELSE LET o == T.oneofs[k - Len(pl)]
              set == SelectSeq(OfOneof(T, o.n), LAMBDA F : IsSet(m, F))
          IN IF set = <<>> THEN Task("oneof", o, "", o.required) ELSE Task("field", set[1], "", m[set[1].n])]
Frame(ty, m, F, i) == [ty |-> ty, F |-> F, i |-> i, errs |-> <<>>, todo |-> Tasks(ty, m)]

Modes(c) == (IF c.go THEN {"all", "first"} ELSE {}) \cup (IF c.cc THEN {"cc"} ELSE {}) \cup (IF c.java THEN {"java"} ELSE {})
Init ==
  /\ \E cs \in {Cases} : \E i \in DOMAIN cs : case = cs[i]       \* binds the file's content once
  /\ mode \in Modes(case)
  /\ stack = IF S[case.ty].mode # "on" THEN <<>> ELSE <<Frame(case.ty, case.m, NoField, "")>>
  /\ result = <<"running">>

Lang == IF mode \in {"cc", "java"} THEN mode ELSE "go"
Top == stack[1]
Below == Tail(stack)
Running == result = <<"running">>

(* replace the first task of the top frame by more *)
Becomes(more) == /\ stack' = <<[Top EXCEPT !.todo = more \o Tail(@)]>> \o Below
                 /\ UNCHANGED <<case, mode, result>>
(* a check found these violations (tags "F", or "X" for a C++ exception) *)
Report(tags, i, key, cause) ==
  LET F == Top.todo[1].F
      nodes == [j \in 1..Len(tags) |-> Node(Top.ty, F.n, i, key, cause)]
  IN /\ UNCHANGED <<case, mode>>
     /\ IF tags # <<>> /\ mode = "java" THEN result' = <<IF tags[1] = "X" THEN "X" ELSE "F", Top.ty, F.n>> /\ stack' = <<>>
        ELSE IF tags # <<>> /\ tags[1] = "X" THEN result' = <<"X">> /\ stack' = <<>>
        ELSE /\ result' = result
             /\ stack' = IF tags # <<>> /\ mode # "all"
                         THEN <<[Top EXCEPT !.errs = <<nodes[1]>>, !.todo = <<>>]>> \o Below
                         ELSE <<[Top EXCEPT !.errs = @ \o nodes, !.todo = Tail(@)]>> \o Below

Element(F, i, v) == <<Task("own", F, i, v), Task("embed", F, i, v)>>
ExpandField(t) ==
  LET F == t.F  v == t.v IN
  IF F.card = "one" THEN Element(F, "", v)
  ELSE IF SkipContainer(F, Len(v)) THEN <<>>
  ELSE IF mode = "java" THEN
    <<Task("size", F, "", v)>> \o
    (IF F.card = "map" THEN If(On(F.cr, "no_sparse"), Task("throw", F, "", FALSE)) \o
                            <<Task("keys", F, "", Elems(v)), Task("values", F, "", Elems(v))>>
     ELSE <<Task("unique", F, "", \E k \in DOMAIN v : Repeats(v, k)), Task("items", F, 1, v)>>)
  ELSE <<Task("size", F, "", v)>> \o
       (IF F.card = "map" THEN <<Task("entries", F, "", Elems(v))>>
        ELSE <<Task("items", F, 1, v)>>)

DoField == LET t == Top.todo[1] IN t.op = "field" /\ Becomes(ExpandField(t))
DoSize == LET t == Top.todo[1] IN t.op = "size" /\ Report(SizeViol(t.F, Len(t.v)), "", FALSE, <<>>)
(* the list's element number i, then the others *)
DoItems ==
  LET t == Top.todo[1]  k == t.i IN
  /\ t.op = "items"
  /\ Becomes(IF k > Len(t.v) THEN <<>>
             ELSE (IF mode = "java" THEN <<>> ELSE <<Task("unique", t.F, IndexText(k - 1), Repeats(t.v, k))>>)
                  \o Element(t.F, IF mode = "java" THEN "" ELSE IndexText(k - 1), t.v[k]) \o <<Task("items", t.F, k + 1, t.v)>>)
DoUnique == LET t == Top.todo[1] IN t.op = "unique" /\ Report(If(On(t.F.cr, "unique") /\ t.v, "F"), t.i, FALSE, <<>>)
DoOneof == LET t == Top.todo[1] IN t.op = "oneof" /\ Report(If(t.v, "F"), "", FALSE, <<>>)
(* The next entry: an entry that reports nothing, if there is one (it may as   *)
(* well be visited first), or any of the others.                              *)
Quiet(F, e) == IF mode = "cc" THEN CcQuiet(S, F, e) ELSE IF mode = "java" THEN JavaEl(S, Top.ty, F, e.v) = {<<"T">>} ELSE GoQuiet(S, F, e)
NextOf(F, q) == LET quiet == {e \in q : Quiet(F, e)} IN IF quiet # {} THEN {CHOOSE e \in quiet : TRUE} ELSE q
KeyQuiet(F, e) == Scalar(mode, F.key, e.k) = <<>>
NextKey(F, q) == LET quiet == {e \in q : KeyQuiet(F, e)} IN IF quiet # {} THEN {CHOOSE e \in quiet : TRUE} ELSE q
DoEntries ==
  LET t == Top.todo[1] IN
  /\ t.op = "entries"
  /\ IF t.v = {} THEN Becomes(IF mode = "cc" /\ On(t.F.cr, "no_sparse") THEN <<Task("throw", t.F, "", FALSE)>> ELSE <<>>)
     ELSE \E e \in NextOf(t.F, t.v) :
            Becomes(<<Task("sparse", t.F, e.kt, e.v), Task("key", t.F, e.kt, e.k)>> \o Element(t.F, e.kt, e.v)
                    \o <<Task("entries", t.F, "", t.v \ {e})>>)
(* Java looks at all keys, then at all values, in the map's order *)
DoKeys == LET t == Top.todo[1] IN
  t.op = "keys" /\ IF t.v = {} THEN Becomes(<<>>)
                   ELSE \E e \in NextKey(t.F, t.v) : Becomes(<<Task("key", t.F, e.kt, e.k), Task("keys", t.F, "", t.v \ {e})>>)
DoValues == LET t == Top.todo[1] IN
  t.op = "values" /\ IF t.v = {} THEN Becomes(<<>>)
                     ELSE \E e \in NextOf(t.F, t.v) : Becomes(Element(t.F, e.kt, e.v) \o <<Task("values", t.F, "", t.v \ {e})>>)
DoThrow == Top.todo[1].op = "throw" /\ Report(<<"X">>, "", FALSE, <<>>)
DoSparse == LET t == Top.todo[1] IN
  t.op = "sparse" /\ Report(If(mode # "cc" /\ On(t.F.cr, "no_sparse") /\ t.v = <<>>, "F"), t.i, FALSE, <<>>)
DoKey == LET t == Top.todo[1] IN
  t.op = "key" /\ Report(IF mode = "cc" THEN CcScalar(t.F.key, t.v) ELSE Scalar(Lang, t.F.key, t.v), t.i, TRUE, <<>>)
DoOwn == LET t == Top.todo[1] IN
  t.op = "own" /\ Report(IF mode = "cc" THEN CcOwn(t.F.el, t.v) ELSE OwnViol(Lang, t.F.el, t.v), t.i, FALSE, <<>>)
DoEmbed ==
  LET t == Top.todo[1]  el == t.F.el IN
  /\ t.op = "embed"
  /\ IF ~Embeds(el) \/ el.skip \/ t.v = <<>> \/ S[el.ty].mode \in {"disabled", "ignored", "none"} THEN Becomes(<<>>)
     ELSE IF S[el.ty].mode = "legacy"
          THEN Report(If(mode \in {"all", "first"} /\ "bad" \in DOMAIN t.v[1], "F"), t.i, FALSE, <<"legacy", <<>>>>)
     ELSE /\ stack' = <<Frame(el.ty, t.v[1], t.F, t.i)>> \o stack
          /\ UNCHANGED <<case, mode, result>>
Check == stack # <<>> /\ Top.todo # <<>> /\
         (DoField \/ DoItems \/ DoSize \/ DoUnique \/ DoOneof \/ DoEntries \/ DoKeys \/ DoValues \/ DoThrow \/ DoSparse \/ DoKey \/ DoOwn \/ DoEmbed)

(* leaving an embedded message: its errors become the cause of one error of the caller *)
Return ==
  /\ Len(stack) > 1 /\ Top.todo = <<>>
  /\ UNCHANGED <<case, mode, result>>
  /\ LET up == stack[2]
         node == Node(up.ty, Top.F.n, Top.i, FALSE, <<IF mode = "all" THEN "multi" ELSE "single", Top.errs>>)
         rest == SubSeq(stack, 3, Len(stack))
     IN stack' = IF Top.errs = <<>> THEN <<[up EXCEPT !.todo = Tail(@)]>> \o rest
                 ELSE IF mode = "all" THEN <<[up EXCEPT !.todo = Tail(@), !.errs = Append(@, node)]>> \o rest
                 ELSE <<[up EXCEPT !.todo = <<>>, !.errs = <<node>>]>> \o rest
Finish ==
  /\ Len(stack) <= 1 /\ (IF stack = <<>> THEN TRUE ELSE Top.todo = <<>>)
  /\ stack' = <<>>
  /\ LET errs == IF stack = <<>> THEN <<>> ELSE Top.errs IN
     result' = IF mode \in {"all", "first"} THEN <<"errors", errs>>
               ELSE IF errs = <<>> THEN <<"T">> ELSE <<"F", errs[1].f>>
  /\ UNCHANGED <<case, mode>>
Ended == ~Running /\ UNCHANGED vars
Next == IF Running THEN Check \/ Return \/ Finish ELSE Ended
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
(* the same, printing every outcome for the replay *)
Emit == Running' \/ PrintT(ToJson([id |-> case.id, mode |-> mode, result |-> result']))
EmitSpec == Init /\ [][Next /\ (Running => Emit)]_vars


(* ---- properties of the machine ----------------------------------------------*)
Outcomes(c, md) == \* declarative
  CASE md = "all"   -> {<<"errors", q>> : q \in AllOf(c.S, c.ty, c.m)}
    [] md = "first" -> {<<"errors", q>> : q \in FirstOf(c.S, c.ty, c.m)}
    [] md = "cc"    -> CcOf(c.S, c.ty, c.m)
    [] md = "java"  -> JavaOf(c.S, c.ty, c.m)
Sound == Running \/ result \in Outcomes(case, mode)
(* in first-error mode no frame ever holds more than one error *)
AtMostOne == mode # "all" => \A k \in DOMAIN stack : Len(stack[k].errs) <= 1
(* an error is never dropped while the machine runs in "all" mode *)
NothingLost == [][stack # <<>> /\ mode = "all" /\ Len(stack') = Len(stack)
                   => Len(stack'[1].errs) >= Len(stack[1].errs)]_vars
Terminates == <>(~Running)
(* Validate agrees with ValidateAll on acceptance, whatever the order *)
Agree == Running \/ mode # "all" \/
  (result[2] = <<>>) = (FirstOf(S, case.ty, case.m) = {<<>>})
(* the first error is the first of some ValidateAll run, up to the detail of its cause *)
Bare(e) == [t |-> e.t, f |-> e.f, i |-> e.i, key |-> e.key]
FirstIsHead == Running \/ mode # "first" \/ result[2] = <<>> \/
  \E q \in AllOf(S, case.ty, case.m) : Bare(q[1]) = Bare(result[2][1])
(* nothing is left running once a Java exception has escaped *)
Escaped == (~Running /\ mode = "java") => stack = <<>>
=============================================================================
