----------------------------- MODULE MC_Output ------------------------------
(* Part "names": single input files with every kind of name and option.       *)
(* Part "runs": the plugin working through the files of a request, one after  *)
(* the other, in any order and for any subset of them.                        *)
EXTENDS PGVOutput, Json, IOUtils
Part == IOEnv.PART
Long == IOEnv.LONG = "1"

NoPar == [paths |-> "", module |-> <<>>]
GoPkg(path, form) == [path |-> path, slash |-> form # "bare", form |-> form]
NoJava == [pkg |-> <<>>, multi |-> FALSE, outer |-> ""]
File(dir, base, pkg, go, java, msgs, names, uses) ==
  [dir |-> dir, base |-> base, pkg |-> pkg, go |-> go, java |-> java, msgs |-> msgs, names |-> names, uses |-> uses]
World(what, f, lang, par) == [what |-> what, f |-> f, lang |-> lang, par |-> par]
Simple(base, java, msgs) == File(<<>>, base, <<"p">>, GoPkg(<<"x.y", "z">>, "plain"), java, msgs, {msgs[k] : k \in DOMAIN msgs}, TRUE)

(* every file name over a small alphabet *)
Alphabet == {"a", "B", "1", "_", "-", "."}
RECURSIVE Words(_)
Words(n) == IF n = 0 THEN {""} ELSE LET w == Words(n - 1) IN w \cup {v \o c : v \in w, c \in Alphabet}
GoodBase(b) == b # "" /\ At(b, 1) \notin {".", "-", "1"} /\ Camel(b) # "" /\ Occurs(At(Camel(b), 1), Uppers)
Extra == {"foo_bar_baz", "fooBARBaz", "URLPath", "http2server", "http2_server", "HTTP2", "x__y", "_lead", "trail_", "v1alpha1", "a1b2c3", "A1b", "x.y-z_w", "camelCase", "S3", "s3x", "i18n", "utf8", "FOO_BAR", "Foo_bar", "fooBar_1x", "j2me"}
BaseWorlds == {World("base", Simple(b, NoJava, <<"Msg">>), l, NoPar) : b \in {w \in Words(IF Long THEN 4 ELSE 3) : GoodBase(w)} \cup Extra, l \in {"go", "cc", "java"}}

(* names inside a Java file that meet the name of its outer class *)
Kinds == {"message", "enum", "service", "nested_message", "nested_enum"}
ConflictWorlds == {[what |-> "conflict", lang |-> "java", par |-> NoPar, kind |-> k, name |-> n,
     f |-> [Simple(b, [NoJava EXCEPT !.multi = m, !.outer = o], IF k = "message" THEN <<"Msg", n>> ELSE <<"Msg">>) EXCEPT !.names = {"Msg", n}]]
   : b \in {"foo", "foo_bar", "Foo", "fooBar"}, k \in Kinds, n \in {"Foo", "FooBar", "foo", "foobar", "FooOuterClass"}, m \in BOOLEAN, o \in {"", "Other"}}
(* several files per Java package, several messages per file *)
MultiWorlds == {World("multi", Simple("file", [NoJava EXCEPT !.multi = TRUE, !.pkg = p], <<n>>), "java", NoPar)
   : n \in {"M", "fooBar", "FOO", "Foo_Bar", "foo2bar", "F1b_c", "URL", "A1B2", "x", "HTTPServer2go", "Foo_", "_Foo", "a_b", "ABc", "aBC", "X9", "x9y", "Msg1_2"},
     p \in {<<>>, <<<<"com", "acme">>>>, <<<<"one">>>>}}
UseWorlds == {World("use", [Simple("file", [NoJava EXCEPT !.multi = m], <<"One", "Two">>) EXCEPT !.uses = u # "no"], l, NoPar) @@ [use |-> u]
   : m \in BOOLEAN, u \in {"direct", "public", "public2", "no"}, l \in {"java", "go", "cc"}}
PkgWorlds == {World("package", [Simple("file", [NoJava EXCEPT !.pkg = j], <<"One">>) EXCEPT !.pkg = p, !.dir = d], l, NoPar)
   : j \in {<<>>, <<<<"com", "acme">>>>}, p \in {<<"p">>, <<"a", "b", "c">>, <<"a_b">>}, d \in {<<>>, <<"d">>, <<"d", "e.f">>}, l \in {"java", "cc", "go"}}

(* Go packages, modules and path modes *)
Forms == {"plain", "alias", "same_alias", "bare", "dot"}
GoWorlds == {World("go", [Simple("file", NoJava, <<"One">>) EXCEPT !.dir = d, !.go = GoPkg(IF fm = "bare" THEN <<"single">> ELSE p, fm)], "go", [paths |-> ps, module |-> m])
   : d \in {<<>>, <<"d">>, <<"x.y", "z">>}, p \in {<<"x.y", "z">>, <<"x.y", "z", "w">>, <<"x.y", "zz">>, <<"x.y", "z", "x.y", "z", "q">>}, fm \in Forms,
     ps \in {"", "source_relative"}, m \in {<<>>, <<"x.y">>, <<"x.y", "z">>, <<"x.y", "z", "w">>, <<"x.y", "z", "w", "v">>, <<"z">>, <<"y">>}}
Sensible(w) == w.what # "go" \/ (w.par.module = <<>> \/ w.par.paths = "")
Worlds(x_) == {w \in BaseWorlds \cup ConflictWorlds \cup MultiWorlds \cup UseWorlds \cup PkgWorlds \cup GoWorlds : Sensible(w)}

(* ---- runs ----------------------------------------------------------------------*)
Jav(p, m) == [pkg |-> p, multi |-> m, outer |-> ""]
Corpus == <<
  File(<<>>, "a", <<"p", "a">>, GoPkg(<<"x.y", "pa">>, "plain"), NoJava, <<"M", "Sub", "Rules">>, {"M", "Sub", "Rules", "E"}, TRUE),
  File(<<"sub">>, "b", <<"p", "b">>, GoPkg(<<"x.y", "z", "pb">>, "alias"), Jav(<<<<"com", "b">>>>, TRUE), <<"UseA", "Inner2", "Rules">>, {"UseA", "Inner2", "Rules", "Nest", "F"}, TRUE),
  File(<<>>, "c_d", <<"p", "a">>, GoPkg(<<"x.y", "pa">>, "plain"), NoJava, <<"MQ", "RulesQ">>, {"MQ", "RulesQ", "CD"}, TRUE),
  File(<<"sub", "deep">>, "plain", <<"q">>, GoPkg(<<"x.y", "pq">>, "plain"), Jav(<<>>, TRUE), <<"NoRules">>, {"NoRules"}, FALSE),
  File(<<"other">>, "a", <<"p", "e">>, GoPkg(<<"x.y", "z", "pe">>, "plain"), Jav(<<<<"com", "b">>>>, FALSE), <<"All", "Off">>, {"All", "Off"}, TRUE),
  File(<<>>, "bad", <<"p", "bad">>, GoPkg(<<"x.y", "pbad">>, "plain"), NoJava, <<"Wrong">>, {"Wrong"}, TRUE) >>
Bad == {6}      \* its rules contradict each other
Pars(l) == IF l = "go" THEN {NoPar, [paths |-> "source_relative", module |-> <<>>], [paths |-> "", module |-> <<"x.y", "z">>], [paths |-> "", module |-> <<"x.y">>]} ELSE {NoPar}
Settings(x_) == {[lang |-> l, par |-> p] : l \in {"go", "cc", "java"}, p \in UNION {Pars(k) : k \in {"go"}}}
AllSettings == {s \in Settings(0) : s.par \in Pars(s.lang)}

(* ---- twins: two files of one run that share their base name ---------------------*)
Feats == {"plain", "message", "enum", "service", "nested_message", "nested_enum", "outer", "multi", "pkg", "no"}
Twin(feat, n) ==
  LET j == [pkg |-> IF feat = "pkg" THEN <<<<"com", n>>>> ELSE <<>>, multi |-> feat = "multi", outer |-> IF feat = "outer" THEN "Other" ELSE ""]
      k == IF feat \in {"message", "enum", "service", "nested_message", "nested_enum"} THEN feat ELSE "" IN
  [what |-> "twin", kind |-> k, name |-> "FooBar", use |-> IF feat = "no" THEN "no" ELSE "direct",
   f |-> File(<<n>>, "foo_bar", <<n>>, GoPkg(<<"x.y", n, "same">>, "plain"), j, IF feat = "message" THEN <<"Msg", "FooBar">> ELSE <<"Msg">>,
              IF k = "" THEN {"Msg"} ELSE {"Msg", "FooBar"}, feat # "no")]
Twins == {[lang |-> l, par |-> NoPar, a |-> Twin(x, "one"), b |-> Twin(y, "two")] : l \in {"go", "cc", "java"}, x \in Feats, y \in Feats}
TwinNames(t) == Outputs(t.a.f, t.lang, t.par) \cup Outputs(t.b.f, t.lang, t.par)

VARIABLES w, done, out, failed
vars == <<w, done, out, failed>>
Init == IF Part = "names"
        THEN /\ \E ws \in {Worlds(0)} : \E x \in ws : w = x
             /\ done = <<>> /\ out = Outputs(w.f, w.lang, w.par) /\ failed = FALSE
             /\ PrintT(ToJson([w |-> w, names |-> out]))
        ELSE IF Part = "twins"
        THEN /\ \E ts \in {Twins} : \E x \in ts : w = x
             /\ done = <<>> /\ out = TwinNames(w) /\ failed = FALSE
             /\ PrintT(ToJson([w |-> w, names |-> out]))
        ELSE /\ w \in AllSettings /\ done = <<>> /\ out = {} /\ failed = FALSE
             /\ (w = [lang |-> "cc", par |-> NoPar] => PrintT(ToJson([corpus |-> Corpus])))
(* the plugin turns to a file it has not handled yet; one bad file and nothing  *)
(* is written at all                                                            *)
Generate(i) ==
  /\ i \notin {done[k] : k \in 1..Len(done)}
  /\ (i \in Bad \/ failed) => Len(done) < 3
  /\ done' = Append(done, i)
  /\ failed' = (failed \/ i \in Bad)
  /\ out' = IF failed' THEN {} ELSE out \cup {[name |-> n, from |-> i] : n \in Outputs(Corpus[i], w.lang, w.par)}
  /\ UNCHANGED w
  /\ PrintT(ToJson([w |-> w, order |-> done', out |-> out', failed |-> failed']))
Next == Part = "runs" /\ \E i \in 1..Len(Corpus) : Generate(i)
Spec == Init /\ [][Next]_vars

NothingWhenBad == failed <=> \E k \in 1..Len(done) : done[k] \in Bad /\ Part = "runs"
(* every name once; what a file contributes depends on that file alone *)
Once == Part = "runs" => \A a, b \in out : a.name = b.name => a = b
Compositional == Part = "runs" => out = IF failed THEN {} ELSE UNION {{[name |-> n, from |-> i] : n \in Outputs(Corpus[i], w.lang, w.par)} : i \in {done[k] : k \in 1..Len(done)}}
TwinsApart == Part = "twins" => Outputs(w.a.f, w.lang, w.par) \cap Outputs(w.b.f, w.lang, w.par) = {}
(* names stay inside the output directory and keep the base name *)
Named == Part = "names" => \A n \in out : Len(n) > 0 /\ At(n, 1) # "/"
Counted == Part = "names" => Cardinality(out) = CASE w.lang = "go" -> 1 [] w.lang = "cc" -> 2
                                   [] OTHER -> IF ~w.f.uses THEN 0 ELSE IF w.f.java.multi THEN Len(w.f.msgs) ELSE 1
=============================================================================
