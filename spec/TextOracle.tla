----------------------------- MODULE TextOracle -----------------------------
(* Verdicts of string and bytes rules on values chosen by the harness.       *)
(* CASES is a JSON list of [id, kind, r, vals]; one line per case comes out   *)
(* with the violations of every value, for Go and for C++.                    *)
EXTENDS PGVRules, Json, IOUtils, TLC
VARIABLES case, out
vars == <<case, out>>
Cases == JsonDeserialize(IOEnv.CASES)
Viol(lang, s) == IF case.kind = "string" THEN StrViol(lang, case.r, s) ELSE BytesViol(lang, case.r, s)
Init == /\ \E cs \in {Cases} : \E i \in DOMAIN cs : case = cs[i]
        /\ out = <<>>
Next == /\ out = <<>>
        /\ out' = [k \in DOMAIN case.vals |-> [go |-> Viol("go", case.vals[k]), cc |-> Viol("cc", case.vals[k]), java |-> Viol("java", case.vals[k])]]
        /\ UNCHANGED case
        /\ PrintT(ToJson([id |-> case.id, go |-> [k \in DOMAIN out' |-> out'[k].go],
                          cc |-> {k \in DOMAIN out' : out'[k].cc # out'[k].go},
                          ccv |-> [k \in DOMAIN out' |-> Len(out'[k].cc)], javav |-> [k \in DOMAIN out' |-> Len(out'[k].java)]]))
Spec == Init /\ [][Next]_vars

(* ---- laws relating the formats, checked on every value seen ------------------*)
Laws(s) ==
  /\ \A l \in {"go", "cc"} : (IsIPv4(l, s) \/ IsIPv6(l, s)) = IsIP(s) /\ ~(IsIPv4(l, s) /\ IsIPv6(l, s))
  /\ IPv4(s) => Hostname(s)                        \* digits and dots are labels
  /\ UUID(s) => Hostname(s)
  /\ IPv6Text(s) => ~Hostname(s)
  /\ Email(s) => ~Hostname(s) /\ ~IsIP(s)
  /\ Uri(s) => UriRef(s)
  /\ HeaderName(s) => HeaderValue(s)
  /\ HeaderValue(s) => HeaderLoose(s)
  /\ Len(s) <= ByteLen(s) /\ ByteLen(s) <= 4 * Len(s)
FormatLaws == (out # <<>> /\ case.kind = "string") => \A k \in DOMAIN case.vals : Laws(case.vals[k])
BytesLaws == (out # <<>> /\ case.kind = "bytes") => \A k \in DOMAIN case.vals :
  LET b == case.vals[k] IN (BytesIPv4(b) \/ BytesIPv6(b)) = BytesIP(b) /\ ~(BytesIPv4(b) /\ BytesIPv6(b))
(* adding `ignore_empty` changes the verdict of the empty value only *)
EmptyLaw == out # <<>> => \A k \in DOMAIN case.vals :
  (On(case.r, "ignore_empty") /\ case.vals[k] = <<>>) => out[k].go = <<>> /\ out[k].cc = <<>>
=============================================================================
