----------------------------- MODULE PGVRules ------------------------------
(* Declarative meaning of every field rule: which rules of a rule record r   *)
(* a value v violates, in the order in which the Go target reports them.     *)
(*                                                                           *)
(* r is a record whose DOMAIN holds just the rules that are set.  Ordered    *)
(* values (numbers, durations, timestamps) are integers: ranks in a table    *)
(* of concrete values chosen by the harness; the order is all that matters.  *)
EXTENDS PGVText

Has(r, k) == k \in DOMAIN r
On(r, k)  == k \in DOMAIN r /\ r[k]               \* boolean rule present and true
If(b, x)  == IF b THEN <<x>> ELSE <<>>

(* ---- ordered values ------------------------------------------------------ *)
HasLo(r) == Has(r, "gt") \/ Has(r, "gte")
HasHi(r) == Has(r, "lt") \/ Has(r, "lte")
Lo(r) == IF Has(r, "gt") THEN r.gt ELSE r.gte
Hi(r) == IF Has(r, "lt") THEN r.lt ELSE r.lte
AboveLo(r, v) == IF Has(r, "gt") THEN v > r.gt ELSE v >= r.gte
BelowHi(r, v) == IF Has(r, "lt") THEN v < r.lt ELSE v <= r.lte
RangeOK(r, v) ==
  CASE ~HasLo(r) /\ ~HasHi(r) -> TRUE
    [] HasLo(r)  /\ ~HasHi(r) -> AboveLo(r, v)
    [] ~HasLo(r) /\ HasHi(r)  -> BelowHi(r, v)
    [] OTHER -> IF Hi(r) > Lo(r) THEN AboveLo(r, v) /\ BelowHi(r, v)   \* inside
                ELSE AboveLo(r, v) \/ BelowHi(r, v)                    \* outside

InViol(r, v) == IF Has(r, "in") THEN If(v \notin Elems(r.in), "in")
                ELSE IF Has(r, "not_in") THEN If(v \in Elems(r.not_in), "not_in") ELSE <<>>
ConstViol(r, v) == If(Has(r, "const") /\ v # r.const, "const")

OrderedViol(r, v) == ConstViol(r, v) \o If(~RangeOK(r, v), "range") \o InViol(r, v)

(* numbers: `zero` is the rank of 0 in the value table *)
NumViol(r, v, zero) == IF On(r, "ignore_empty") /\ v = zero THEN <<>> ELSE OrderedViol(r, v)
BoolViol(r, v) == ConstViol(r, v)
EnumViol(r, v, defined) ==
  ConstViol(r, v) \o InViol(r, v) \o If(On(r, "defined_only") /\ v \notin defined, "defined_only")

(* ---- lengths ------------------------------------------------------------- *)
LenOK(r, kLen, kMin, kMax, n) ==
  /\ (Has(r, kLen) => n = r[kLen])
  /\ (Has(r, kMin) => n >= r[kMin])
  /\ (Has(r, kMax) => n <= r[kMax])

(* ---- strings --------------------------------------------------------------- *)
WellKnown == {"ip", "ipv4", "ipv6", "email", "hostname", "address", "uri", "uri_ref", "uuid"}
FormatOK(lang, k, s) ==
  CASE k = "ip" -> IsIP(s)            [] k = "ipv4" -> IsIPv4(lang, s)
    [] k = "ipv6" -> IsIPv6(lang, s)  [] k = "email" -> Email(s)
    [] k = "hostname" -> Hostname(s)  [] k = "address" -> Hostname(s) \/ IsIP(s)
    [] k = "uri" -> Uri(s)            [] k = "uri_ref" -> UriRef(s)
    [] k = "uuid" -> UUID(s)
FormatOf(r) == {k \in WellKnown : On(r, k)}          \* a oneof: at most one
KnownRegexOK(r, s) ==
  LET strict == ~Has(r, "strict") \/ r.strict IN
  CASE ~strict -> HeaderLoose(s)
    [] r.well_known_regex = "HTTP_HEADER_NAME" -> HeaderName(s)
    [] r.well_known_regex = "HTTP_HEADER_VALUE" -> HeaderValue(s)
PatternOK(lang, re, s) == IF lang = "go" THEN MatchSearch(re, s) ELSE MatchFull(re, s)

StrViol(lang, r, s) ==
  IF On(r, "ignore_empty") /\ s = <<>> THEN <<>> ELSE
     ConstViol(r, s)
  \o InViol(r, s)
  \o If(~LenOK(r, "len", "min_len", "max_len", Len(s)), "len")
  \o If(~LenOK(r, "len_bytes", "min_bytes", "max_bytes", ByteLen(s)), "bytes")
  \o If(Has(r, "prefix") /\ ~Prefix(r.prefix, s), "prefix")
  \o If(Has(r, "suffix") /\ ~Suffix(r.suffix, s), "suffix")
  \o If(Has(r, "contains") /\ ~Contains(s, r.contains), "contains")
  \o If(Has(r, "not_contains") /\ Contains(s, r.not_contains), "not_contains")
  \o If(\E k \in FormatOf(r) : ~FormatOK(lang, k, s), "format")
  \o If(Has(r, "well_known_regex") /\ ~KnownRegexOK(r, s), "pattern")
  \o If(Has(r, "pattern") /\ ~PatternOK(lang, r.pattern, s), "pattern")

(* Java goes by the number of bytes only *)
BytesFormatOK(lang, k, b) ==
  CASE k = "ip" -> BytesIP(b)
    [] k = "ipv4" -> IF lang = "java" THEN Len(b) = 4 ELSE BytesIPv4(b)
    [] k = "ipv6" -> IF lang = "java" THEN Len(b) = 16 ELSE BytesIPv6(b)
BytesViol(lang, r, b) ==
  IF On(r, "ignore_empty") /\ b = <<>> THEN <<>> ELSE
     If(~LenOK(r, "len", "min_len", "max_len", Len(b)), "len")
  \o If(Has(r, "prefix") /\ ~Prefix(r.prefix, b), "prefix")
  \o If(Has(r, "suffix") /\ ~Suffix(r.suffix, b), "suffix")
  \o If(Has(r, "contains") /\ ~Contains(b, r.contains), "contains")
  \o InViol(r, b)
  \o ConstViol(r, b)
  \o If(\E k \in FormatOf(r) : ~BytesFormatOK(lang, k, b), "format")
  \o If(Has(r, "pattern") /\ ~PatternOK(lang, r.pattern, b), "pattern")

(* ---- well-known messages ---------------------------------------------------- *)
(* A set Any is represented by its type URL. *)
AnyViol(r, url) == InViol(r, url)

NeedsValue(r) == \/ \E k \in {"const", "lt", "lte", "gt", "gte", "in", "not_in", "within"} : Has(r, k)
                 \/ On(r, "lt_now") \/ On(r, "gt_now")
(* Durations: v is a rank, or INVALID for a value outside the type's range.   *)
INVALID == -1
DurViol(r, v) ==
  IF ~NeedsValue(r) THEN <<>> ELSE IF v = INVALID THEN <<"invalid">> ELSE OrderedViol(r, v)

(* Timestamps against the clock: v and `within` are offsets from now in a     *)
(* coarse unit (the harness keeps real offsets far enough from the bounds     *)
(* for the running clock not to matter).                                      *)
NowOK(r, v) ==
  LET w == Has(r, "within") IN
  CASE On(r, "lt_now") -> v < 0 /\ (w => v >= -r.within)
    [] On(r, "gt_now") -> v > 0 /\ (w => v <= r.within)
    [] w -> v < r.within /\ v > -r.within
    [] OTHER -> TRUE
TsViol(r, v) ==
  IF ~NeedsValue(r) THEN <<>> ELSE IF v = INVALID THEN <<"invalid">> ELSE
  ConstViol(r, v) \o If(~RangeOK(r, v), "range")
TsNowViol(r, v) == If(~NowOK(r, v), "now")

(* ---- containers --------------------------------------------------------------- *)
SizeOK(r, kMin, kMax, n) == (Has(r, kMin) => n >= r[kMin]) /\ (Has(r, kMax) => n <= r[kMax])
=============================================================================
