------------------------------ MODULE PGVText ------------------------------
(* Text and byte-string theory used by the rule semantics.                  *)
(*                                                                          *)
(* A string is a sequence of Unicode code points, a byte string a sequence  *)
(* of 0..255.  Prefix/suffix/substring on code points coincide with the     *)
(* same notions on the UTF-8 encoding because UTF-8 is self-synchronising,  *)
(* so one definition serves both; only lengths differ (Len vs ByteLen).     *)
EXTENDS Integers, Sequences, FiniteSets

Elems(q) == {q[i] : i \in DOMAIN q}

(* ---- lengths ---------------------------------------------------------- *)
Width(c) == IF c < 128 THEN 1 ELSE IF c < 2048 THEN 2 ELSE IF c < 65536 THEN 3 ELSE 4

RECURSIVE ByteLenFrom(_, _)
ByteLenFrom(s, i) == IF i > Len(s) THEN 0 ELSE Width(s[i]) + ByteLenFrom(s, i + 1)
ByteLen(s) == ByteLenFrom(s, 1)

(* ---- affixes ----------------------------------------------------------- *)
Prefix(p, s) == Len(p) <= Len(s) /\ \A i \in 1..Len(p) : p[i] = s[i]
Suffix(p, s) == Len(p) <= Len(s) /\ \A i \in 1..Len(p) : p[i] = s[Len(s) - Len(p) + i]
Contains(s, p) == \E k \in 0..(Len(s) - Len(p)) : \A i \in 1..Len(p) : p[i] = s[k + i]

(* ---- regular expressions ------------------------------------------------ *)
(* An AST over records with an "op" field.  Ends(re, s, i) is the set of    *)
(* positions j such that re matches s[i..j-1].                              *)
InRanges(c, rs) == \E k \in DOMAIN rs : rs[k][1] <= c /\ c <= rs[k][2]

RECURSIVE Ends(_, _, _), EndsCat(_, _, _, _), Closure(_, _, _), EndsRep(_, _, _, _, _)
Ends(re, s, i) ==
  CASE re.op = "lit"   -> IF i <= Len(s) /\ s[i] = re.c THEN {i + 1} ELSE {}
    [] re.op = "any"   -> IF i <= Len(s) /\ s[i] # 10 THEN {i + 1} ELSE {}
    [] re.op = "class" -> IF i <= Len(s) /\ (InRanges(s[i], re.r) # re.neg) THEN {i + 1} ELSE {}
    [] re.op = "bol"   -> IF i = 1 THEN {i} ELSE {}
    [] re.op = "eol"   -> IF i = Len(s) + 1 THEN {i} ELSE {}
    [] re.op = "cat"   -> EndsCat(re.xs, 1, s, i)
    [] re.op = "alt"   -> UNION {Ends(re.xs[k], s, i) : k \in DOMAIN re.xs}
    [] re.op = "opt"   -> {i} \cup Ends(re.x, s, i)
    [] re.op = "star"  -> Closure(re.x, s, {i})
    [] re.op = "plus"  -> UNION {Closure(re.x, s, {j}) : j \in Ends(re.x, s, i)}
    [] re.op = "rep"   -> EndsRep(re.x, re.m, re.n, s, {i})
EndsCat(xs, k, s, i) ==
  IF k > Len(xs) THEN {i} ELSE UNION {EndsCat(xs, k + 1, s, j) : j \in Ends(xs[k], s, i)}
Closure(x, s, S) ==
  LET T == S \cup UNION {Ends(x, s, j) : j \in S} IN IF T = S THEN S ELSE Closure(x, s, T)
(* x{m,n} *)
EndsRep(x, m, n, s, S) ==
  LET T == UNION {Ends(x, s, j) : j \in S} IN
  IF m > 0 THEN EndsRep(x, m - 1, n - 1, s, T)
  ELSE IF n > 0 /\ T # {} THEN S \cup EndsRep(x, 0, n - 1, s, T) ELSE S

MatchSearch(re, s) == \E i \in 1..(Len(s) + 1) : Ends(re, s, i) # {}
MatchFull(re, s)   == (Len(s) + 1) \in Ends(re, s, 1)

(* ---- characters ----------------------------------------------------------*)
IsDigit(c) == c >= 48 /\ c <= 57
IsUpper(c) == c >= 65 /\ c <= 90
IsLower(c) == c >= 97 /\ c <= 122
IsAlpha(c) == IsUpper(c) \/ IsLower(c)
IsHex(c)   == IsDigit(c) \/ (c >= 65 /\ c <= 70) \/ (c >= 97 /\ c <= 102)
DOT == 46  HYPHEN == 45  COLON == 58  AT == 64  SLASH == 47

(* ---- splitting -----------------------------------------------------------*)
(* <<start, end>> (inclusive start, exclusive end) of the parts of s between separators c. *)
Cuts(s, c) == {i \in 1..Len(s) : s[i] = c}
PartAt(s, c, i) == \* the part starting at position i (i = 1 or just after a separator)
  LET seps == {k \in Cuts(s, c) : k >= i}
      e    == IF seps = {} THEN Len(s) + 1 ELSE CHOOSE k \in seps : \A l \in seps : k <= l
  IN SubSeq(s, i, e - 1)
Starts(s, c) == {1} \cup {k + 1 : k \in Cuts(s, c)}
PartSet(s, c) == {PartAt(s, c, i) : i \in Starts(s, c)}
PartCount(s, c) == Cardinality(Cuts(s, c)) + 1

(* ---- host names (RFC 1034, no IDN; one trailing dot allowed) ------------- *)
Label(p) == /\ Len(p) >= 1 /\ Len(p) <= 63
            /\ p[1] # HYPHEN /\ p[Len(p)] # HYPHEN
            /\ \A i \in 1..Len(p) : IsAlpha(p[i]) \/ IsDigit(p[i]) \/ p[i] = HYPHEN
Hostname(s) ==
  LET h == IF Len(s) > 0 /\ s[Len(s)] = DOT THEN SubSeq(s, 1, Len(s) - 1) ELSE s
  IN ByteLen(s) <= 253 /\ \A p \in PartSet(h, DOT) : Label(p)

(* ---- IP addresses --------------------------------------------------------*)
DecVal(p) == LET d(i) == p[i] - 48 IN
  IF Len(p) = 1 THEN d(1) ELSE IF Len(p) = 2 THEN 10 * d(1) + d(2) ELSE 100 * d(1) + 10 * d(2) + d(3)
Octet(p) == /\ Len(p) \in 1..3 /\ \A i \in 1..Len(p) : IsDigit(p[i])
            /\ (Len(p) > 1 => p[1] # 48)
            /\ DecVal(p) <= 255
IPv4(s) == Len(s) <= 15 /\ PartCount(s, DOT) = 4 /\ \A p \in PartSet(s, DOT) : Octet(p)

Group(p) == Len(p) \in 1..4 /\ \A i \in 1..Len(p) : IsHex(p[i])
(* Number of 16-bit groups denoted by a colon-separated list, or -1.  A     *)
(* dotted quad may stand for the last two groups.  Empty list: 0 groups.    *)
RECURSIVE GroupsFrom(_, _, _)
GroupsFrom(s, i, lastOk) ==
  LET p == PartAt(s, COLON, i)
      last == i + Len(p) > Len(s)
  IN IF last THEN (IF Group(p) THEN 1 ELSE IF lastOk /\ IPv4(p) THEN 2 ELSE -1)
     ELSE IF ~Group(p) THEN -1
     ELSE LET r == GroupsFrom(s, i + Len(p) + 1, lastOk) IN IF r < 0 THEN -1 ELSE 1 + r
Groups(s, lastOk) == IF Len(s) = 0 THEN 0 ELSE GroupsFrom(s, 1, lastOk)
DoubleColons(s) == {i \in 1..(Len(s) - 1) : s[i] = COLON /\ s[i + 1] = COLON}
IPv6Text(s) ==
  /\ Len(s) <= 45
  /\ IF DoubleColons(s) = {} THEN Groups(s, TRUE) = 8
     ELSE \E i \in DoubleColons(s) :
            LET l == SubSeq(s, 1, i - 1)  r == SubSeq(s, i + 2, Len(s))
                nl == Groups(l, FALSE)  nr == Groups(r, TRUE)
            IN nl >= 0 /\ nr >= 0 /\ nl + nr <= 7
(* IPv6 text whose value lies in ::ffff:0:0/96.  Go (net.IP) identifies     *)
(* such addresses with the IPv4 address they carry; C++ (inet_pton) does    *)
(* not.  A named, documented deviation between the two targets.             *)
RECURSIVE HexVal(_, _)
HexDigit(c) == IF IsDigit(c) THEN c - 48 ELSE IF IsUpper(c) THEN c - 55 ELSE c - 87
HexVal(p, n) == IF n = 0 THEN 0 ELSE HexVal(p, n - 1) * 16 + HexDigit(p[n])
QuadVal(p) == \* the two groups denoted by a dotted quad
  LET c1 == CHOOSE k \in Cuts(p, DOT) : \A l \in Cuts(p, DOT) : k <= l
      a == PartAt(p, DOT, 1)
      b == PartAt(p, DOT, Len(a) + 2)
      c == PartAt(p, DOT, Len(a) + Len(b) + 3)
      d == PartAt(p, DOT, Len(a) + Len(b) + Len(c) + 4)
  IN <<DecVal(a) * 256 + DecVal(b), DecVal(c) * 256 + DecVal(d)>>
RECURSIVE GroupVals(_, _)
GroupVals(s, i) ==
  IF Len(s) = 0 THEN <<>> ELSE
  LET p == PartAt(s, COLON, i)
      last == i + Len(p) > Len(s)
      v == IF Group(p) THEN <<HexVal(p, Len(p))>> ELSE QuadVal(p)
  IN IF last THEN v ELSE v \o GroupVals(s, i + Len(p) + 1)
IPv6Value(s) == \* eight groups; s satisfies IPv6Text
  IF DoubleColons(s) = {} THEN GroupVals(s, 1)
  ELSE LET i == CHOOSE i \in DoubleColons(s) :
                 LET l == SubSeq(s, 1, i - 1)  r == SubSeq(s, i + 2, Len(s))
                     nl == Groups(l, FALSE)  nr == Groups(r, TRUE)
                 IN nl >= 0 /\ nr >= 0 /\ nl + nr <= 7
           l == GroupVals(SubSeq(s, 1, i - 1), 1)
           r == GroupVals(SubSeq(s, i + 2, Len(s)), 1)
       IN l \o [k \in 1..(8 - Len(l) - Len(r)) |-> 0] \o r
V4Mapped(s) == LET g == IPv6Value(s) IN (\A k \in 1..5 : g[k] = 0) /\ g[6] = 65535

IsIP(s) == IPv4(s) \/ IPv6Text(s)
IsIPv4(lang, s) == IPv4(s) \/ (lang = "go" /\ IPv6Text(s) /\ V4Mapped(s))
IsIPv6(lang, s) == IPv6Text(s) /\ (lang = "go" => ~V4Mapped(s))

(* raw bytes *)
V4MappedBytes(b) == Len(b) = 16 /\ (\A k \in 1..10 : b[k] = 0) /\ b[11] = 255 /\ b[12] = 255
BytesIP(b)   == Len(b) \in {4, 16}
BytesIPv4(b) == Len(b) = 4 \/ V4MappedBytes(b)
BytesIPv6(b) == Len(b) = 16 /\ ~V4MappedBytes(b)

(* ---- UUID ----------------------------------------------------------------*)
UUID(s) == /\ Len(s) = 36
           /\ \A i \in 1..36 : IF i \in {9, 14, 19, 24} THEN s[i] = HYPHEN ELSE IsHex(s[i])

(* ---- HTTP header rules --------------------------------------------------- *)


TokenChar(c) == IsDigit(c) \/ IsAlpha(c) \/
                c \in {33, 35, 36, 37, 38, 39, 42, 43, 45, 46, 94, 95, 96, 124, 126}
HeaderName(s) ==
  LET b == IF Len(s) > 0 /\ s[1] = COLON THEN SubSeq(s, 2, Len(s)) ELSE s
  IN Len(b) > 0 /\ \A i \in 1..Len(b) : TokenChar(b[i])
HeaderValue(s) == \A i \in 1..Len(s) : (s[i] >= 32 \/ s[i] = 9) /\ s[i] # 127
HeaderLoose(s) == \A i \in 1..Len(s) : s[i] \notin {0, 10, 13}

(* ---- e-mail: addr-spec with dot-atom local part and host-name domain ------*)
(* Values with spaces, quotes, comments, angle brackets or domain literals  *)
(* (the rest of RFC 5322) are outside the modelled domain.                   *)
AText(c) == IsDigit(c) \/ IsAlpha(c) \/ c > 127 \/
            c \in {33, 35, 36, 37, 38, 39, 42, 43, 45, 47, 61, 63, 94, 95, 96, 123, 124, 125, 126}
DotAtom(s) == \A p \in PartSet(s, DOT) : Len(p) > 0 /\ \A i \in 1..Len(p) : AText(p[i])
Email(s) ==
  \E k \in Cuts(s, AT) :
    LET l == SubSeq(s, 1, k - 1)  d == SubSeq(s, k + 1, Len(s))
    IN DotAtom(l) /\ DotAtom(d) /\ ByteLen(s) <= 254 /\ ByteLen(l) <= 64 /\ Hostname(d)

(* ---- URIs (RFC 3986), over the alphabet of the generated values: letters, *)
(* digits and + - . : / ? # % and control characters or spaces.             *)
SchemeChar(c) == IsAlpha(c) \/ IsDigit(c) \/ c \in {43, 45, 46}
SchemeLen(s) == \* length of the scheme, 0 if there is none
  LET ks == {k \in Cuts(s, COLON) : k > 1 /\ IsAlpha(s[1]) /\ \A i \in 1..(k - 1) : SchemeChar(s[i])}
  IN IF ks = {} THEN 0 ELSE (CHOOSE k \in ks : \A l \in ks : k <= l) - 1
PctOK(s) == \A i \in 1..Len(s) : s[i] = 37 => i + 2 <= Len(s) /\ IsHex(s[i + 1]) /\ IsHex(s[i + 2])
CutAt(s, c) == IF Cuts(s, c) = {} THEN Len(s) + 1 ELSE CHOOSE k \in Cuts(s, c) : \A l \in Cuts(s, c) : k <= l
Port(p) == \A i \in 1..Len(p) : IsDigit(p[i])
Authority(a) == \* reg-name [ ":" port ]; several colons or percent signs are outside the modelled domain
  LET k == CutAt(a, COLON) IN Port(SubSeq(a, k + 1, Len(a))) /\ ~\E i \in 1..Len(a) : a[i] = 37 \/ a[i] = 32
RefRest(s, hasScheme) == \* what follows the scheme, without the fragment
  LET q == CutAt(s, 63)
      path == SubSeq(s, 1, q - 1)
      hasAuth == Len(path) >= 2 /\ path[1] = SLASH /\ path[2] = SLASH
                 /\ ~(Len(path) >= 3 /\ path[3] = SLASH /\ ~hasScheme)
      tail == IF hasAuth THEN SubSeq(path, 3, Len(path)) ELSE path
      k == CutAt(tail, SLASH)
      auth == IF hasAuth THEN SubSeq(tail, 1, k - 1) ELSE <<>>
      p == IF hasAuth THEN SubSeq(tail, k, Len(tail)) ELSE path
      opaque == hasScheme /\ ~(Len(path) > 0 /\ path[1] = SLASH)
  IN IF opaque THEN TRUE
     ELSE /\ Authority(auth)
          /\ PctOK(p)
          /\ (~hasScheme /\ ~hasAuth => \* no colon in the first segment of a relative path
               LET seg == SubSeq(p, 1, CutAt(p, SLASH) - 1) IN Cuts(seg, COLON) = {})
UriRef(s) ==
  LET f == CutAt(s, 35)
      body == SubSeq(s, 1, f - 1)
      frag == SubSeq(s, f + 1, Len(s))
      n == SchemeLen(body)
      rest == IF n > 0 THEN SubSeq(body, n + 2, Len(body)) ELSE body
  IN /\ \A i \in 1..Len(s) : s[i] >= 32 /\ s[i] # 127
     /\ PctOK(frag)
     /\ RefRest(rest, n > 0)
Uri(s) == UriRef(s) /\ SchemeLen(SubSeq(s, 1, CutAt(s, 35) - 1)) > 0
=============================================================================
