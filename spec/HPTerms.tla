------------------------------ MODULE HPTerms ------------------------------
(***************************************************************************)
(* Python values as tagged terms, and the arithmetic, text and equality    *)
(* functions of the host language that the property types rely on.         *)
(*                                                                         *)
(*  <<"none">> <<"undef">>  None / properties.undefined                    *)
(*  <<"b",bool>> <<"i",n>> <<"I",sign,digits>>  bool / int / big int       *)
(*  <<"f",n,e>>   float n/1024 + e*10^-10    <<"nan">> <<"inf",+-1>>       *)
(*  <<"c",re,im>> complex with re, im float terms                          *)
(*  <<"s",text>>  str        <<"by",text>> bytes                           *)
(*  <<"l",cls,seq>> <<"t",cls,seq>> <<"S",cls,seq>> <<"d",cls,pairs>>      *)
(*  <<"h",handle>> a HasProperties instance                                *)
(*  <<"dt",<<y,m,d,h,mi,s,us>>>> <<"uuid",text>>                           *)
(*  <<"npi",n>> <<"npf",n,e>> <<"npb",bool>>  numpy scalars                *)
(*  <<"a",cls,kind,shape,flat>>  numpy array                               *)
(*  <<"o",label>> any other object                                         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, FiniteSetsExt, Functions

None  == <<"none">>
Undef == <<"undef">>
T     == <<"b", TRUE>>
Str(s) == <<"s", s>>
IntT(n) == <<"i", n>>

Tag(t) == t[1]
EmptyFn == [x \in {} |-> x]
Range1(s) == {s[i] : i \in DOMAIN s}
Has(seq, x) == \E i \in DOMAIN seq : seq[i] = x

-----------------------------------------------------------------------------
(* Text *)
Ch(s, i) == SubSeq(s, i, i)
Chars(s) == {Ch(s, i) : i \in 1..Len(s)}
Lowers == "abcdefghijklmnopqrstuvwxyz"
Uppers == "ABCDEFGHIJKLMNOPQRSTUVWXYZ"
Digits == "0123456789"
UpOf  == [c \in Chars(Lowers) |-> Ch(Uppers, CHOOSE i \in 1..26 : Ch(Lowers, i) = c)]
LowOf == [c \in Chars(Uppers) |-> Ch(Lowers, CHOOSE i \in 1..26 : Ch(Uppers, i) = c)]
DigVal == [c \in Chars(Digits) |-> (CHOOSE i \in 1..10 : Ch(Digits, i) = c) - 1]
HexSet == Chars("0123456789abcdefABCDEF")
HexVal == [c \in HexSet |->
             IF c \in Chars(Digits) THEN DigVal[c]
             ELSE LET u == IF c \in Chars(Lowers) THEN UpOf[c] ELSE c
                  IN 9 + (CHOOSE i \in 1..26 : Ch(Uppers, i) = u)]

RECURSIVE UpperS(_)
UpperS(s) == IF Len(s) = 0 THEN ""
             ELSE (IF Ch(s, 1) \in DOMAIN UpOf THEN UpOf[Ch(s, 1)] ELSE Ch(s, 1)) \o UpperS(SubSeq(s, 2, Len(s)))
RECURSIVE LowerS(_)
LowerS(s) == IF Len(s) = 0 THEN ""
             ELSE (IF Ch(s, 1) \in DOMAIN LowOf THEN LowOf[Ch(s, 1)] ELSE Ch(s, 1)) \o LowerS(SubSeq(s, 2, Len(s)))
RECURSIVE LStrip(_, _)
LStrip(s, cs) == IF Len(s) > 0 /\ Ch(s, 1) \in cs THEN LStrip(SubSeq(s, 2, Len(s)), cs) ELSE s
RECURSIVE RStrip(_, _)
RStrip(s, cs) == IF Len(s) > 0 /\ Ch(s, Len(s)) \in cs THEN RStrip(SubSeq(s, 1, Len(s) - 1), cs) ELSE s
StripS(s, cs) == RStrip(LStrip(s, cs), cs)
StartsWith(s, p) == Len(s) >= Len(p) /\ SubSeq(s, 1, Len(p)) = p
HasText(s, p) == \E i \in 1..(Len(s) - Len(p) + 1) : SubSeq(s, i, i + Len(p) - 1) = p
RECURSIVE FindFrom(_, _, _)
FindFrom(s, cs, i) == IF i > Len(s) THEN 0 ELSE IF Ch(s, i) \in cs THEN i ELSE FindFrom(s, cs, i + 1)
Find(s, cs) == FindFrom(s, cs, 1)      \* first position of a character of cs, 0 if none
AllIn(s, cs) == Chars(s) \subseteq cs
RECURSIVE JoinS(_, _)
JoinS(ss, sep) == IF Len(ss) = 0 THEN "" ELSE IF Len(ss) = 1 THEN ss[1]
                  ELSE ss[1] \o sep \o JoinS(Tail(ss), sep)
RECURSIVE RepS(_, _)
RepS(s, n) == IF n <= 0 THEN "" ELSE s \o RepS(s, n - 1)

RECURSIVE DigitsVal(_, _)
DigitsVal(s, acc) == IF Len(s) = 0 THEN acc ELSE DigitsVal(SubSeq(s, 2, Len(s)), acc * 10 + DigVal[Ch(s, 1)])
IsDigits(s) == Len(s) > 0 /\ AllIn(s, Chars(Digits))
Space == {" "}
SplitSign(s) == IF Len(s) > 0 /\ Ch(s, 1) = "-" THEN <<-1, SubSeq(s, 2, Len(s))>>
                ELSE IF Len(s) > 0 /\ Ch(s, 1) = "+" THEN <<1, SubSeq(s, 2, Len(s))>>
                ELSE <<1, s>>
(* int(text): <<TRUE, n>> or <<FALSE, 0>> *)
ParseInt(s) == LET q == SplitSign(StripS(s, Space)) IN
               IF IsDigits(q[2]) /\ Len(q[2]) <= 9 THEN <<TRUE, q[1] * DigitsVal(q[2], 0)>> ELSE <<FALSE, 0>>
RECURSIVE Pow10(_)
Pow10(k) == IF k = 0 THEN 1 ELSE 10 * Pow10(k - 1)
(* float(text) for texts whose value is a multiple of 1/1024 *)
ParseFloat(s) ==
  LET q == SplitSign(StripS(s, Space))
      u == LowerS(q[2])
      dot == Find(u, {"."})
      ip == IF dot = 0 THEN u ELSE SubSeq(u, 1, dot - 1)
      fp == IF dot = 0 THEN "" ELSE SubSeq(u, dot + 1, Len(u))
  IN IF u \in {"inf", "infinity"} THEN <<TRUE, <<"inf", q[1]>>>>
     ELSE IF u = "nan" THEN <<TRUE, <<"nan">>>>
     ELSE IF (Len(ip) + Len(fp) > 0) /\ (ip = "" \/ IsDigits(ip)) /\ (fp = "" \/ IsDigits(fp)) /\ Len(ip) <= 6 /\ Len(fp) <= 5
          THEN <<TRUE, <<"f", q[1] * (DigitsVal(ip, 0) * 1024 + (1024 * DigitsVal(fp, 0)) \div Pow10(Len(fp))), 0>>>>
          ELSE <<FALSE, None>>

AbsN(n) == IF n < 0 THEN -n ELSE n
RECURSIVE FracDigits(_, _)
FracDigits(r, k) == IF r = 0 \/ k = 0 THEN "" ELSE ToString((r * 10) \div 1024) \o FracDigits((r * 10) % 1024, k - 1)
FmtFloatBare(n) ==   \* shortest text of n/1024 without a trailing ".0"
  LET a == AbsN(n) sg == IF n < 0 THEN "-" ELSE "" IN
  IF a % 1024 = 0 THEN sg \o ToString(a \div 1024)
  ELSE sg \o ToString(a \div 1024) \o "." \o FracDigits(a % 1024, 10)
FmtFloat(n) == IF n % 1024 = 0 THEN FmtFloatBare(n) \o ".0" ELSE FmtFloatBare(n)
FmtComplex(re, im) ==
  LET i == FmtFloatBare(im[2]) \o "j" IN
  IF re[2] = 0 THEN i
  ELSE "(" \o FmtFloatBare(re[2]) \o (IF im[2] >= 0 THEN "+" ELSE "") \o i \o ")"
RECURSIVE LastSign(_, _)
LastSign(s, i) == IF i <= 1 THEN 0 ELSE IF Ch(s, i) \in {"+", "-"} THEN i ELSE LastSign(s, i - 1)
ParseComplex(s0) ==
  LET s1 == StripS(s0, Space)
      s == IF Len(s1) >= 2 /\ Ch(s1, 1) = "(" /\ Ch(s1, Len(s1)) = ")" THEN SubSeq(s1, 2, Len(s1) - 1) ELSE s1
      n == Len(s)
      z == <<"f", 0, 0>>
  IN IF n = 0 THEN <<FALSE, None>>
     ELSE IF Ch(s, n) # "j"
     THEN LET r == ParseFloat(s) IN IF r[1] /\ r[2][1] = "f" THEN <<TRUE, <<"c", r[2], z>>>> ELSE <<FALSE, None>>
     ELSE LET b == SubSeq(s, 1, n - 1)
              k == LastSign(b, Len(b))
              re == IF k = 0 THEN <<TRUE, z>> ELSE ParseFloat(SubSeq(b, 1, k - 1))
              im == ParseFloat(IF k = 0 THEN b ELSE SubSeq(b, k, Len(b)))
          IN IF re[1] /\ im[1] /\ re[2][1] = "f" /\ im[2][1] = "f" THEN <<TRUE, <<"c", re[2], im[2]>>>> ELSE <<FALSE, None>>

-----------------------------------------------------------------------------
(* Numbers *)
NumTags == {"b", "i", "f", "npi", "npf", "npb"}
RealTags == NumTags \cup {"inf", "nan", "I"}
IsNum(v) == Tag(v) \in NumTags
(* normal form <<n, e>> of a finite modelled number *)
NF(v) == CASE Tag(v) \in {"b", "npb"} -> <<IF v[2] THEN 1024 ELSE 0, 0>>
           [] Tag(v) \in {"i", "npi"} -> <<v[2] * 1024, 0>>
           [] OTHER -> <<v[2], v[3]>>
Small(v) == Tag(v) \notin {"i", "npi"} \/ AbsN(v[2]) < 2000000
FLt(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2])
FNear(a, b) == a[1] = b[1] /\ AbsN(a[2] - b[2]) <= 10
(* strict order on the extended reals; any comparison with nan is false *)
Lt(a, b) ==
  CASE Tag(a) = "nan" \/ Tag(b) = "nan" -> FALSE
    [] Tag(a) = "inf" -> a[2] < 0 /\ ~(Tag(b) = "inf" /\ b[2] < 0)
    [] Tag(b) = "inf" -> b[2] > 0
    [] Tag(a) = "I" -> a[2] < 0 /\ ~(Tag(b) = "I" /\ b[2] < 0)
    [] Tag(b) = "I" -> b[2] > 0
    [] Tag(a) \in {"i","npi"} /\ Tag(b) \in {"i","npi"} -> a[2] < b[2]
    [] OTHER -> FLt(NF(a), NF(b))
ToFloat(v) == CASE Tag(v) = "inf" \/ Tag(v) = "nan" -> v
                [] Tag(v) = "I" -> <<"fx", v[3]>>
                [] OTHER -> <<"f", NF(v)[1], NF(v)[2]>>
(* int(number): truncation towards zero *)
Trunc(v) ==
  CASE Tag(v) \in {"i", "npi"} -> v[2]
    [] OTHER -> LET f == NF(v) n == f[1] IN
                IF n % 1024 = 0
                THEN LET q == n \div 1024 IN
                     IF n > 0 /\ f[2] < 0 THEN q - 1 ELSE IF n < 0 /\ f[2] > 0 THEN q + 1 ELSE q
                ELSE IF n > 0 THEN n \div 1024 ELSE -((-n) \div 1024)

-----------------------------------------------------------------------------
(* == of the host language *)
RECURSIVE PyEq(_, _)
PyEqIn(x, s) == \E i \in DOMAIN s : PyEq(x, s[i])
PyEq(a, b) ==
  CASE IsNum(a) /\ IsNum(b) -> (IF Tag(a) \in {"i","npi"} /\ Tag(b) \in {"i","npi"} THEN a[2] = b[2] ELSE NF(a) = NF(b))
    [] Tag(a) = "nan" \/ Tag(b) = "nan" -> FALSE
    [] Tag(a) = "c" /\ IsNum(b) -> NF(a[2]) = NF(b) /\ NF(a[3]) = <<0, 0>>
    [] Tag(b) = "c" /\ IsNum(a) -> NF(b[2]) = NF(a) /\ NF(b[3]) = <<0, 0>>
    [] Tag(a) # Tag(b) -> FALSE
    [] Tag(a) \in {"l", "t"} -> Len(a[3]) = Len(b[3]) /\ \A i \in DOMAIN a[3] : PyEq(a[3][i], b[3][i])
    [] Tag(a) = "S" -> Len(a[3]) = Len(b[3]) /\ \A i \in DOMAIN a[3] : PyEqIn(a[3][i], b[3])
    [] Tag(a) = "d" -> Len(a[3]) = Len(b[3]) /\ \A i \in DOMAIN a[3] : \E j \in DOMAIN b[3] :
                          PyEq(a[3][i][1], b[3][j][1]) /\ PyEq(a[3][i][2], b[3][j][2])
    [] OTHER -> a = b
RECURSIVE Truthy(_)
Truthy(v) ==
  CASE Tag(v) \in {"none"} -> FALSE
    [] Tag(v) \in {"b", "npb"} -> v[2]
    [] Tag(v) \in {"i", "npi"} -> v[2] # 0
    [] Tag(v) \in {"f", "npf"} -> v[2] # 0 \/ v[3] # 0
    [] Tag(v) = "c" -> Truthy(v[2]) \/ Truthy(v[3])
    [] Tag(v) \in {"s", "by"} -> Len(v[2]) > 0
    [] Tag(v) \in {"l", "t", "S", "d"} -> Len(v[3]) > 0
    [] OTHER -> TRUE
Hashable(v) == Tag(v) \notin {"l", "S", "d", "a"} /\
               (Tag(v) = "t" => \A i \in DOMAIN v[3] : Tag(v[3][i]) \notin {"l", "S", "d", "a"})

(* python dict/set construction: later duplicates win / are dropped *)
RECURSIVE DictPut(_, _, _)
DictPut(ps, k, v) ==
  IF \E i \in DOMAIN ps : PyEq(ps[i][1], k)
  THEN [i \in DOMAIN ps |-> IF PyEq(ps[i][1], k) THEN <<ps[i][1], v>> ELSE ps[i]]
  ELSE Append(ps, <<k, v>>)
RECURSIVE DictOf(_, _)
DictOf(ps, acc) == IF Len(ps) = 0 THEN acc ELSE DictOf(Tail(ps), DictPut(acc, ps[1][1], ps[1][2]))
RECURSIVE SetOf(_, _)
SetOf(s, acc) == IF Len(s) = 0 THEN acc
                 ELSE SetOf(Tail(s), IF PyEqIn(s[1], acc) THEN acc ELSE Append(acc, s[1]))
DictHas(ps, k) == \E i \in DOMAIN ps : PyEq(ps[i][1], k)
DictGet(ps, k) == ps[CHOOSE i \in DOMAIN ps : PyEq(ps[i][1], k)][2]
DictDel(ps, k) == SelectSeq(ps, LAMBDA p : ~PyEq(p[1], k))
SKey(ps, s) == DictHas(ps, Str(s))
SGet(ps, s) == DictGet(ps, Str(s))

-----------------------------------------------------------------------------
(* Calendar *)
Leap(y) == (y % 4 = 0 /\ y % 100 # 0) \/ y % 400 = 0
MonthDays(y, m) == IF m = 2 THEN (IF Leap(y) THEN 29 ELSE 28)
                   ELSE IF m \in {4, 6, 9, 11} THEN 30 ELSE 31
Fixed(s, i, n) == LET x == SubSeq(s, i, i + n - 1) IN IF IsDigits(x) THEN DigitsVal(x, 0) ELSE -1
(* 'YYYY/MM/DD' ('-' also allowed) or 'YYYY-MM-DDTHH:MM:SSZ' *)
ParseDT(s) ==
  LET n == Len(s)
      seps == IF n = 10 THEN {"/", "-"} ELSE {"-"}
      dateok == n \in {10, 20} /\ Ch(s, 5) \in seps /\ Ch(s, 8) \in seps
      y == Fixed(s, 1, 4) m == Fixed(s, 6, 2) d == Fixed(s, 9, 2)
      dok == dateok /\ y >= 1 /\ m \in 1..12 /\ d >= 1 /\ d <= MonthDays(y, m)
      hh == Fixed(s, 12, 2) mi == Fixed(s, 15, 2) ss == Fixed(s, 18, 2)
      tok == n = 20 /\ Ch(s, 11) = "T" /\ Ch(s, 14) = ":" /\ Ch(s, 17) = ":" /\ Ch(s, 20) = "Z"
             /\ hh \in 0..23 /\ mi \in 0..59 /\ ss \in 0..59
  IN IF ~dok THEN <<FALSE, None>>
     ELSE IF n = 10 THEN <<TRUE, <<"dt", <<y, m, d, 0, 0, 0, 0>>>>>>
     ELSE IF tok THEN <<TRUE, <<"dt", <<y, m, d, hh, mi, ss, 0>>>>>> ELSE <<FALSE, None>>
RECURSIVE Pad(_, _)
Pad(s, n) == IF Len(s) >= n THEN s ELSE Pad("0" \o s, n)
FmtDT(t) == Pad(ToString(t[1]), 4) \o "-" \o Pad(ToString(t[2]), 2) \o "-" \o Pad(ToString(t[3]), 2) \o "T"
            \o Pad(ToString(t[4]), 2) \o ":" \o Pad(ToString(t[5]), 2) \o ":" \o Pad(ToString(t[6]), 2) \o "Z"

-----------------------------------------------------------------------------
(* URLs: scheme://netloc/path;params?query#fragment *)
UrlParts(s) ==
  LET c == Find(s, {":"})
      sch0 == IF c > 1 THEN SubSeq(s, 1, c - 1) ELSE ""
      isSch == sch0 # "" /\ AllIn(sch0, Chars(Lowers) \cup Chars(Uppers) \cup Chars(Digits) \cup {"+", "-", "."})
               /\ Ch(sch0, 1) \in (Chars(Lowers) \cup Chars(Uppers))
      scheme == IF isSch THEN LowerS(sch0) ELSE ""
      rest == IF isSch THEN SubSeq(s, c + 1, Len(s)) ELSE s
      hasNet == StartsWith(rest, "//")
      r2 == IF hasNet THEN SubSeq(rest, 3, Len(rest)) ELSE rest
      k == Find(r2, {"/", "?", "#"})
      netloc == IF ~hasNet THEN "" ELSE IF k = 0 THEN r2 ELSE SubSeq(r2, 1, k - 1)
      r3 == IF ~hasNet THEN r2 ELSE IF k = 0 THEN "" ELSE SubSeq(r2, k, Len(r2))
      f == Find(r3, {"#"})
      frag == IF f = 0 THEN "" ELSE SubSeq(r3, f + 1, Len(r3))
      r4 == IF f = 0 THEN r3 ELSE SubSeq(r3, 1, f - 1)
      q == Find(r4, {"?"})
      query == IF q = 0 THEN "" ELSE SubSeq(r4, q + 1, Len(r4))
      r5 == IF q = 0 THEN r4 ELSE SubSeq(r4, 1, q - 1)
      p == Find(r5, {";"})
      hasPar == scheme \in {"http", "https", "ftp"} /\ p # 0
      path == IF hasPar THEN SubSeq(r5, 1, p - 1) ELSE r5
      par == IF hasPar THEN SubSeq(r5, p + 1, Len(r5)) ELSE ""
  IN [scheme |-> scheme, netloc |-> netloc, path |-> path, params |-> par, query |-> query, fragment |-> frag]
UrlText(u) == u.scheme \o "://" \o u.netloc \o u.path
              \o (IF u.params # "" THEN ";" \o u.params ELSE "")
              \o (IF u.query # "" THEN "?" \o u.query ELSE "")
              \o (IF u.fragment # "" THEN "#" \o u.fragment ELSE "")
-----------------------------------------------------------------------------
(* Ordering of text (sorted of the host language, on the characters used) *)
Alphabet == " !#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[]^_`abcdefghijklmnopqrstuvwxyz{|}~"
Rank == [c \in Chars(Alphabet) |-> CHOOSE i \in 1..Len(Alphabet) : Ch(Alphabet, i) = c]
RECURSIVE StrLess(_, _)
StrLess(a, b) == IF Len(b) = 0 THEN FALSE ELSE IF Len(a) = 0 THEN TRUE
                 ELSE IF Ch(a, 1) = Ch(b, 1) THEN StrLess(SubSeq(a, 2, Len(a)), SubSeq(b, 2, Len(b)))
                 ELSE Rank[Ch(a, 1)] < Rank[Ch(b, 1)]
=============================================================================
