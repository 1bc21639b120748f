------------------------------- MODULE HPCore -------------------------------
(***************************************************************************)
(* The object machine.  A state is one record:                             *)
(*   heap   handle -> [c: class, v: property name -> stored term]          *)
(*   cls    class name -> class record (see HPClass)                       *)
(*   lis    handle -> instance-level listeners                             *)
(*   q      set of silenced listener modes      ctx  scope label -> stack  *)
(*   links  link id -> link record                                         *)
(*   ch     container label -> reference to a container object             *)
(*   gv     objects being constructed or validated                         *)
(*   fires, hooks, warns   what the current operation has made visible     *)
(*   fresh, depth          allocation counter, listener nesting            *)
(* Operations are functions from states to results                         *)
(*   [ok, st, v, kind, tups]  (kind/tups describe the error if not ok).    *)
(***************************************************************************)
EXTENDS HPTerms, HPColors

CONSTANT MaxDepth

Modes == {"validate", "observe_change", "observe_set"}

Ok(st, v) == [ok |-> TRUE, st |-> st, v |-> v, kind |-> "", tups |-> <<>>]
Er(st, kind, tups) == [ok |-> FALSE, st |-> st, v |-> None, kind |-> kind, tups |-> tups]
VEKinds == {"ValidationError", "ZeroDivValidationError"}
ValueKinds == VEKinds \cup {"ValueError"}
GenericKinds == ValueKinds \cup {"KeyError", "TypeError", "AttributeError", "TypeError|ValueError"}

HookAdd(st, h, tups) == IF h = "" \/ h \in st.gv THEN st
                        ELSE [st EXCEPT !.hooks = Append(@, <<h, tups>>)]
FailAs(st, nm, h, reason, kind) ==
  LET t == <<<<reason, nm, h>>>> IN Er(HookAdd(st, h, t), kind, t)
Fail(st, nm, h) == FailAs(st, nm, h, "invalid", "ValidationError")

ClsOf(st, h) == st.cls[st.heap[h].c]
IsSub(st, c, d) == c \in DOMAIN st.cls /\ Has(st.cls[c].mro, d)
IsInstOf(st, v, C) == Tag(v) = "h" /\ v[2] \in DOMAIN st.heap /\ IsSub(st, st.heap[v[2]].c, C)
Stored(st, h, name) == IF name \in DOMAIN st.heap[h].v THEN st.heap[h].v[name] ELSE Undef
HasProp(c, name) == name \in DOMAIN c.pm
IsMut(p) == p.k \notin {"gettable", "uuid", "dyn", "ren"}
IsUndefNone(v) == Tag(v) \in {"undef", "none"}
PutV(f, k, v) == (k :> v) @@ f
DropV(f, k) == [x \in (DOMAIN f) \ {k} |-> f[x]]

\* the stored container of h.name is being replaced: references to the old one go stale
DetachOn(st, h, name) ==
  LET old == Stored(st, h, name) IN
  [x \in DOMAIN st.ch |->
     IF st.ch[x].att /\ st.ch[x].h = h /\ st.ch[x].n = name
     THEN [att |-> FALSE, h |-> "", n |-> "", val |-> old,
           g |-> CHOOSE y \in DOMAIN st.ch : st.ch[y].att /\ st.ch[y].h = h /\ st.ch[y].n = name] ELSE st.ch[x]]
Store(st, h, name, v) ==
  [st EXCEPT !.ch = DetachOn(st, h, name),
             !.heap[h].v = IF v = Undef THEN DropV(@, name) ELSE PutV(@, name, v)]

-----------------------------------------------------------------------------
(* Scalar coercions: <<accepted, coerced>> *)
Rej == <<FALSE, None>>
InBounds(p, v) == ~(p.min # None /\ Lt(v, p.min)) /\ ~(p.max # None /\ Lt(p.max, v))
IntOf(v, cast) ==
  CASE IsNum(v) -> LET n == Trunc(v) IN
                   IF cast \/ FNear(NF(v), <<n * 1024, 0>>) \/ ~Small(v) THEN <<TRUE, <<"i", n>>>> ELSE Rej
    [] Tag(v) = "I" -> <<TRUE, v>>
    [] Tag(v) = "s" /\ cast -> LET r == ParseInt(v[2]) IN IF r[1] THEN <<TRUE, <<"i", r[2]>>>> ELSE Rej
    [] OTHER -> Rej
FloatOf(v, cast) ==
  CASE IsNum(v) -> <<TRUE, ToFloat(v)>>
    [] Tag(v) \in {"inf", "nan", "fx"} -> <<TRUE, v>>
    [] Tag(v) = "I" -> IF Len(v[3]) > 308 THEN Rej ELSE <<TRUE, <<"any">>>>
    [] Tag(v) = "s" /\ cast -> ParseFloat(v[2])
    [] OTHER -> Rej
ComplexOf(v, cast) ==
  CASE IsNum(v) -> <<TRUE, <<"c", ToFloat(v), <<"f", 0, 0>>>>>>
    [] Tag(v) \in {"inf", "nan"} -> <<TRUE, <<"c", v, <<"f", 0, 0>>>>>>
    [] Tag(v) = "c" -> <<TRUE, v>>
    [] Tag(v) = "s" /\ cast -> ParseComplex(v[2])
    [] OTHER -> Rej
RegexOK(rx, s) ==
  CASE rx[1] = "none" -> TRUE
    [] rx[1] = "has" -> HasText(s, rx[2])
    [] rx[1] = "pre" -> StartsWith(s, rx[2])
    [] rx[1] = "full" -> Len(s) > 0 /\ AllIn(s, Chars(rx[2]))
    [] rx[1] = "one" -> Chars(s) \cap Chars(rx[2]) # {}
StringOf(p, s) ==
  IF ~RegexOK(p.regex, s) THEN Rej
  ELSE LET x == StripS(s, Chars(p.strip)) IN
       <<TRUE, <<"s", CASE p.ccase = "upper" -> UpperS(x) [] p.ccase = "lower" -> LowerS(x) [] OTHER -> x>>>>
ChoiceMatch(p, s, c) ==
  LET f(x) == IF p.cs THEN x ELSE UpperS(x) IN
  f(s) = f(c[1]) \/ \E i \in DOMAIN c[2] : f(s) = f(c[2][i])
RECURSIVE ChoiceOf(_, _, _)
ChoiceOf(p, s, i) == IF i > Len(p.choices) THEN Rej
                     ELSE IF ChoiceMatch(p, s, p.choices[i]) THEN <<TRUE, <<"s", p.choices[i][1]>>>>
                     ELSE ChoiceOf(p, s, i + 1)
HexPair(s, i) == HexVal[Ch(s, i)] * 16 + HexVal[Ch(s, i + 1)]
RGB(r, g, b) == <<"t", "tuple", <<IntT(r), IntT(g), IntT(b)>>>>
ColorOf(v) ==
  CASE Tag(v) = "s" ->
         LET x == IF v[2] \in DOMAIN NamedColors THEN NamedColors[v[2]] ELSE v[2]
             u == LStrip(UpperS(x), {"#"})
             h == IF Len(u) = 3 THEN Ch(u,1) \o Ch(u,1) \o Ch(u,2) \o Ch(u,2) \o Ch(u,3) \o Ch(u,3) ELSE u
         IN IF UpperS(x) = "RANDOM" THEN <<TRUE, <<"anycolor">>>>
            ELSE IF Len(h) = 6 /\ AllIn(h, HexSet) THEN <<TRUE, RGB(HexPair(h,1), HexPair(h,3), HexPair(h,5))>> ELSE Rej
    [] Tag(v) \in {"l", "t"} ->
         IF Len(v[3]) = 3 /\ \A i \in 1..3 : \/ Tag(v[3][i]) = "b"
                                             \/ Tag(v[3][i]) = "i" /\ v[3][i][2] \in 0..255
         THEN <<TRUE, <<"t", "tuple", v[3]>>>> ELSE Rej
    [] OTHER -> Rej
\* the property type defined by the user of the library: a text of up to three characters, or a digit;
\* texts that differ in case are equal, a leading q is stored as Q
LabelOf(v) == CASE Tag(v) = "s" -> IF Len(v[2]) > 3 THEN Rej
                                   ELSE IF StartsWith(v[2], "q") THEN <<TRUE, Str("Q" \o SubSeq(v[2], 2, Len(v[2])))>> ELSE <<TRUE, v>>
              [] Tag(v) = "i" -> IF v[2] \in 0..9 THEN <<TRUE, Str(ToString(v[2]))>> ELSE Rej
              [] OTHER -> Rej
DateOf(v) == CASE Tag(v) = "dt" -> <<TRUE, v>> [] Tag(v) = "s" -> ParseDT(v[2]) [] OTHER -> Rej
UrlOf(p, v) ==
  LET s == StringOf(p, v[2]) IN
  IF ~s[1] THEN Rej
  ELSE LET u == UrlParts(s[2][2]) IN
       IF u.scheme = "" \/ u.netloc = "" THEN Rej
       ELSE <<TRUE, <<"s", UrlText([u EXCEPT !.params = IF p.rmp THEN "" ELSE @, !.query = IF p.rmp THEN "" ELSE @,
                                             !.fragment = IF p.rmf THEN "" ELSE @])>>>>

-----------------------------------------------------------------------------
(* Arrays *)
KindOK(dts, kind) == \E i \in DOMAIN dts :
   kind \in CASE dts[i] = "int" -> {"i", "u"} [] dts[i] = "float" -> {"f"} [] dts[i] = "bool" -> {"b"} [] OTHER -> {"c"}
ShapeOK(shapes, shp) == \/ shapes = <<>>
                        \/ \E i \in DOMAIN shapes : /\ Len(shapes[i]) = Len(shp)
                                                    /\ \A j \in DOMAIN shp : shapes[i][j] \in {-1, shp[j]}
\* numpy.array(nested lists): [ok, kind, shape, flat] ; ragged input is not an array
RECURSIVE ArrShape(_)
ArrShape(t) == IF Tag(t) \in {"l", "t"} THEN (IF Len(t[3]) = 0 THEN <<0>> ELSE <<Len(t[3])>> \o ArrShape(t[3][1]))
               ELSE IF Tag(t) = "a" THEN t[4] ELSE <<>>
RECURSIVE ArrRegular(_, _)
ArrRegular(t, shp) ==
  IF Tag(t) \in {"l", "t"} THEN Len(shp) > 0 /\ Len(t[3]) = shp[1] /\ \A i \in DOMAIN t[3] : ArrRegular(t[3][i], Tail(shp))
  ELSE IF Tag(t) = "a" THEN t[4] = shp ELSE shp = <<>>
RECURSIVE ArrFlat(_)
ArrFlat(t) == IF Tag(t) \in {"l", "t"} THEN FlattenSeq([i \in DOMAIN t[3] |-> ArrFlat(t[3][i])])
              ELSE IF Tag(t) = "a" THEN t[5] ELSE <<t>>
ElemKind(x) == CASE Tag(x) \in {"b", "npb"} -> "b" [] Tag(x) \in {"i", "npi"} -> "i"
                 [] Tag(x) \in {"f", "npf", "nan", "inf", "fx", "anyf"} -> "f" [] Tag(x) = "c" -> "c" [] Tag(x) = "s" -> "U" [] OTHER -> "O"
JoinKind(ks) == IF ks = {} THEN "f" ELSE IF "O" \in ks THEN "O" ELSE IF "U" \in ks THEN "U" ELSE IF "c" \in ks THEN "c"
                ELSE IF "f" \in ks THEN "f" ELSE IF "i" \in ks THEN "i" ELSE "b"
ToKind(x, k) == CASE Tag(x) \in {"fx", "anyf"} -> x
                  [] k = "f" /\ Tag(x) \notin {"nan", "inf", "s"} -> <<"f", NF(x)[1], NF(x)[2]>>
                  [] k = "f" /\ Tag(x) = "s" -> ParseFloat(x[2])[2]
                  [] k = "i" -> <<"i", Trunc(x)>>
                  [] k = "b" /\ Tag(x) \notin {"b"} -> <<"b", Truthy(x)>>
                  [] k = "c" /\ Tag(x) = "s" -> <<"c", ParseFloat(x[2])[2], <<"f", 0, 0>>>>
                  [] k = "c" /\ Tag(x) # "c" -> <<"c", ToFloat(x), <<"f", 0, 0>>>>
                  [] OTHER -> x
\* the array denoted by a list/tuple/array term, or Rej
ArrOf(t) ==
  IF Tag(t) = "a" THEN <<TRUE, t>>
  ELSE LET shp == ArrShape(t) IN
       IF ~ArrRegular(t, shp) THEN Rej
       ELSE LET fl == ArrFlat(t) k == JoinKind({ElemKind(fl[i]) : i \in DOMAIN fl}) IN
            <<TRUE, <<"a", "ndarray", k, shp, [i \in DOMAIN fl |-> ToKind(fl[i], k)]>>>>
NumArr(a) == a[3] \in {"i", "u", "f", "b", "c"}
Dirs3 == [zero |-> <<0,0,0>>, x |-> <<1,0,0>>, y |-> <<0,1,0>>, z |-> <<0,0,1>>, east |-> <<1,0,0>>, west |-> <<-1,0,0>>,
          north |-> <<0,1,0>>, south |-> <<0,-1,0>>, up |-> <<0,0,1>>, down |-> <<0,0,-1>>]
         @@ ("-x" :> <<-1,0,0>>) @@ ("-y" :> <<0,-1,0>>) @@ ("-z" :> <<0,0,-1>>)
DirOf(s, dim) == LET u == LowerS(s) IN
  IF u \notin DOMAIN Dirs3 \/ (dim = 2 /\ u \in {"z", "-z", "up", "down"}) THEN Rej
  ELSE <<TRUE, <<"l", "list", [i \in 1..dim |-> IntT(Dirs3[u][i])]>>>>
VecDim(k) == IF k \in {"vec3", "vec3a"} THEN 3 ELSE 2
WrapName(k) == CASE k = "vec3" -> "Vector3" [] k = "vec2" -> "Vector2" [] k = "vec3a" -> "Vector3Array"
                 [] k = "vec2a" -> "Vector2Array" [] OTHER -> "ndarray"
\* vectormath constructors: shape and kind they yield, or an error kind
VecWrap(k, t) ==
  LET a == ArrOf(t) d == VecDim(k) IN
  IF ~a[1] THEN <<FALSE, "ValueError">>
  ELSE LET x == a[2] IN
       IF ~NumArr(x) \/ x[3] = "c" THEN <<FALSE, "ValueError">>
       ELSE LET fl == [i \in DOMAIN x[5] |-> ToKind(x[5][i], "f")] IN
            IF k \in {"vec3", "vec2"}
            THEN IF x[4] = <<d>> THEN <<TRUE, <<"a", WrapName(k), "f", <<d>>, fl>>>> ELSE <<FALSE, "ValueError">>
            ELSE LET sq == SelectSeq(x[4], LAMBDA n : n # 1) IN
                 IF Len(fl) = d THEN <<TRUE, <<"a", WrapName(k), "f", <<1, d>>, fl>>>>
                 ELSE IF Len(sq) = 2 /\ sq[2] = d THEN <<TRUE, <<"a", WrapName(k), "f", sq, fl>>>> ELSE <<FALSE, "ValueError">>
RECURSIVE ISqrt(_, _)
ISqrt(n, i) == IF i * i >= n THEN i ELSE ISqrt(n, i + 1)
\* squared norm of a row of integer-valued components, and scaling by a rational factor
RowInts(row) == [i \in DOMAIN row |-> row[i][2] \div 1024]
RECURSIVE SumSq(_)
SumSq(s) == IF Len(s) = 0 THEN 0 ELSE s[1] * s[1] + SumSq(Tail(s))
ScaleRow(row, len) ==   \* len: float term; rows are integer vectors of integer norm
  IF \E i \in DOMAIN row : Tag(row[i]) # "f" \/ row[i][2] \div 1024 \notin -1000..1000 THEN [i \in DOMAIN row |-> <<"anyf">>]
  ELSE LET n == ISqrt(SumSq(RowInts(row)), 0) IN
  IF n * n # SumSq(RowInts(row)) \/ \E i \in DOMAIN row : row[i][2] % 1024 # 0
  THEN [i \in DOMAIN row |-> <<"anyf">>]
  ELSE [i \in DOMAIN row |-> LET num == RowInts(row)[i] * len[2] IN
          IF num % n = 0 THEN <<"f", num \div n, 0>> ELSE <<"anyf">>]
Rows(a) == LET d == a[4][Len(a[4])] m == IF d = 0 THEN 0 ELSE Len(a[5]) \div d IN
           [r \in 1..m |-> SubSeq(a[5], (r - 1) * d + 1, r * d)]
ZeroRow(row) == \A i \in DOMAIN row : row[i][1] = "f" /\ row[i][2] = 0 /\ row[i][3] = 0

-----------------------------------------------------------------------------
(* Property equality on two set values *)
Iterated(v) == CASE Tag(v) = "d" -> [i \in DOMAIN v[3] |-> v[3][i][1]]
                 [] Tag(v) = "s" -> [i \in 1..Len(v[2]) |-> Str(Ch(v[2], i))]
                 [] OTHER -> v[3]
RECURSIVE EqualP(_, _, _, _, _), EqSetDrop(_, _, _, _, _), InstEq(_, _, _, _)
NearC(a, b) == (Tag(a) = Tag(b)) /\ (IF Tag(a) = "f" THEN FNear(NF(a), NF(b)) ELSE a = b)
AsC(v) == IF Tag(v) = "c" THEN v ELSE <<"c", ToFloat(v), <<"f", 0, 0>>>>
EqualP(st, p, a, b, vis) ==
  CASE p.k = "bool" -> a = b
    [] p.k = "float" -> /\ Tag(a) \in RealTags \cup {"any", "fx"} /\ Tag(b) \in RealTags \cup {"any", "fx"}
                        /\ (IF IsNum(a) /\ IsNum(b) THEN FNear(NF(a), NF(b)) ELSE a = b)
    [] p.k = "complex" -> /\ Tag(a) \in RealTags \cup {"c"} /\ Tag(b) \in RealTags \cup {"c"}
                          /\ NearC(AsC(a)[2], AsC(b)[2]) /\ NearC(AsC(a)[3], AsC(b)[3])
    [] p.k \in {"tuple", "list"} ->
         /\ Tag(a) \in {"l", "t", "S", "s", "d"} /\ Tag(b) \in {"l", "t", "S", "s", "d"}
         /\ LET x == Iterated(a) y == Iterated(b) IN
            Len(x) = Len(y) /\ \A i \in DOMAIN x : EqualP(st, p.prop, x[i], y[i], vis)
    [] p.k = "set" -> /\ Tag(a) \in {"S", "l", "t", "s", "d"} /\ Tag(b) \in {"S", "l", "d"}
                      /\ LET x == Iterated(a) y == Iterated(b) IN
                         /\ Len(x) = Len(y) /\ (Tag(b) = "d" => Len(y) = 0)
                         /\ Len(EqSetDrop(st, p.prop, x, y, vis)) = 0
    [] p.k = "dict" -> /\ Tag(a) = "d" /\ Tag(b) = "d" /\ Len(a[3]) = Len(b[3])
                       /\ \A i \in DOMAIN a[3] : /\ DictHas(b[3], a[3][i][1])
                                                 /\ EqualP(st, p.vprop, a[3][i][2], DictGet(b[3], a[3][i][1]), vis)
    [] p.k \in {"inst", "pointer"} -> InstEq(st, a, b, vis)
    [] p.k = "union" -> \E i \in DOMAIN p.props : EqualP(st, p.props[i], a, b, vis)
    [] p.k = "dyn" -> EqualP(st, p.prop, a, b, vis)
    [] p.k \in {"array", "vec3", "vec2", "vec3a", "vec2a"} ->
         /\ Tag(a) = "a" /\ Tag(b) = "a" /\ a[2] = b[2] /\ a[4] = b[4]
         /\ \A i \in DOMAIN a[5] :
              LET x == a[5][i] y == b[5][i] IN
              \/ Tag(x) = "nan" /\ Tag(y) = "nan"
              \/ Tag(x) = "fx" /\ x = y
              \/ (Tag(x) = "anyf" \/ Tag(y) = "anyf") /\ {Tag(x), Tag(y)} \cap {"nan", "inf"} = {}
              \/ "c" \in {Tag(x), Tag(y)} /\ {Tag(x), Tag(y)} \cap {"fx", "anyf"} = {}
                 /\ NearC(AsC(x)[2], AsC(y)[2]) /\ NearC(AsC(x)[3], AsC(y)[3])
              \/ {Tag(x), Tag(y)} \cap {"nan", "inf", "fx", "anyf", "c"} = {} /\ FNear(NF(x), NF(y))
              \/ Tag(x) = "inf" /\ x = y
    [] p.k = "file" -> a = b
    [] p.k = "own" -> IF Tag(a) = "s" /\ Tag(b) = "s" THEN UpperS(a[2]) = UpperS(b[2]) ELSE FALSE
    [] OTHER -> PyEq(a, b)
\* remove from bs one partner of every member of as
EqSetDrop(st, p, as, bs, vis) ==
  IF Len(as) = 0 THEN bs
  ELSE LET js == {j \in DOMAIN bs : EqualP(st, p, as[1], bs[j], vis)} IN
       EqSetDrop(st, p, Tail(as), IF js = {} THEN bs ELSE RemoveAt(bs, CHOOSE j \in js : \A k \in js : j <= k), vis)
InstEq(st, a, b, vis) ==
  IF Tag(a) # "h" \/ Tag(b) # "h" THEN PyEq(a, b)
  ELSE IF a = b THEN TRUE
  ELSE IF st.heap[a[2]].c # st.heap[b[2]].c THEN FALSE
  ELSE IF <<a[2], b[2]>> \in vis THEN FALSE          \* equal only for a finite reason
  ELSE LET c == ClsOf(st, a[2]) IN
       \A i \in DOMAIN c.props :
          LET nm == c.props[i][1] p == c.props[i][2]
              x == Stored(st, a[2], nm) y == Stored(st, b[2], nm) IN
          \/ p.k \in {"ren", "dyn"}
          \/ IsUndefNone(x) /\ IsUndefNone(y)
          \/ ~IsUndefNone(x) /\ ~IsUndefNone(y) /\ EqualP(st, p, x, y, vis \cup {<<a[2], b[2]>>})

-----------------------------------------------------------------------------
(* Defaults *)
RECURSIVE PDefault(_)
PDefault(p) == IF p.dflt # Undef THEN p.dflt
               ELSE IF p.k = "union"
               THEN LET is == {i \in DOMAIN p.props : PDefault(p.props[i]) # Undef} IN
                    IF is = {} THEN Undef ELSE PDefault(p.props[CHOOSE i \in is : \A j \in is : i <= j])
               ELSE Undef
DefSpec(c, name, p) == IF name \in DOMAIN c.dflts THEN c.dflts[name] ELSE PDefault(p)

-----------------------------------------------------------------------------
RECURSIVE Validate(_, _, _, _, _), ValSeq(_, _, _, _, _, _), ValPairs(_, _, _, _, _, _), ValAlts(_, _, _, _, _, _),
          EvalDef(_, _), NewObj(_, _, _), InitImm(_, _, _), ResetAll(_, _, _), InitLoop(_, _, _, _, _, _),
          SetAttr(_, _, _, _), DelAttr(_, _, _), GetAttr(_, _, _), SetRaw(_, _, _, _, _),
          Fire(_, _, _, _, _, _), FireLoop(_, _, _, _, _), RunActs(_, _, _, _), RunAct(_, _, _, _),
          ResetP(_, _, _), DLink(_, _),
          ValidObj(_, _), CVLoop(_, _, _, _, _), VPLoop(_, _, _, _, _), AssertV(_, _, _, _, _), AssertSeq(_, _, _, _, _),
          AssertAlts(_, _, _, _, _, _), AssertPairs(_, _, _, _, _)

ContTag(k) == CASE k = "tuple" -> "t" [] k = "list" -> "l" [] OTHER -> "S"
PlainName(k) == k
\* what a mapping is made of: <<is a mapping or an iterable of pairs, pairs>>
PairAt(x) == CASE Tag(x) \in {"l", "t", "S"} -> IF Len(x[3]) = 2 /\ Hashable(x[3][1]) THEN <<TRUE, <<x[3][1], x[3][2]>>>> ELSE Rej
               [] Tag(x) = "s" -> IF Len(x[2]) = 2 THEN <<TRUE, <<Str(Ch(x[2], 1)), Str(Ch(x[2], 2))>>>> ELSE Rej
               [] OTHER -> Rej
AsPairs(v) == IF Tag(v) = "d" THEN <<TRUE, v[3]>>
              ELSE IF Tag(v) = "s" /\ v[2] = "" THEN <<TRUE, <<>>>>
              ELSE IF Tag(v) \in {"l", "t", "S"} /\ \A i \in DOMAIN v[3] : PairAt(v[3][i])[1]
              THEN <<TRUE, [i \in DOMAIN v[3] |-> PairAt(v[3][i])[2]]>> ELSE Rej
ObsName(p, cls) == IF p.k # "tuple" /\ p.obs /\ ~StartsWith(cls, "obs:") THEN "obs:" \o cls ELSE cls
ItemsOf(v) == IF Tag(v) = "a" THEN [i \in DOMAIN v[5] |-> LET x == v[5][i] IN
                                      CASE Tag(x) = "i" -> <<"npi", x[2]>> [] Tag(x) = "f" -> <<"npf", x[2], x[3]>>
                                        [] Tag(x) = "b" -> <<"npb", x[2]>> [] OTHER -> x]
              ELSE v[3]

\* the result of property p (named nm) validating v for object h ("" if none)
Validate(st, p, nm, h, v) ==
  LET scalar(r) == IF r[1] THEN Ok(st, r[2]) ELSE Fail(st, nm, h) IN
  CASE p.k \in {"prop", "gettable"} -> Ok(st, v)
    [] p.k = "bool" -> IF p.cast THEN Ok(st, <<"b", Truthy(v)>>)
                       ELSE IF Tag(v) \in {"b", "npb"} THEN Ok(st, v) ELSE Fail(st, nm, h)
    [] p.k = "int" -> LET r == IntOf(v, p.cast) IN
                      IF r[1] /\ InBounds(p, r[2]) THEN Ok(st, r[2]) ELSE Fail(st, nm, h)
    [] p.k = "float" -> LET r == FloatOf(v, p.cast) IN
                        IF r[1] /\ InBounds(p, IF Tag(r[2]) = "any" THEN v ELSE r[2]) THEN Ok(st, r[2]) ELSE Fail(st, nm, h)
    [] p.k = "complex" -> scalar(ComplexOf(v, p.cast))
    [] p.k = "str" -> IF Tag(v) = "s" THEN scalar(StringOf(p, v[2])) ELSE Fail(st, nm, h)
    [] p.k = "url" -> IF Tag(v) = "s" THEN scalar(UrlOf(p, v)) ELSE Fail(st, nm, h)
    [] p.k = "choice" -> IF Tag(v) = "s" THEN scalar(ChoiceOf(p, v[2], 1)) ELSE Fail(st, nm, h)
    [] p.k = "color" -> scalar(ColorOf(v))
    [] p.k = "datetime" -> scalar(DateOf(v))
    [] p.k = "own" -> scalar(LabelOf(v))
    [] p.k = "uuid" -> IF Tag(v) \in {"uuid", "anyuuid"} THEN Ok(st, v) ELSE Fail(st, nm, h)
    [] p.k \in {"tuple", "list", "set"} ->
         LET ct == ContTag(p.k) isC == Tag(v) = ct IN
         IF ~p.coerce /\ ~isC THEN Fail(st, nm, h)
         ELSE LET items == IF Tag(v) \in {"l", "t", "S", "a"} THEN ItemsOf(v) ELSE <<v>>
                  r == ValSeq(st, p.prop, nm, h, items, <<>>)
                  cls == ObsName(p, IF isC THEN v[2] ELSE PlainName(p.k))
              IN IF ~r.ok THEN (IF r.kind \in ValueKinds THEN Fail(r.st, nm, h) ELSE r)
                 ELSE IF ct = "S" /\ \E i \in DOMAIN r.v : ~Hashable(r.v[i]) THEN Er(r.st, "TypeError", <<>>)
                 ELSE Ok(r.st, <<ct, cls, IF ct = "S" THEN SetOf(r.v, <<>>) ELSE r.v>>)
    [] p.k = "dict" ->
         IF ~p.coerce /\ Tag(v) # "d" THEN Fail(st, nm, h)
         ELSE LET aps == AsPairs(v)
                  ps == IF Tag(v) = "d" THEN v[3] ELSE IF aps[1] THEN DictOf(aps[2], <<>>) ELSE <<>>
              IN IF ~aps[1] THEN Fail(st, nm, h)
                 ELSE LET r == ValPairs(st, p, nm, h, ps, <<>>)
                          cls == ObsName(p, IF Tag(v) = "d" /\ ~p.coerce THEN v[2] ELSE "dict")
                      IN IF r.ok THEN Ok(r.st, <<"d", cls, r.v>>)
                         ELSE IF r.kind \in ValueKinds THEN Fail(r.st, nm, h) ELSE r
    [] p.k = "inst" ->
         IF IsInstOf(st, v, p.cls) THEN Ok(st, v)
         ELSE IF Tag(v) = "d" /\ \A i \in DOMAIN v[3] : Tag(v[3][i][1]) = "s"
         THEN LET r == NewObj(st, p.cls, [i \in DOMAIN v[3] |-> <<v[3][i][1][2], v[3][i][2]>>]) IN
              IF r.ok THEN r ELSE IF r.kind \in GenericKinds THEN Fail(r.st, nm, h) ELSE r
         ELSE Fail(st, nm, h)
    [] p.k = "union" -> ValAlts(st, p.props, nm, h, v, 1)
    [] p.k = "dyn" -> Validate(st, p.prop, nm, h, v)
    [] p.k \in {"array", "vec3", "vec2", "vec3a", "vec2a"} ->
         LET dim == VecDim(p.k)
             words == p.k \in {"vec3a", "vec2a"} /\ Tag(v) \in {"l", "t"}
             badword == words /\ \E i \in DOMAIN v[3] : Tag(v[3][i]) = "s" /\ ~DirOf(v[3][i][2], dim)[1]
             dir == IF p.k \in {"vec3", "vec2"} /\ Tag(v) = "s" THEN DirOf(v[2], dim) ELSE <<TRUE, v>>
             v1 == IF ~dir[1] \/ badword THEN v
                   ELSE IF words THEN <<"l", "list", [i \in DOMAIN v[3] |-> IF Tag(v[3][i]) = "s" THEN DirOf(v[3][i][2], dim)[2] ELSE v[3][i]]>>
                   ELSE dir[2]
             w == IF Tag(v1) \notin {"l", "t", "a"} THEN <<FALSE, "ValidationError">>
                  ELSE IF ~p.coerce THEN (IF Tag(v1) = "a" /\ (p.k = "array" \/ v1[2] = WrapName(p.k)) THEN <<TRUE, v1>> ELSE <<FALSE, "ValidationError">>)
                  ELSE IF p.k = "array" THEN (LET a == ArrOf(v1) IN IF a[1] THEN <<TRUE, [a[2] EXCEPT ![2] = "ndarray"]>> ELSE <<FALSE, "ValueError">>)
                  ELSE VecWrap(p.k, v1)
         IN IF ~dir[1] \/ badword THEN Fail(st, nm, h)
            ELSE IF ~w[1] THEN (IF w[2] = "ValidationError" THEN Fail(st, nm, h) ELSE Er(st, "ValueError", <<>>))
            ELSE IF ~KindOK(p.dtype, w[2][3]) \/ ~ShapeOK(p.shape, w[2][4]) THEN Fail(st, nm, h)
            ELSE IF p.k = "array" \/ p.length = None THEN Ok(st, w[2])
            ELSE LET rows == Rows(w[2]) IN
                 IF \E i \in DOMAIN rows : ZeroRow(rows[i]) THEN FailAs(st, nm, h, "invalid", "ZeroDivValidationError")
                 ELSE Ok(st, [w[2] EXCEPT ![5] = FlattenSeq([i \in DOMAIN rows |-> ScaleRow(rows[i], p.length)])])
    [] OTHER -> Fail(st, nm, h)

ValSeq(st, p, nm, h, items, acc) ==
  IF Len(items) = 0 THEN Ok(st, acc)
  ELSE LET r == Validate(st, p, nm, h, items[1]) IN
       IF ~r.ok THEN r ELSE ValSeq(r.st, p, nm, h, Tail(items), Append(acc, r.v))
ValPairs(st, p, nm, h, ps, acc) ==
  IF Len(ps) = 0 THEN Ok(st, acc)
  ELSE LET k == Validate(st, p.kprop, nm, h, ps[1][1]) IN
       IF ~k.ok THEN k
       ELSE LET x == Validate(k.st, p.vprop, nm, h, ps[1][2]) IN
            IF ~x.ok THEN x
            ELSE IF ~Hashable(k.v) THEN Er(x.st, "TypeError", <<>>)
            ELSE ValPairs(x.st, p, nm, h, Tail(ps), DictPut(acc, k.v, x.v))
ValAlts(st, props, nm, h, v, i) ==
  IF i > Len(props) THEN Fail(st, nm, h)
  ELSE LET r == Validate(st, props[i], nm, h, v) IN
       IF r.ok THEN r ELSE IF r.kind \in GenericKinds THEN ValAlts(r.st, props, nm, h, v, i + 1) ELSE r

-----------------------------------------------------------------------------
(* Attribute access *)
Warned(st, p) == IF p.warn THEN [st EXCEPT !.warns = @ + 1] ELSE st
DynVal(st, h, g) ==     \* the value computed by a dynamic getter
  CASE g[1] = "const" -> g[2]
    [] g[1] = "get" -> LET x == Stored(st, h, g[2]) IN IF x = Undef THEN None ELSE x
    [] g[1] = "list" -> LET xs == [i \in DOMAIN g[2] |-> Stored(st, h, g[2][i])] IN
                        IF \E i \in DOMAIN xs : IsUndefNone(xs[i]) THEN None ELSE <<"l", "list", xs>>
GetAttr(st, h, name) ==
  LET c == ClsOf(st, h) IN
  IF c.name = "traits" THEN Ok(st, Stored(st, h, name))
  ELSE IF ~HasProp(c, name) THEN (IF name \in c.plain THEN Ok(st, <<"any">>) ELSE Er(st, "AttributeError", <<>>))
  ELSE LET p == c.pm[name] IN
       CASE p.k = "ren" -> GetAttr(Warned(st, p), h, p.new)
         [] p.k = "dyn" -> LET v == DynVal(st, h, p.get) IN
                           IF IsUndefNone(v) THEN Ok(st, None) ELSE Validate(st, p.prop, name, h, v)
         [] OTHER -> LET v == Stored(st, h, name) IN Ok(st, IF v = Undef THEN None ELSE v)
\* traitlets.Int takes numbers that are whole
TraitInt(v) == CASE Tag(v) = "npi" -> IntT(v[2])
                 [] Tag(v) \in {"f", "npf"} /\ v[3] = 0 /\ v[2] % 1024 = 0 -> IntT(v[2] \div 1024)
                 [] OTHER -> v
SetAttr(st, h, name, v0) ==
  LET c == ClsOf(st, h) v == IF c.name = "traits" THEN TraitInt(v0) ELSE v0 IN
  IF c.name = "traits"
  THEN LET p == c.pm[name] old == Stored(st, h, name) IN
       IF p.k = "int" /\ Tag(v) \notin {"i", "b"} THEN Er(st, "TraitError", <<>>)
       ELSE LET s1 == Store(st, h, name, v) IN
            IF PyEq(old, v) THEN Ok(s1, None)
            ELSE FireLoop(s1, h, [name |-> name, mode |-> "trait", prev |-> old, v |-> v],
                          SelectSeq(st.lis[h], LAMBDA l : Has(l.names, name)), 1)
  ELSE IF ~HasProp(c, name) THEN Ok(st, None)
  ELSE LET p == c.pm[name] IN
       CASE p.k = "ren" -> SetAttr(Warned(st, p), h, p.new, v)
         [] p.k = "dyn" ->
              IF p.set = <<>> THEN Er(st, "AttributeError", <<>>)
              ELSE LET r == Validate(st, p.prop, name, h, v) IN
                   IF ~r.ok THEN r ELSE LET q == RunActs(r.st, h, p.set, r.v) IN IF q.ok THEN Ok(q.st, None) ELSE q
         [] p.k \in {"gettable", "uuid"} -> Er(st, "AttributeError", <<>>)
         [] OTHER -> LET r == IF v = Undef THEN Ok(st, v) ELSE Validate(st, p, name, h, v) IN
                     IF ~r.ok THEN r ELSE SetRaw(r.st, h, name, p, r.v)
DelAttr(st, h, name) ==
  LET c == ClsOf(st, h) IN
  IF ~HasProp(c, name) THEN Er(st, "AttributeError", <<>>)
  ELSE LET p == c.pm[name] IN
       CASE p.k = "ren" -> DelAttr(Warned(st, p), h, p.new)
         [] p.k = "dyn" -> IF p.del = <<>> THEN Er(st, "AttributeError", <<>>)
                           ELSE LET q == RunActs(st, h, p.del, None) IN IF q.ok THEN Ok(q.st, None) ELSE q
         [] p.k \in {"gettable", "uuid"} -> Er(st, "AttributeError", <<>>)
         [] OTHER -> SetRaw(st, h, name, p, Undef)

\* validate-listeners, store, change observers (only if different), set observers
SetRaw(st, h, name, p, v) ==
  LET prev == Stored(st, h, name)
      r1 == Fire(st, h, name, "validate", prev, v)
  IN IF ~r1.ok THEN r1
     ELSE LET v2 == r1.v
              s2 == Store(r1.st, h, name, v2)
              changed == IF prev = Undef \/ v2 = Undef THEN prev # v2 ELSE ~EqualP(s2, p, prev, v2, {})
              r3 == IF changed THEN Fire(s2, h, name, "observe_change", prev, v2) ELSE Ok(s2, v2)
          IN IF ~r3.ok THEN r3
             ELSE LET r4 == Fire(r3.st, h, name, "observe_set", prev, r3.v) IN
                  IF r4.ok THEN Ok(r4.st, None) ELSE r4

-----------------------------------------------------------------------------
(* Listeners *)
Listens(l, name, mode) == l.mode = mode /\ (l.all \/ Has(l.names, name))
ListenersOf(st, h, name, mode) ==
  SelectSeq(ClsOf(st, h).obs, LAMBDA l : Listens(l, name, mode)) \o
  (IF h \in DOMAIN st.lis THEN SelectSeq(st.lis[h], LAMBDA l : Listens(l, name, mode)) ELSE <<>>)
Fire(st, h, name, mode, prev, v) ==
  IF mode \in st.q THEN Ok(st, v)
  ELSE FireLoop(st, h, [name |-> name, mode |-> mode, prev |-> prev, v |-> v], ListenersOf(st, h, name, mode), 1)
FireLoop(st, h, ch, ls, i) ==
  IF i > Len(ls) THEN Ok(st, ch.v)
  ELSE LET l == ls[i] IN
       IF l.id[1] = "dlink"
       THEN LET r == DLink(st, l.id[2]) IN IF r.ok THEN FireLoop(r.st, h, ch, ls, i + 1) ELSE r
       ELSE IF st.depth >= MaxDepth THEN Er(st, "Fuel", <<>>)
       ELSE LET s1 == [st EXCEPT !.depth = @ + 1, !.fires = Append(@, <<l.id[2], h, ch.name, ch.mode, ch.prev, ch.v>>)]
                r == RunActs(s1, h, l.prog, ch.v)
                s2 == [r.st EXCEPT !.depth = @ - 1]
            IN IF ~r.ok THEN [r EXCEPT !.st = s2] ELSE FireLoop(s2, h, [ch EXCEPT !.v = r.v], ls, i + 1)
RunActs(st, h, acts, v) ==
  IF Len(acts) = 0 THEN Ok(st, v)
  ELSE LET r == RunAct(st, h, acts[1], v) IN IF r.ok THEN RunActs(r.st, h, Tail(acts), r.v) ELSE r
Tgt(h, t) == IF t = "self" THEN h ELSE t
QAdd(q, types) == IF types = <<"all">> THEN Modes ELSE q \cup Range1(types)
RunAct(st, h, a, v) ==
  LET keep(r) == IF r.ok THEN Ok(r.st, v) ELSE r IN
  CASE a[1] = "nop" -> Ok(st, v)
    [] a[1] = "raise" -> Er(st, a[2], IF a[2] = "ValidationError" THEN <<<<"", "", "">>>> ELSE <<>>)
    [] a[1] = "raisev" -> FailAs(st, a[3], h, a[2], "ValidationError")
    [] a[1] = "put" -> Ok(st, a[2])
    [] a[1] = "set" -> keep(SetAttr(st, Tgt(h, a[2]), a[3], a[4]))
    [] a[1] = "copy" -> keep(SetAttr(st, Tgt(h, a[2]), a[3], v))
    [] a[1] = "del" -> keep(DelAttr(st, Tgt(h, a[2]), a[3]))
    [] a[1] = "reset" -> keep(ResetP(st, Tgt(h, a[2]), a[3]))
    [] a[1] = "validate" -> keep(ValidObj(st, Tgt(h, a[2])))
    [] a[1] = "when" -> IF PyEq(v, a[2]) THEN RunActs(st, h, a[3], v) ELSE Ok(st, v)
    [] a[1] = "within" -> LET r == RunActs([st EXCEPT !.q = QAdd(@, a[2])], h, a[3], v) IN [r EXCEPT !.st.q = st.q]
    [] a[1] = "try" -> LET r == RunActs(st, h, a[2], v) IN IF r.ok THEN r ELSE IF r.kind \in GenericKinds THEN Ok(r.st, v) ELSE r
    [] a[1] = "le" -> LET x == Stored(st, h, a[2]) y == Stored(st, h, a[3]) IN      \* cross-property check
                      IF IsUndefNone(x) \/ IsUndefNone(y) THEN Ok(st, v)
                      ELSE IF ~(Tag(x) \in RealTags /\ Tag(y) \in RealTags) /\ ~(Tag(x) = "s" /\ Tag(y) = "s") THEN Er(st, "TypeError", <<>>)
                      ELSE IF ~(IF Tag(x) = "s" THEN StrLess(y[2], x[2]) ELSE Lt(y, x)) THEN Ok(st, v)
                      ELSE IF a[4] = "raisev" THEN FailAs(st, a[2], h, "cross", "ValidationError")
                      ELSE IF a[4] = "false" THEN Ok(st, <<"b", FALSE>>)
                      ELSE Er(st, a[4], IF a[4] = "ValidationError" THEN <<<<"", "", "">>>> ELSE <<>>)
Transform(t, v) ==     \* <<ok, value>>
  CASE t = "id" -> <<TRUE, v>>
    [] t = "neg" -> IF Tag(v) = "i" THEN <<TRUE, <<"i", -v[2]>>>> ELSE <<FALSE, None>>
    [] t = "inc" -> IF Tag(v) = "i" THEN <<TRUE, <<"i", v[2] + 1>>>> ELSE <<FALSE, None>>
    [] t = "const" -> <<TRUE, IntT(1)>>
DLink(st, k) ==
  LET d == st.links[k] IN
  IF d.unl \/ d.upd THEN Ok(st, None)
  ELSE LET s1 == [st EXCEPT !.links[k].upd = TRUE]
           g == GetAttr(s1, d.sh, d.sn)
           t == IF g.ok THEN Transform(d.tr, g.v) ELSE <<FALSE, None>>
           r == IF ~g.ok THEN g ELSE IF ~t[1] THEN Er(g.st, "TypeError", <<>>) ELSE SetAttr(g.st, d.th, d.tn, t[2])
       IN [r EXCEPT !.st.links[k].upd = FALSE]

-----------------------------------------------------------------------------
(* Construction and reset *)
EvalDef(st, spec) ==
  CASE spec = Undef -> Ok(st, Undef)
    [] spec[1] = "cls" -> NewObj(st, spec[2], <<>>)
    [] OTHER -> Ok(st, spec[2])
NewObj(st, C, kw) ==
  LET h == "#" \o ToString(st.fresh)
      s1 == [st EXCEPT !.fresh = @ + 1, !.heap = (h :> [c |-> C, v |-> EmptyFn]) @@ @, !.gv = @ \cup {h}]
      r1 == InitImm(s1, h, 1)
  IN IF ~r1.ok THEN [r1 EXCEPT !.st.gv = @ \ {h}]
     ELSE LET r2 == ResetAll([r1.st EXCEPT !.q = Modes], h, 1)
              s2 == [r2.st EXCEPT !.q = st.q]
          IN IF ~r2.ok THEN [r2 EXCEPT !.st = [s2 EXCEPT !.gv = @ \ {h}]]
             ELSE LET r3 == InitLoop(s2, h, kw, 1, <<>>, "") IN [r3 EXCEPT !.st.gv = @ \ {h}]
InitImm(st, h, i) ==
  LET c == ClsOf(st, h) IN
  IF i > Len(c.props) THEN Ok(st, None)
  ELSE LET nm == c.props[i][1] p == c.props[i][2] sp == DefSpec(c, nm, p) IN
       IF p.k \in {"ren", "dyn"} \/ IsMut(p) \/ sp = Undef THEN InitImm(st, h, i + 1)
       ELSE LET d == EvalDef(st, sp) IN
            IF ~d.ok THEN d
            ELSE LET r == Validate(d.st, p, nm, h, d.v) IN
                 IF ~r.ok THEN r ELSE InitImm([r.st EXCEPT !.heap[h].v = PutV(@, nm, r.v)], h, i + 1)
ResetAll(st, h, i) ==
  LET c == ClsOf(st, h) IN
  IF i > Len(c.props) THEN Ok(st, None)
  ELSE IF ~IsMut(c.props[i][2]) THEN ResetAll(st, h, i + 1)
  ELSE LET r == ResetP(st, h, c.props[i][1]) IN IF r.ok THEN ResetAll(r.st, h, i + 1) ELSE r
ResetP(st, h, name) ==
  LET c == ClsOf(st, h) IN
  IF ~HasProp(c, name) \/ ~IsMut(c.pm[name]) THEN Er(st, "AttributeError", <<>>)
  ELSE LET d == EvalDef(st, DefSpec(c, name, c.pm[name])) IN
       IF d.ok THEN SetAttr(d.st, h, name, d.v) ELSE d
InitLoop(st, h, kw, i, tups, nonval) ==
  IF i > Len(kw)
  THEN IF Len(tups) > 0 THEN Er([st EXCEPT !.hooks = Append(@, <<h, tups>>)], "ValidationError", tups)
       ELSE IF nonval # "" THEN Er(st, nonval, <<>>) ELSE Ok(st, <<"h", h>>)
  ELSE LET c == ClsOf(st, h) nm == kw[i][1] IN
       IF ~HasProp(c, nm) /\ nm \notin c.plain THEN Er(st, "AttributeError", <<>>)
       ELSE IF HasProp(c, nm) /\ c.pm[nm].k = "dyn" THEN Er(st, "AttributeError", <<>>)
       ELSE LET r == SetAttr(st, h, nm, kw[i][2]) IN
            IF r.ok THEN InitLoop(r.st, h, kw, i + 1, tups, nonval)
            ELSE IF r.kind \in VEKinds THEN InitLoop(r.st, h, kw, i + 1, tups \o r.tups, nonval)
            ELSE IF r.kind \in GenericKinds THEN InitLoop(r.st, h, kw, i + 1, tups, IF nonval = "" THEN r.kind ELSE nonval)
            ELSE r

-----------------------------------------------------------------------------
(* Validation of whole objects *)
ValidObj(st, h) ==
  IF h \in st.gv THEN Ok(st, T)
  ELSE LET r == CVLoop([st EXCEPT !.gv = @ \cup {h}], h, 1, <<>>, "") IN [r EXCEPT !.st.gv = @ \ {h}]
CVLoop(st, h, i, tups, nonval) ==
  LET cvs == ClsOf(st, h).cvs IN
  IF i > Len(cvs)
  THEN IF Len(tups) > 0 THEN Er([st EXCEPT !.hooks = Append(@, <<h, tups>>)], "ValidationError", tups)
       ELSE IF nonval # "" THEN Er(st, nonval, <<>>) ELSE Ok(st, T)
  ELSE LET cv == cvs[i] IN
       IF cv.id = "props"
       THEN LET r == VPLoop(st, h, 1, <<>>, <<>>) IN    \* r.tups: errors collected, also when r is an error
            IF r.ok \/ r.kind \in GenericKinds
            THEN CVLoop(r.st, h, i + 1, tups \o r.tups, IF r.ok \/ nonval # "" THEN nonval ELSE r.kind)
            ELSE r
       ELSE LET s1 == [st EXCEPT !.fires = Append(@, <<cv.id, h, "", "class", None, None>>)]
                r == RunActs(s1, h, cv.prog, None)
            IN IF r.ok /\ r.v # <<"b", FALSE>> THEN CVLoop(r.st, h, i + 1, tups, nonval)
               ELSE IF r.ok THEN CVLoop(r.st, h, i + 1, Append(tups, <<"", "", h>>), nonval)
               ELSE IF r.kind \in VEKinds THEN CVLoop(r.st, h, i + 1, tups \o r.tups, nonval)
               ELSE IF r.kind \in GenericKinds THEN CVLoop(r.st, h, i + 1, tups, IF nonval = "" THEN r.kind ELSE nonval)
               ELSE r
VPLoop(st, h, i, tups, x) ==
  LET c == ClsOf(st, h) IN
  IF i > Len(c.props) THEN [Ok(st, T) EXCEPT !.tups = tups]
  ELSE LET nm == c.props[i][1] p == c.props[i][2]
           v == Stored(st, h, nm)
           r1 == IF IsUndefNone(v) THEN Ok(st, v) ELSE Fire(st, h, nm, "validate", v, v)
           r2 == IF ~r1.ok \/ IsUndefNone(v) THEN r1
                 ELSE IF EqualP(r1.st, p, v, r1.v, {}) THEN r1
                 ELSE Er(r1.st, "ValidationError", <<<<"invalid", nm, h>>>>)
           r3 == IF r2.ok THEN AssertV(r2.st, p, nm, h, v) ELSE r2
       IN IF r3.ok THEN VPLoop(r3.st, h, i + 1, tups, x)
          ELSE IF r3.kind \in VEKinds THEN VPLoop(r3.st, h, i + 1, tups \o r3.tups, x)
          ELSE [r3 EXCEPT !.tups = tups]
AssertV(st, p, nm, h, v) ==
  IF IsUndefNone(v)
  THEN IF IsMut(p) /\ p.req THEN FailAs(st, nm, h, "missing", "ValidationError") ELSE Ok(st, T)
  ELSE LET r == Validate(st, p, nm, h, v) IN
       IF ~r.ok THEN r
       ELSE IF ~EqualP(r.st, p, v, r.v, {}) THEN Fail(r.st, nm, h)
       ELSE CASE p.k \in {"tuple", "list", "set"} ->
                   LET n == Len(v[3]) IN
                   IF (p.minl >= 0 /\ n < p.minl) \/ (p.maxl >= 0 /\ n > p.maxl) THEN Fail(r.st, nm, h)
                   ELSE AssertSeq(r.st, p.prop, nm, h, v[3])
              [] p.k = "dict" -> AssertPairs(r.st, p, nm, h, v[3])
              [] p.k \in {"inst", "pointer"} -> IF Tag(v) = "h" THEN ValidObj(r.st, v[2]) ELSE Ok(r.st, T)
              [] p.k = "union" -> AssertAlts(r.st, p.props, nm, h, v, 1)
              [] OTHER -> Ok(r.st, T)
AssertSeq(st, p, nm, h, s) ==
  IF Len(s) = 0 THEN Ok(st, T)
  ELSE LET r == AssertV(st, p, nm, h, s[1]) IN IF r.ok THEN AssertSeq(r.st, p, nm, h, Tail(s)) ELSE r
AssertPairs(st, p, nm, h, ps) ==
  IF Len(ps) = 0 THEN Ok(st, T)
  ELSE LET r == AssertV(st, p.kprop, nm, h, ps[1][1]) IN
       IF ~r.ok THEN r
       ELSE LET q == AssertV(r.st, p.vprop, nm, h, ps[1][2]) IN IF q.ok THEN AssertPairs(q.st, p, nm, h, Tail(ps)) ELSE q
AssertAlts(st, props, nm, h, v, i) ==
  IF i > Len(props) THEN Fail(st, nm, h)
  ELSE LET r == AssertV(st, props[i], nm, h, v) IN
       IF r.ok THEN r ELSE IF r.kind \in GenericKinds THEN AssertAlts(r.st, props, nm, h, v, i + 1) ELSE r

-----------------------------------------------------------------------------
(* Serialization.  fl = [ic: include class, dyn: save dynamic, mk: keyword of custom serializers] *)
RECURSIVE Ser(_, _, _, _, _), SerSeq(_, _, _, _, _, _), SerPairs(_, _, _, _, _, _), SerObj(_, _, _, _), SerProps(_, _, _, _, _, _),
          SerAlts(_, _, _, _, _, _), SerArr(_, _)
JList(s) == <<"l", "list", s>>
SerNum(x) == CASE Tag(x) = "nan" -> Str("nan") [] Tag(x) = "inf" -> Str(IF x[2] > 0 THEN "inf" ELSE "-inf") [] OTHER -> x
SerArr(shape, flat) ==
  IF Len(shape) = 0 THEN SerNum(flat[1])
  ELSE IF Len(shape) = 1 THEN JList([i \in DOMAIN flat |-> SerNum(flat[i])])
  ELSE LET m == IF shape[1] = 0 THEN 0 ELSE Len(flat) \div shape[1] IN
       JList([i \in 1..shape[1] |-> SerArr(Tail(shape), SubSeq(flat, (i - 1) * m + 1, i * m))])
(* the property a renamed property finally stands for *)
RECURSIVE Target(_, _)
Target(c, p) == IF p.k = "ren" THEN Target(c, c.pm[p.new]) ELSE p
Ser(st, p, v, fl, path) ==
  IF p.ser \in {"wrap", "bare"} THEN Ok(st, JList(IF fl.mk = "" \/ p.ser = "bare" THEN <<v>> ELSE <<v, Str(fl.mk)>>))
  ELSE IF IsUndefNone(v) THEN Ok(st, None)
  ELSE CASE p.k = "float" -> Ok(st, SerNum(v))
         [] p.k = "complex" -> Ok(st, Str(FmtComplex(v[2], v[3])))
         [] p.k = "color" -> Ok(st, JList(v[3]))
         [] p.k = "datetime" -> Ok(st, Str(FmtDT(v[2])))
         [] p.k = "own" -> IF Tag(v) = "s" THEN Ok(st, Str(fl.mk \o "L:" \o v[2])) ELSE Er(st, "TypeError", <<>>)
         [] p.k = "uuid" -> Ok(st, IF Tag(v) = "uuid" THEN Str(v[2]) ELSE <<"anystr">>)
         [] p.k \in {"tuple", "list", "set"} -> LET r == SerSeq(st, p.prop, v[3], fl, path, <<>>) IN
              IF ~r.ok THEN r ELSE Ok(r.st, IF p.k = "set" THEN <<"perm", "list", r.v>> ELSE JList(r.v))
         [] p.k = "dict" -> LET r == SerPairs(st, p, v[3], fl, path, <<>>) IN IF r.ok THEN Ok(r.st, <<"d", "dict", r.v>>) ELSE r
         [] p.k \in {"inst", "pointer"} -> IF Tag(v) = "h" THEN SerObj(st, v[2], fl, path) ELSE Ok(st, v)
         [] p.k = "union" -> SerAlts(st, p, v, fl, path, 1)
         [] p.k = "dyn" -> Ser(st, p.prop, v, fl, path)
         [] p.k \in {"array", "vec3", "vec2", "vec3a", "vec2a"} -> Ok(st, SerArr(v[4], v[5]))
         [] OTHER -> Ok(st, v)
SerSeq(st, p, s, fl, path, acc) ==
  IF Len(s) = 0 THEN Ok(st, acc)
  ELSE LET r == Ser(st, p, s[1], fl, path) IN IF r.ok THEN SerSeq(r.st, p, Tail(s), fl, path, Append(acc, r.v)) ELSE r
SerPairs(st, p, ps, fl, path, acc) ==
  IF Len(ps) = 0 THEN Ok(st, acc)
  ELSE LET k == Ser(st, p.kprop, ps[1][1], fl, path) IN
       IF ~k.ok THEN k
       ELSE LET x == Ser(k.st, p.vprop, ps[1][2], fl, path) IN
            IF ~x.ok THEN x
            ELSE IF ~Hashable(k.v) THEN Er(x.st, "TypeError", <<>>)
            ELSE SerPairs(x.st, p, Tail(ps), fl, path, DictPut(acc, k.v, x.v))
SerAlts(st, p, v, fl, path, i) ==
  IF i > Len(p.props) THEN (IF Tag(v) = "h" THEN SerObj(st, v[2], fl, path) ELSE Ok(st, v))
  ELSE LET r == Validate(st, p.props[i], "", "", v) IN
       IF r.ok THEN Ser(r.st, p.props[i], v, fl, path)
       ELSE IF r.kind \in GenericKinds THEN SerAlts(r.st, p, v, fl, path, i + 1) ELSE r
SerObj(st, h, fl, path) ==
  IF h \in path THEN Er(st, "SelfReferenceError", <<>>)
  ELSE LET r == SerProps(st, h, fl, path \cup {h}, 1, <<>>) IN
       IF ~r.ok THEN r
       ELSE Ok(r.st, <<"d", "dict", IF fl.ic THEN DictPut(r.v, Str("__class__"), Str(ClsOf(st, h).name)) ELSE r.v>>)
SerProps(st, h, fl, path, i, acc) ==
  LET c == ClsOf(st, h) IN
  IF i > Len(c.props) THEN Ok(st, acc)
  ELSE LET nm == c.props[i][1] p == c.props[i][2]
           skip == IF p.k \in {"dyn", "ren"} THEN ~fl.dyn ELSE Stored(st, h, nm) = Undef
           tp == Target(c, p)
           g == GetAttr(st, h, nm)
           r == IF g.ok THEN Ser(g.st, tp, g.v, fl, path) ELSE g
       IN IF skip THEN SerProps(st, h, fl, path, i + 1, acc)
          ELSE IF ~r.ok THEN r
          ELSE IF p.k = "ren" /\ g.v = None THEN SerProps(g.st, h, fl, path, i + 1, acc)
          ELSE SerProps(r.st, h, fl, path, i + 1, IF r.v = None THEN acc ELSE Append(acc, <<Str(nm), r.v>>))

-----------------------------------------------------------------------------
(* Deserialization.  fl = [tr: trusted, strict: strict, av: assert valid, mk: keyword of custom deserializers] *)
RECURSIVE Deser(_, _, _, _), DeserSeq(_, _, _, _, _), DeserPairs(_, _, _, _, _), DeserAlts(_, _, _, _, _), DeserObj(_, _, _, _),
          DeserProps(_, _, _, _, _, _), PutImm(_, _, _, _)
BoolWord(u) == CASE u \in {"TRUE", "Y", "YES", "ON"} -> <<TRUE, TRUE>> [] u \in {"FALSE", "N", "NO", "OFF"} -> <<TRUE, FALSE>>
                 [] OTHER -> <<FALSE, FALSE>>
UuidOK(s) == Len(s) = 36 /\ AllIn(s, HexSet \cup {"-"})
DType(p) == LET d == Range1(p.dtype) IN      \* the most general declared type
            CASE p.k # "array" -> "f" [] "complex" \in d -> "c" [] "float" \in d -> "f" [] "int" \in d -> "i" [] OTHER -> "b"
Deser(st, p, v, fl) ==
  IF p.ser \in {"wrap", "bare"} THEN (IF Tag(v) = "l" /\ (IF Tag(v) # "l" THEN FALSE ELSE IF fl.mk = "" \/ p.ser = "bare" THEN Len(v[3]) = 1 ELSE Len(v[3]) = 2 /\ v[3][Len(v[3])] = Str(fl.mk)) THEN Ok(st, v[3][1]) ELSE Er(st, "ValueError", <<>>))
  ELSE IF IsUndefNone(v) THEN Ok(st, None)
  ELSE CASE p.k = "bool" -> IF Tag(v) = "s" THEN LET w == BoolWord(UpperS(v[2])) IN IF w[1] THEN Ok(st, <<"b", w[2]>>) ELSE Er(st, "ValueError", <<>>)
                            ELSE IF Tag(v) \in {"b", "i", "I", "npb"} THEN Ok(st, v) ELSE Er(st, "ValueError", <<>>)
         [] p.k = "int" -> LET r == IntOf(v, Tag(v) = "s") IN
                           IF r[1] THEN Ok(st, r[2]) ELSE Er(st, IF Tag(v) \in {"l", "t", "d", "S", "c"} THEN "TypeError" ELSE "ValueError", <<>>)
         [] p.k = "float" -> LET r == FloatOf(v, TRUE) IN
                             IF r[1] THEN Ok(st, r[2]) ELSE Er(st, IF Tag(v) \in {"l", "t", "d", "S", "c"} THEN "TypeError" ELSE "ValueError", <<>>)
         [] p.k = "complex" -> LET r == ComplexOf(v, TRUE) IN
                               IF r[1] THEN Ok(st, r[2]) ELSE Er(st, IF Tag(v) \in {"l", "t", "d", "S"} THEN "TypeError" ELSE "ValueError", <<>>)
         [] p.k = "color" -> CASE Tag(v) \in {"l", "t"} -> Ok(st, <<"t", "tuple", v[3]>>)
                               [] Tag(v) = "s" -> Ok(st, <<"t", "tuple", [i \in 1..Len(v[2]) |-> Str(Ch(v[2], i))]>>)
                               [] Tag(v) = "d" -> Ok(st, <<"t", "tuple", [i \in DOMAIN v[3] |-> v[3][i][1]]>>)
                               [] OTHER -> Er(st, "TypeError", <<>>)
         [] p.k = "datetime" -> IF Tag(v) # "s" THEN Er(st, IF Tag(v) \in {"l", "t", "d"} /\ Len(v[3]) = 10 THEN "AttributeError" ELSE "TypeError", <<>>)
                                ELSE LET r == ParseDT(v[2]) IN IF r[1] THEN Ok(st, r[2]) ELSE Er(st, "ValueError", <<>>)
         [] p.k = "own" -> IF Tag(v) = "s" /\ StartsWith(IF Tag(v) = "s" THEN v[2] ELSE "", fl.mk \o "L:") THEN Ok(st, Str(SubSeq(v[2], Len(fl.mk) + 3, Len(v[2])))) ELSE Er(st, "ValueError", <<>>)
         [] p.k = "uuid" -> IF Tag(v) = "s" /\ UuidOK(v[2]) THEN Ok(st, <<"uuid", LowerS(v[2])>>) ELSE Er(st, "ValueError", <<>>)
         [] p.k \in {"tuple", "list", "set"} ->
              LET items == CASE Tag(v) \in {"l", "t", "S"} -> v[3]
                             [] Tag(v) = "s" -> [i \in 1..Len(v[2]) |-> Str(Ch(v[2], i))]
                             [] Tag(v) = "d" -> [i \in DOMAIN v[3] |-> v[3][i][1]]
                             [] OTHER -> <<>>
                  iter == Tag(v) \in {"l", "t", "S", "s", "d"}
                  r == DeserSeq(st, p.prop, items, fl, <<>>)
                  ct == ContTag(p.k)
              IN IF ~iter THEN Er(st, "TypeError", <<>>)
                 ELSE IF ~r.ok THEN r
                 ELSE IF ct = "S" /\ \E i \in DOMAIN r.v : ~Hashable(r.v[i]) THEN Er(r.st, "TypeError", <<>>)
                 ELSE Ok(r.st, <<ct, PlainName(p.k), IF ct = "S" THEN SetOf(r.v, <<>>) ELSE r.v>>)
         [] p.k = "dict" -> IF Tag(v) # "d" THEN Er(st, "AttributeError", <<>>)
                            ELSE LET r == DeserPairs(st, p, v[3], fl, <<>>) IN IF r.ok THEN Ok(r.st, <<"d", "dict", r.v>>) ELSE r
         [] p.k = "inst" -> DeserObj(st, p.cls, v, fl)
         [] p.k = "union" ->
              LET f2 == [fl EXCEPT !.strict = @ \/ p.strict, !.av = p.strict]
                  cn == IF Tag(v) = "d" /\ SKey(v[3], "__class__") THEN SGet(v[3], "__class__") ELSE None
                  is == {i \in DOMAIN p.props : p.props[i].k = "inst" /\ cn = Str(p.props[i].cls)}
              IN IF is # {} THEN Deser(st, p.props[CHOOSE i \in is : \A j \in is : i <= j], v, f2)
                 ELSE DeserAlts(st, p.props, v, f2, 1)
         [] p.k \in {"array", "vec3", "vec2", "vec3a", "vec2a"} ->
              LET a == ArrOf(v) k == DType(p) IN
              IF Tag(v) \notin {"l", "t", "b", "i", "f", "nan", "inf", "c", "s"} \/ ~a[1] THEN Er(st, "TypeError|ValueError", <<>>)
              ELSE IF \E i \in DOMAIN a[2][5] : Tag(a[2][5][i]) = "s" /\ (k \notin {"f", "c"} \/ ~ParseFloat(a[2][5][i][2])[1])
              THEN Er(st, "ValueError", <<>>)
              ELSE LET x == <<"a", "ndarray", k, a[2][4], [i \in DOMAIN a[2][5] |-> ToKind(a[2][5][i], k)]>> IN
                   IF p.k = "array" THEN Ok(st, x)
                   ELSE LET w == VecWrap(p.k, x) IN IF w[1] THEN Ok(st, w[2]) ELSE Er(st, "TypeError|ValueError", <<>>)
         [] OTHER -> Ok(st, v)
DeserSeq(st, p, s, fl, acc) ==
  IF Len(s) = 0 THEN Ok(st, acc)
  ELSE LET r == Deser(st, p, s[1], fl) IN IF r.ok THEN DeserSeq(r.st, p, Tail(s), fl, Append(acc, r.v)) ELSE r
DeserPairs(st, p, ps, fl, acc) ==
  IF Len(ps) = 0 THEN Ok(st, acc)
  ELSE LET k == Deser(st, p.kprop, ps[1][1], fl) IN
       IF ~k.ok THEN k
       ELSE LET x == Deser(k.st, p.vprop, ps[1][2], fl) IN
            IF ~x.ok THEN x ELSE IF ~Hashable(k.v) THEN Er(x.st, "TypeError", <<>>)
            ELSE DeserPairs(x.st, p, Tail(ps), fl, DictPut(acc, k.v, x.v))
DeserAlts(st, props, v, fl, i) ==
  IF i > Len(props) THEN Ok(st, v)
  ELSE LET r == Deser(st, props[i], v, fl)
           q == IF r.ok THEN Validate(r.st, props[i], "", "", r.v) ELSE r
       IN IF q.ok THEN Ok(q.st, r.v) ELSE IF q.kind \in GenericKinds THEN DeserAlts(q.st, props, v, fl, i + 1) ELSE q
RegistryOf(st, C) == st.regs[st.cls[C].reg]
DeserObj(st, C, v, fl) ==
  IF Tag(v) # "d" THEN Er(st, "ValueError", <<>>)
  ELSE LET cn == IF SKey(v[3], "__class__") THEN SGet(v[3], "__class__") ELSE None
           named == cn # None /\ cn # Str("") /\ cn # Str(st.cls[C].name)
           known == named /\ fl.tr /\ Tag(cn) = "s" /\ cn[2] \in DOMAIN RegistryOf(st, C)
           D == IF known THEN RegistryOf(st, C)[cn[2]] ELSE C
           c == st.cls[D]
           isP(pr) == Tag(pr[1]) = "s" /\ HasProp(c, pr[1][2])
           state == SelectSeq(v[3], isP)
           unused == SelectSeq(v[3], LAMBDA pr : ~isP(pr) /\ pr[1] # Str("__class__"))
       IN IF named /\ ~known /\ fl.strict THEN Er(st, "ValueError", <<>>)
          ELSE IF fl.strict /\ Len(unused) > 0 THEN Er(st, "ValueError", <<>>)
          ELSE LET r1 == DeserProps(st, c, [fl EXCEPT !.av = FALSE], state, <<>>, <<>>) IN
               IF ~r1.ok THEN r1
               ELSE LET r2 == NewObj([r1.st EXCEPT !.q = Modes], D, r1.v[1])
                        s2 == [r2.st EXCEPT !.q = st.q]
                    IN IF ~r2.ok THEN [r2 EXCEPT !.st = s2]
                       ELSE LET h == r2.v[2] r3 == PutImm(s2, h, r1.v[2], 1) IN
                            IF ~r3.ok THEN r3
                            ELSE IF ~fl.av THEN Ok(r3.st, <<"h", h>>)
                            ELSE LET r4 == ValidObj(r3.st, h) IN IF r4.ok THEN Ok(r4.st, <<"h", h>>) ELSE r4
DeserProps(st, c, fl, state, mut, imm) ==
  IF Len(state) = 0 THEN Ok(st, <<mut, imm>>)
  ELSE LET nm == state[1][1][2] p == c.pm[nm]
           tp == Target(c, p)
       IN IF p.k = "dyn" THEN DeserProps(st, c, fl, Tail(state), mut, imm)
          ELSE LET r == Deser(st, tp, state[1][2], fl) IN
               IF ~r.ok THEN r
               ELSE IF p.k \in {"gettable", "uuid"} THEN DeserProps(r.st, c, fl, Tail(state), mut, Append(imm, <<nm, r.v>>))
               ELSE DeserProps(r.st, c, fl, Tail(state), Append(mut, <<nm, r.v>>), imm)
PutImm(st, h, imm, i) ==
  IF i > Len(imm) THEN Ok(st, None)
  ELSE LET nm == imm[i][1] r == Validate(st, ClsOf(st, h).pm[nm], nm, h, imm[i][2]) IN
       IF ~r.ok THEN r ELSE PutImm([r.st EXCEPT !.heap[h].v = PutV(@, nm, r.v)], h, imm, i + 1)
=============================================================================
