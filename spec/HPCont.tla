-------------------------------- MODULE HPCont --------------------------------
(***************************************************************************)
(* The builtin containers, and containers observed by a property.          *)
(*                                                                         *)
(* Builtin(v, m, args): the effect of method m on container term v as      *)
(*   [ok, v: new contents, r: returned term, kind: error]                  *)
(* Oper(v, m, arg): the value of a non-mutating operator.                  *)
(* st.ch[x] = [att, h, n, val]: reference x denotes the stored value of    *)
(* property n of object h (att), or a container of its own (contents val,  *)
(* shared by the references with the same g).                              *)
(***************************************************************************)
EXTENDS HPClass

BOk(v, r) == [ok |-> TRUE, v |-> v, r |-> r, kind |-> ""]
BEr(kind) == [ok |-> FALSE, v |-> None, r |-> None, kind |-> kind]
Self == <<"self">>
Idx(i, n) == IF i < 0 THEN i + n + 1 ELSE i + 1         \* 1-based position of python index i
Clamp(i, n) == IF i < 1 THEN 1 ELSE IF i > n + 1 THEN n + 1 ELSE i
FindEq(s, x) == LET is == {i \in DOMAIN s : PyEq(s[i], x)} IN IF is = {} THEN 0 ELSE CHOOSE i \in is : \A j \in is : i <= j
IterOf(a) == CASE Tag(a) \in {"l", "t", "S"} -> a[3]
               [] Tag(a) = "d" -> [i \in DOMAIN a[3] |-> a[3][i][1]]
               [] Tag(a) = "s" -> [i \in 1..Len(a[2]) |-> Str(Ch(a[2], i))]
               [] OTHER -> <<>>
Iterable(a) == Tag(a) \in {"l", "t", "S", "d", "s"}
RECURSIVE Repeat(_, _)
Repeat(s, n) == IF n <= 0 THEN <<>> ELSE s \o Repeat(s, n - 1)
RECURSIVE Insert(_, _)
Insert(x, s) == IF Len(s) = 0 THEN <<x>> ELSE IF Lt(x, s[1]) THEN <<x>> \o s ELSE <<s[1]>> \o Insert(x, Tail(s))
RECURSIVE SortNum(_)
SortNum(s) == IF Len(s) = 0 THEN <<>> ELSE Insert(s[Len(s)], SortNum(SubSeq(s, 1, Len(s) - 1)))
RECURSIVE InsertText(_, _), SortText(_)
InsertText(x, s) == IF Len(s) = 0 THEN <<x>> ELSE IF StrLess(x[2], s[1][2]) THEN <<x>> \o s ELSE <<s[1]>> \o InsertText(x, Tail(s))
SortText(s) == IF Len(s) = 0 THEN <<>> ELSE InsertText(s[Len(s)], SortText(SubSeq(s, 1, Len(s) - 1)))
AllNum(s) == \A i \in DOMAIN s : Tag(s[i]) \in {"i", "b", "f", "npi", "npf"}
RECURSIVE SetMinus(_, _), SetMeet(_, _)
SetMinus(a, b) == SelectSeq(a, LAMBDA x : ~PyEqIn(x, b))
\* members of both; the representatives come from b unless b is a bigger set
SetMeet(a, b) == SelectSeq(b, LAMBDA x : PyEqIn(x, a))
MeetWith(a, arg) == IF Tag(arg) = "S" /\ Len(arg[3]) > Len(a) THEN SetMeet(arg[3], a) ELSE SetOf(SetMeet(a, IterOf(arg)), <<>>)
SetSym(a, b) == SetMinus(a, b) \o SetMinus(SetOf(b, <<>>), a)
AllHash(s) == \A i \in DOMAIN s : Hashable(s[i])

ListOp(s, m, a) ==     \* s: contents; result contents
  LET n == Len(s) IN
  CASE m = "append" -> BOk(Append(s, a[1]), None)
    [] m \in {"extend", "__iadd__"} -> IF Iterable(a[1]) THEN BOk(s \o IterOf(a[1]), IF m = "extend" THEN None ELSE Self) ELSE BEr("TypeError")
    [] m = "insert" -> LET p == Clamp(Idx(a[1][2], n), n) IN BOk(SubSeq(s, 1, p - 1) \o <<a[2]>> \o SubSeq(s, p, n), None)
    [] m = "pop" -> LET p == IF a = <<>> THEN n ELSE Idx(a[1][2], n) IN
                    IF n = 0 \/ p < 1 \/ p > n THEN BEr("IndexError") ELSE BOk(RemoveAt(s, p), s[p])
    [] m = "remove" -> LET p == FindEq(s, a[1]) IN IF p = 0 THEN BEr("ValueError") ELSE BOk(RemoveAt(s, p), None)
    [] m = "reverse" -> BOk(Reverse(s), None)
    [] m = "clear" -> BOk(<<>>, None)
    [] m = "sort" -> IF n < 2 \/ AllNum(s) THEN BOk(SortNum(s), None)
                     ELSE IF \A i \in DOMAIN s : Tag(s[i]) = "s" THEN BOk(SortText(s), None) ELSE BEr("TypeError")
    [] m = "__setitem__" -> LET p == Idx(a[1][2], n) IN IF p < 1 \/ p > n THEN BEr("IndexError") ELSE BOk([s EXCEPT ![p] = a[2]], None)
    [] m = "__delitem__" -> LET p == Idx(a[1][2], n) IN IF p < 1 \/ p > n THEN BEr("IndexError") ELSE BOk(RemoveAt(s, p), None)
    [] m = "setslice" -> \* x[i:j] = iterable, 0 <= i <= j <= n
         LET i == Clamp(a[1][2] + 1, n) j == IF a[2][2] < a[1][2] THEN i ELSE Clamp(a[2][2] + 1, n) IN
         IF Iterable(a[3]) THEN BOk(SubSeq(s, 1, i - 1) \o IterOf(a[3]) \o SubSeq(s, j, n), None) ELSE BEr("TypeError")
    [] m = "delslice" -> LET i == Clamp(a[1][2] + 1, n) j == IF a[2][2] < a[1][2] THEN i ELSE Clamp(a[2][2] + 1, n) IN
                         BOk(SubSeq(s, 1, i - 1) \o SubSeq(s, j, n), None)
    [] m = "__imul__" -> IF Tag(a[1]) \in {"i", "b"} THEN BOk(Repeat(s, IF Tag(a[1]) = "b" THEN (IF a[1][2] THEN 1 ELSE 0) ELSE a[1][2]), Self) ELSE BEr("TypeError")
    [] OTHER -> BEr("AttributeError")
SetOp(s, m, a, hint) ==
  CASE m = "add" -> IF ~Hashable(a[1]) THEN BEr("TypeError") ELSE BOk(SetOf(<<a[1]>>, s), None)
    [] m = "discard" -> IF ~Hashable(a[1]) THEN BEr("TypeError") ELSE BOk(SetMinus(s, <<a[1]>>), None)
    [] m = "remove" -> IF ~Hashable(a[1]) THEN BEr("TypeError") ELSE IF PyEqIn(a[1], s) THEN BOk(SetMinus(s, <<a[1]>>), None) ELSE BEr("KeyError")
    [] m = "pop" -> IF Len(s) = 0 THEN BEr("KeyError")      \* any member may be returned: hint says which
                    ELSE LET x == IF PyEqIn(hint, s) THEN s[FindEq(s, hint)] ELSE s[1] IN BOk(SetMinus(s, <<x>>), x)
    [] m = "clear" -> BOk(<<>>, None)
    [] m \in {"update", "intersection_update", "difference_update", "symmetric_difference_update"} ->
         IF ~Iterable(a[1]) \/ ~AllHash(IterOf(a[1])) THEN BEr("TypeError")
         ELSE LET b == IterOf(a[1]) IN
              BOk(CASE m = "update" -> SetOf(b, s) [] m = "intersection_update" -> MeetWith(s, a[1])
                    [] m = "difference_update" -> SetMinus(s, b) [] OTHER -> SetSym(s, b), None)
    [] m \in {"__ior__", "__iand__", "__isub__", "__ixor__"} ->
         IF Tag(a[1]) # "S" THEN BEr("TypeError")
         ELSE LET b == a[1][3] IN
              BOk(CASE m = "__ior__" -> SetOf(b, s) [] m = "__iand__" -> MeetWith(s, a[1])
                    [] m = "__isub__" -> SetMinus(s, b) [] OTHER -> SetSym(s, b), Self)
    [] OTHER -> BEr("AttributeError")
RECURSIVE PutAll(_, _)
PutAll(s, ps) == IF Len(ps) = 0 THEN s ELSE PutAll(DictPut(s, ps[1][1], ps[1][2]), Tail(ps))
DictOp(s, m, a) ==
  CASE m = "__setitem__" -> IF Hashable(a[1]) THEN BOk(DictPut(s, a[1], a[2]), None) ELSE BEr("TypeError")
    [] m = "__delitem__" -> IF ~Hashable(a[1]) THEN BEr("TypeError") ELSE IF DictHas(s, a[1]) THEN BOk(DictDel(s, a[1]), None) ELSE BEr("KeyError")
    [] m = "pop" -> IF ~Hashable(a[1]) THEN BEr("TypeError") ELSE IF DictHas(s, a[1]) THEN BOk(DictDel(s, a[1]), DictGet(s, a[1]))
                    ELSE IF Len(a) = 2 THEN BOk(s, a[2]) ELSE BEr("KeyError")
    [] m = "popitem" -> IF Len(s) = 0 THEN BEr("KeyError") ELSE BOk(SubSeq(s, 1, Len(s) - 1), <<"t", "tuple", s[Len(s)]>>)
    [] m = "setdefault" -> IF ~Hashable(a[1]) THEN BEr("TypeError") ELSE LET d == IF Len(a) = 2 THEN a[2] ELSE None IN
                           IF DictHas(s, a[1]) THEN BOk(s, DictGet(s, a[1])) ELSE BOk(DictPut(s, a[1], d), d)
    [] m \in {"update", "__ior__"} -> IF AsPairs(a[1])[1] THEN BOk(PutAll(s, AsPairs(a[1])[2]), IF m = "update" THEN None ELSE Self)
                                      ELSE BEr("TypeError|ValueError")
    [] m = "clear" -> BOk(<<>>, None)
    [] OTHER -> BEr("AttributeError")
Builtin(v, m, a, hint) ==
  LET r == CASE Tag(v) = "l" -> ListOp(v[3], m, a) [] Tag(v) = "S" -> SetOp(v[3], m, a, hint) [] OTHER -> DictOp(v[3], m, a) IN
  IF r.ok THEN [r EXCEPT !.v = <<Tag(v), v[2], r.v>>] ELSE r

\* non-mutating operators; refl: the container is the right operand
OOk(v) == BOk(v, v)
Oper(v, m, a) ==
  LET s == v[3] mk(x) == OOk(<<Tag(v), "any", x>>) IN
  CASE Tag(v) = "l" ->
         (CASE m = "copy" -> mk(s)
            [] m = "__add__" -> IF Tag(a[1]) = "l" THEN mk(s \o a[1][3]) ELSE BEr("TypeError")
            [] m = "__radd__" -> IF Tag(a[1]) = "l" THEN mk(a[1][3] \o s) ELSE BEr("TypeError")
            [] m \in {"__mul__", "__rmul__"} -> IF Tag(a[1]) = "i" THEN mk(Repeat(s, a[1][2])) ELSE BEr("TypeError")
            [] OTHER -> BEr("AttributeError"))
    [] Tag(v) = "S" ->
         (CASE m = "copy" -> mk(s)
            [] m \in {"union", "intersection", "difference", "symmetric_difference"} ->
                 IF ~Iterable(a[1]) \/ ~AllHash(IterOf(a[1])) THEN BEr("TypeError")
                 ELSE LET b == IterOf(a[1]) IN mk(CASE m = "union" -> SetOf(b, s) [] m = "intersection" -> MeetWith(s, a[1])
                                                   [] m = "difference" -> SetMinus(s, b) [] OTHER -> SetSym(s, b))
            [] m \in {"__or__", "__ror__", "__and__", "__rand__", "__xor__", "__rxor__", "__sub__", "__rsub__"} ->
                 IF Tag(a[1]) # "S" THEN BEr("TypeError")
                 ELSE LET b == a[1][3] IN mk(CASE m = "__or__" -> SetOf(b, s) [] m = "__ror__" -> SetOf(s, b) [] m = "__and__" -> MeetWith(s, a[1]) [] m = "__rand__" -> MeetWith(b, v)
                                              [] m \in {"__xor__", "__rxor__"} -> SetSym(s, b) [] m = "__sub__" -> SetMinus(s, b)
                                              [] OTHER -> SetMinus(b, s))
            [] OTHER -> BEr("AttributeError"))
    [] OTHER ->
         (CASE m = "copy" -> mk(s)
            [] m = "__or__" -> IF Tag(a[1]) = "d" THEN mk(PutAll(s, a[1][3])) ELSE BEr("TypeError")
            [] m = "__ror__" -> IF Tag(a[1]) = "d" THEN mk(PutAll(a[1][3], s)) ELSE BEr("TypeError")
            [] OTHER -> BEr("AttributeError"))

-----------------------------------------------------------------------------
ChVal(st, x) == LET r == st.ch[x] IN IF r.att THEN Stored(st, r.h, r.n) ELSE r.val
Observed(v) == StartsWith(v[2], "obs:")
\* a mutating method called through reference x
MutRef(st, x, m, a, hint) ==
  LET r == st.ch[x] b == Builtin(ChVal(st, x), m, a, hint) IN
  IF ~b.ok THEN Er(st, b.kind, <<>>)
  ELSE IF ~r.att THEN Ok([st EXCEPT !.ch = [y \in DOMAIN @ |-> IF ~@[y].att /\ @[y].g = r.g THEN [@[y] EXCEPT !.val = b.v] ELSE @[y]]], b.r)
  ELSE LET q == SetAttr(st, r.h, r.n, b.v) IN IF q.ok THEN Ok(q.st, b.r) ELSE q
\* an in-place operator applied to the attribute itself:  h.n op= arg
AugAttr(st, h, n, m, a) ==
  LET v == Stored(st, h, n) b == Builtin(v, m, a, None) IN
  IF Tag(v) \notin {"l", "S", "d"} THEN Er(st, "TypeError", <<>>)
  ELSE IF b.ok THEN SetAttr(IF Observed(v) THEN st ELSE [st EXCEPT !.heap[h].v = PutV(@, n, b.v)], h, n, b.v)
  ELSE Er(st, b.kind, <<>>)
\* a non-mutating operator; its result becomes a container y of its own
OperRef(st, x, m, a, y) ==
  LET b == Oper(ChVal(st, x), m, a) IN
  IF ~b.ok THEN Er(st, b.kind, <<>>)
  ELSE Ok([st EXCEPT !.ch = (y :> [att |-> FALSE, h |-> "", n |-> "", val |-> b.v, g |-> y]) @@ @], b.v)
GrabRef(st, x, h, n) ==
  LET v == Stored(st, h, n) IN
  IF Tag(v) \notin {"l", "S", "d"} THEN Er(st, "TypeError", <<>>)
  ELSE Ok([st EXCEPT !.ch = (x :> [att |-> TRUE, h |-> h, n |-> n, val |-> v, g |-> ""]) @@ @], None)
=============================================================================
