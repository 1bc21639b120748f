------------------------------ MODULE Pointers ------------------------------
(***************************************************************************)
(* Pointer properties (properties.extras.Pointer).                         *)
(*                                                                         *)
(* A holder has p, a required pointer, and l, an optional list of          *)
(* pointers, both declared with the target class cfg.t and load = cfg.ld.  *)
(* Targets: T, with unique ids and a subclass T2; V, with unique ids, of   *)
(* which those starting with x are refused; W, identified by its name (in  *)
(* lower case), loaded from a table that may hold anything; WN, like W     *)
(* but without loading; Z, identified by a code chosen from aa (also       *)
(* written a1) and bb; P, a plain class built from an integer.  U is an    *)
(* unrelated class with unique ids.                                        *)
(*                                                                         *)
(* objs: object -> [c, v]; reg: registry -> id -> object; table: id ->     *)
(* object; hold: what the holder holds; dead: a deserialization failed     *)
(* half way (the registries are not specified from then on).               *)
(***************************************************************************)
EXTENDS MiniBase

PropsOf(c) == CASE c \in {"T", "V", "U"} -> {"uid", "val"} [] c = "T2" -> {"uid", "val", "more"} [] c \in {"W", "WN"} -> {"name"} [] c = "Z" -> {"code"} [] c = "P" -> {"n"}
Isa(c, t) == c = t \/ (c = "T2" /\ t = "T")
RegOf(c) == CASE c \in {"T", "T2"} -> "RT" [] c = "V" -> "RV" [] c = "U" -> "RU" [] OTHER -> ""
HasReg(c) == RegOf(c) # ""
OkVal(c, n, t) == CASE n \in {"uid", "name"} -> t[1] = "s" [] n \in {"val", "n", "more"} -> t[1] = "i" [] n = "code" -> t[1] = "s" /\ t[2] \in {"aa", "bb", "a1"}
Lower(u) == CASE u = "A" -> "a" [] u = "B" -> "b" [] u = "XA" -> "xa" [] OTHER -> u
Norm(c, n, t) == CASE n = "name" -> Str(Lower(t[2])) [] n = "code" -> IF t[2] = "a1" THEN Str("aa") ELSE t [] OTHER -> t
Required(c) == CASE c \in {"T", "V", "U"} -> {"val"} [] c = "T2" -> {"val", "more"} [] c \in {"W", "WN"} -> {"name"} [] c = "Z" -> {"code"} [] c = "P" -> {}

\* building an object of class c named x
Build(st, c, kw, x) ==
  LET names == KwNames(kw)
      v == [n \in names |-> Norm(c, n, Kw(kw, n))]
  IN IF ~(names \subseteq PropsOf(c)) \/ (\E n \in names : ~OkVal(c, n, Kw(kw, n))) \/ (c = "P" /\ names = {})
        \/ (HasReg(c) /\ (~("uid" \in names) \/ Kw(kw, "uid")[2] \in DOMAIN st.reg[RegOf(c)]))
     THEN [ok |-> FALSE, st |-> st]
     ELSE [ok |-> TRUE, st |-> [st EXCEPT !.objs = (x :> [c |-> c, v |-> v]) @@ @,
                                          !.reg = IF HasReg(c) THEN [@ EXCEPT ![RegOf(c)] = (v["uid"][2] :> x) @@ @] ELSE @]]

\* an object made while assigning or reading: named after its id, or else its place
At(c, kw, pre, place) == pre \o (IF HasReg(c) /\ "uid" \in KwNames(kw) /\ Kw(kw, "uid")[1] = "s" THEN Kw(kw, "uid")[2] ELSE place)

\* the object an id denotes, or "" (st.cfg.t has a method that looks ids up)
Find(st, u) ==
  CASE HasReg(st.cfg.t) -> Get(st.reg[RegOf(st.cfg.t)], u, "")
    [] st.cfg.t = "W" -> Get(st.table, u, "")
    [] OTHER -> ""
\* the id property that checks an id
IdProp(t) == CASE HasReg(t) -> "uid" [] t \in {"W", "WN"} -> "name" [] t = "Z" -> "code" [] t = "P" -> ""
GoodId(t, u) == CASE t = "V" -> u \notin {"xa", "XA", "x"} [] t = "Z" -> u \in {"aa", "bb", "a1"} [] OTHER -> TRUE
No(st) == [ok |-> FALSE, t |-> None, st |-> st]
Yes(st, t) == [ok |-> TRUE, t |-> t, st |-> st]
\* accepting value t for one pointer at a place
Accept(st, t, pre, place) ==
  LET T == st.cfg.t IN
  CASE t[1] = "s" ->
         LET u == IF IdProp(T) = "" THEN t[2] ELSE Norm(T, IdProp(T), t)[2]
             o == IF st.cfg.ld THEN Find(st, u) ELSE ""
         IN IF ~GoodId(T, t[2]) THEN No(st)
            ELSE IF o = "" THEN Yes(st, Str(u))
            ELSE IF Isa(st.objs[o].c, T) THEN Yes(st, H(o)) ELSE No(st)
    [] t[1] = "h" -> IF Isa(st.objs[t[2]].c, T) THEN Yes(st, t) ELSE No(st)
    [] t[1] = "kw" -> LET x == At(T, t[2], pre, place) b == Build(st, T, t[2], x) IN IF b.ok THEN Yes(b.st, H(x)) ELSE No(st)
    [] t[1] = "i" /\ T = "P" -> Yes(Build(st, "P", <<<<"n", t>>>>, pre \o place).st, H(pre \o place))
    [] OTHER -> No(st)
RECURSIVE AcceptAll(_, _, _, _)
AcceptAll(st, ts, pre, j) ==
  IF j > Len(ts) THEN [ok |-> TRUE, t |-> <<>>, st |-> st]
  ELSE LET a == Accept(st, ts[j], pre, "l" \o ToString(j)) IN
       IF ~a.ok THEN No(st)
       ELSE LET b == AcceptAll(a.st, ts, pre, j + 1) IN IF b.ok THEN [b EXCEPT !.t = <<a.t>> \o @] ELSE No(st)
AcceptP(st, n, t, pre) ==
  IF t = Undef THEN Yes(st, Undef)
  ELSE IF n = "p" THEN Accept(st, t, pre, "p")
  ELSE IF t[1] # "l" THEN No(st)
  ELSE LET r == AcceptAll(st, t[2], pre, 1) IN IF r.ok THEN Yes(r.st, <<"l", r.t>>) ELSE No(st)
PutP(h, n, t) == IF t = Undef THEN Drop(h, {n}) ELSE Put(h, n, t)
SetP(st, e) ==
  LET r == AcceptP(st, e.n, e.v, e.pre) IN
  IF r.ok THEN Ok([r.st EXCEPT !.hold = PutP(@, e.n, r.t)], None) ELSE Er(st, "ValueError")

\* valid: p is set; instances are complete; ids that would now be loaded are not judged
Complete(st, t) == t[1] # "h" \/ Required(st.objs[t[2]].c) \subseteq DOMAIN st.objs[t[2]].v
Validate(st) ==
  IF /\ "p" \in DOMAIN st.hold /\ Complete(st, st.hold["p"])
     /\ ("l" \in DOMAIN st.hold => \A j \in DOMAIN st.hold["l"][2] : Complete(st, st.hold["l"][2][j]))
  THEN Ok(st, <<"b", TRUE>>) ELSE Er(st, "ValueError")
Loadable(st, t) == t[1] = "s" /\ st.cfg.ld /\ Find(st, t[2]) # ""
Judgeable(st) == /\ "p" \in DOMAIN st.hold => ~Loadable(st, st.hold["p"])
                 /\ "l" \in DOMAIN st.hold => \A j \in DOMAIN st.hold["l"][2] : ~Loadable(st, st.hold["l"][2][j])

-----------------------------------------------------------------------------
WriteOne(st, t) ==
  IF t[1] # "h" THEN t
  ELSE LET o == st.objs[t[2]] f == ("class" :> Str(o.c)) @@ o.v IN
       IF HasReg(o.c) THEN <<"flat", o.v["uid"], f>> ELSE <<"obj", f>>
Write(st) == [n \in DOMAIN st.hold |-> IF n = "p" THEN WriteOne(st, st.hold[n])
                                       ELSE <<"l", [j \in DOMAIN st.hold[n][2] |-> WriteOne(st, st.hold[n][2][j])]>>]
\* reading one serialized pointer: an id stays an id until it is assigned
ClassFor(t, f, tr) == IF tr /\ f["class"][2] \in (IF t = "T" THEN {"T", "T2"} ELSE {t}) THEN f["class"][2] ELSE t
KwOf(f, c) == SetToSeq({<<n, f[n]>> : n \in DOMAIN f \cap PropsOf(c)})
ReadOne(st, j, tr, pre, place) ==
  CASE j[1] = "s" -> Yes(st, j)
    [] j[1] \in {"flat", "obj"} ->
         LET f == IF j[1] = "flat" THEN j[3] ELSE j[2]
             c == ClassFor(st.cfg.t, f, tr)
             x == At(c, KwOf(f, c), pre, place)
             b == Build(st, c, KwOf(f, c), x)
         IN IF b.ok THEN Yes(b.st, H(x)) ELSE No(st)
    [] OTHER -> No(st)
RECURSIVE ReadAll(_, _, _, _, _)
ReadAll(st, js, tr, pre, j) ==
  IF j > Len(js) THEN [ok |-> TRUE, t |-> <<>>, st |-> st]
  ELSE LET a == ReadOne(st, js[j], tr, pre, "l" \o ToString(j)) IN
       IF ~a.ok THEN No(st)
       ELSE LET b == ReadAll(a.st, js, tr, pre, j + 1) IN IF b.ok THEN [b EXCEPT !.t = <<a.t>> \o @] ELSE No(st)
Read(st, e) ==
  LET f == st.slots[e.s]
      a == IF "p" \in DOMAIN f THEN ReadOne(st, f["p"], e.tr, e.pre, "p") ELSE Yes(st, Undef)
      b == IF ~("l" \in DOMAIN f) THEN Yes(a.st, Undef)
           ELSE IF f["l"][1] # "l" THEN No(a.st)
           ELSE LET r == ReadAll(a.st, f["l"][2], e.tr, e.pre, 1) IN IF r.ok THEN Yes(r.st, <<"l", r.t>>) ELSE No(st)
      c == IF a.ok /\ b.ok THEN AcceptP(b.st, "p", a.t, e.pre) ELSE No(st)
      d == IF c.ok THEN AcceptP(c.st, "l", b.t, e.pre) ELSE No(st)
      r == [d.st EXCEPT !.hold = PutP(PutP(<<>>, "p", c.t), "l", d.t)]
  IN IF ~d.ok THEN Er([st EXCEPT !.dead = TRUE], "ValueError")
     ELSE IF e.av /\ ~Validate(r).ok THEN Er([st EXCEPT !.dead = TRUE], "ValueError")
     ELSE Ok(r, None)

Do(st, e) ==
  CASE e.op = "new" -> LET b == Build(st, e.c, e.kw, e.x) IN IF b.ok THEN Ok(b.st, H(e.x)) ELSE Er(st, "any")
    [] e.op = "set" -> SetP(st, e)
    [] e.op = "put" -> Ok([st EXCEPT !.table = Put(@, e.u, e.x)], None)
    [] e.op = "forget" -> Ok([st EXCEPT !.reg = [R \in DOMAIN @ |-> <<>>], !.table = <<>>], None)
    [] e.op = "validate" -> Validate(st)
    [] e.op = "ser" -> LET f == Write(st) IN Ok([st EXCEPT !.slots = Put(@, e.s, f)], <<"holder", f>>)
    [] e.op = "edit" -> Ok([st EXCEPT !.slots[e.s] = PutP(@, e.n, e.v)], None)
    [] e.op = "deser" -> Read(st, e)

Start(cfg) == [cfg |-> cfg, objs |-> <<>>, reg |-> [R \in {"RT", "RV", "RU"} |-> <<>>], table |-> <<>>, hold |-> <<>>, slots |-> <<>>, dead |-> FALSE]
Agree(st, post) ==
  st.dead \/
  (/\ DOMAIN st.objs = DOMAIN post.objs
   /\ \A x \in DOMAIN st.objs : st.objs[x].c = post.objs[x].c /\ SameFun(st.objs[x].v, post.objs[x].v)
   /\ \A R \in DOMAIN st.reg : SameFun(st.reg[R], post.reg[R])
   /\ SameFun(st.hold, post.hold))

-----------------------------------------------------------------------------
Configs == {[t |-> t, ld |-> ld] : t \in {"T", "V", "W", "WN", "Z", "P"}, ld \in BOOLEAN}
Made(t, u) == CASE HasReg(t) -> <<<<"uid", Str(u)>>, <<"val", Num(1)>>>> [] t \in {"W", "WN"} -> <<<<"name", Str(u)>>>>
                [] t = "Z" -> <<<<"code", Str("aa")>>>> [] t = "P" -> <<<<"n", Num(1)>>>>
Ops(st) ==
  IF st.dead THEN {} ELSE
  LET T == st.cfg.t
      n == Cardinality(DOMAIN st.objs)
      x == "o" \o ToString(n + 1)
      pre == "m" \o ToString(n + 1)
      ids == IF T = "Z" THEN {"a1", "bb", "q"} ELSE {"a", "A", "xa"}
      vals == {Str(u) : u \in ids} \cup {H(y) : y \in DOMAIN st.objs} \cup {None, Undef, Num(3), <<"kw", Made(T, "a")>>, <<"kw", <<<<"zzz", Num(1)>>>>>>}
      ser == "s" \in DOMAIN st.slots
  IN (IF n < 3 /\ ~ser THEN {[op |-> "new", c |-> c, x |-> x, kw |-> Made(c, "a")] : c \in {T, "U"} \cup (IF T = "T" THEN {"T2"} ELSE {})} ELSE {})
     \cup (IF n < 4 THEN {[op |-> "set", n |-> "p", v |-> v, pre |-> pre] : v \in vals} \cup
             {[op |-> "set", n |-> "l", v |-> <<"l", <<v>>>>, pre |-> pre] : v \in {Str("a"), Str("xa")} \cup {H(y) : y \in DOMAIN st.objs}}
           ELSE {})
     \cup (IF T = "W" THEN {[op |-> "put", u |-> "a", x |-> y] : y \in DOMAIN st.objs} ELSE {})
     \cup (IF Judgeable(st) THEN {[op |-> "validate"]} ELSE {})
     \cup (IF "p" \in DOMAIN st.hold /\ T # "P" THEN {[op |-> "ser", s |-> "s"]} ELSE {})
     \cup (IF ser /\ n < 4 THEN {[op |-> "forget"], [op |-> "deser", s |-> "s", tr |-> TRUE, av |-> FALSE, pre |-> pre]} ELSE {})
Holds(st, t) == t[1] = "s" \/ (t[1] = "h" /\ Isa(st.objs[t[2]].c, st.cfg.t))
Inv(st) ==
  /\ "p" \in DOMAIN st.hold => Holds(st, st.hold["p"])
  /\ "l" \in DOMAIN st.hold => \A j \in DOMAIN st.hold["l"][2] : Holds(st, st.hold["l"][2][j])
  \* a stored id is stable: accepting it again stores the same, unless it can be loaded now
  /\ ("p" \in DOMAIN st.hold /\ Judgeable(st)) => Accept(st, st.hold["p"], "z", "p").t = st.hold["p"]
  \* without loading an id is never replaced
  /\ (~st.cfg.ld /\ "s" \in DOMAIN st.slots /\ "p" \in DOMAIN st.slots["s"] /\ st.slots["s"]["p"][1] = "s") =>
       LET r == Read(st, [s |-> "s", tr |-> FALSE, av |-> FALSE, pre |-> "z"]) IN r.ok => r.st.hold["p"] = st.slots["s"]["p"]
  \* what it holds, written and read where ids are free, is the same id or an equal instance
  /\ (st.cfg.t # "P" /\ "p" \in DOMAIN st.hold) =>
       LET s2 == [st EXCEPT !.reg = [R \in DOMAIN @ |-> <<>>], !.table = <<>>, !.slots = "z" :> ("p" :> WriteOne(st, st.hold["p"]))]
           r == Read(s2, [s |-> "z", tr |-> TRUE, av |-> FALSE, pre |-> "z"])
           t == r.st.hold["p"]
       IN r.ok /\ IF st.hold["p"][1] = "s" THEN t = st.hold["p"] ELSE t[1] = "h" /\ t[2] \notin DOMAIN st.objs /\ r.st.objs[t[2]] = st.objs[st.hold["p"][2]]
=============================================================================
