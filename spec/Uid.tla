---------------------------------- MODULE Uid ----------------------------------
(***************************************************************************)
(* Objects with unique ids (properties.extras.HasUID).                     *)
(*                                                                         *)
(* Classes: B is the base of a family with its own registry R1; N and M    *)
(* derive from it; Q has the registry R2; Box is a plain HasProperties     *)
(* class.  N has val (a required integer), nxt (an instance of B), kids (a *)
(* list of instances of B), map (a dictionary of them), box (a Box) and    *)
(* ptr (a Pointer to B); M adds tag (a string with a default); Box has     *)
(* inn (an instance of B) and num.                                         *)
(*                                                                         *)
(* objs: object -> [c, v]; reg: registry -> id -> object; slots: a         *)
(* serialized graph [root, ents: id -> [class, name -> value]]; taint: ids *)
(* about which nothing is specified (given up by a renaming, or left by a  *)
(* failed deserialization).                                                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt

None == <<"none">>
Undef == <<"undef">>
Str(x) == <<"s", x>>
H(x) == <<"h", x>>
Get(f, x, d) == IF x \in DOMAIN f THEN f[x] ELSE d
Put(f, x, y) == (x :> y) @@ f
Drop(f, xs) == [x \in DOMAIN f \ xs |-> f[x]]
Ok(st, v) == [ok |-> TRUE, kind |-> "", v |-> v, st |-> st]
Er(st, kind) == [ok |-> FALSE, kind |-> kind, v |-> None, st |-> st]

PropsOf(c) == CASE c = "B" -> <<"uid">>
                [] c = "N" -> <<"uid", "val", "nxt", "kids", "map", "box", "ptr">>
                [] c = "M" -> <<"uid", "val", "nxt", "kids", "map", "box", "ptr", "tag">>
                [] c = "Q" -> <<"uid", "val">>
                [] c = "Box" -> <<"inn", "num">>
Kind(n) == CASE n = "uid" -> "uid" [] n \in {"val", "num"} -> "int" [] n \in {"nxt", "inn"} -> "inst" [] n = "kids" -> "list" [] n = "map" -> "dict"
             [] n = "box" -> "box" [] n = "ptr" -> "ptr" [] n = "tag" -> "str"
Isa(c, d) == c = d \/ (d = "B" /\ c \in {"B", "N", "M"}) \/ (d = "N" /\ c = "M")
RegOf(c) == IF c = "Q" THEN "R2" ELSE "R1"
\* classes a trusted class name may denote
Known(c) == IF c = "Box" THEN {"Box"} ELSE IF c = "Q" THEN {"Q"} ELSE {"B", "N", "M"}
Auto(x) == "auto:" \o x
Defaults(c, x) == [n \in {m \in Range(PropsOf(c)) : m \in {"uid", "kids", "map", "tag", "num"}} |->
                     CASE n = "uid" -> Str(Auto(x)) [] n = "kids" -> <<"l", <<>>>> [] n = "map" -> <<"d", <<>>>> [] n = "tag" -> Str("t") [] n = "num" -> <<"i", 0>>]
CId(st, x) == st.objs[x].v["uid"][2]

-----------------------------------------------------------------------------
(* Acceptable values; a dictionary <<"kw", uid>> builds a B *)
OkB(st, t) == t[1] = "h" /\ Isa(st.objs[t[2]].c, "B")
OkVal(st, n, t) ==
  CASE t = Undef -> TRUE
    [] Kind(n) = "uid" -> t[1] = "s"
    [] Kind(n) = "int" -> t[1] = "i" /\ t[2] <= 50
    [] Kind(n) = "str" -> t[1] = "s"
    [] Kind(n) = "inst" -> OkB(st, t)
    [] Kind(n) = "list" -> t[1] = "l" /\ \A j \in DOMAIN t[2] : OkB(st, t[2][j])
    [] Kind(n) = "dict" -> t[1] = "d" /\ \A j \in DOMAIN t[2] : t[2][j][1][1] = "s" /\ OkB(st, t[2][j][2])
    [] Kind(n) = "box" -> t[1] = "h" /\ st.objs[t[2]].c = "Box"
    [] Kind(n) = "ptr" -> t[1] = "s" \/ OkB(st, t)
Store(st, x, n, t) == IF t = Undef THEN [st EXCEPT !.objs[x].v = Drop(@, {n})] ELSE [st EXCEPT !.objs[x].v = Put(@, n, t)]

SetUid(st, x, t) ==
  LET u == t[2] R == RegOf(st.objs[x].c) old == CId(st, x) IN
  IF t[1] # "s" THEN Er(st, "ValueError")
  ELSE IF u = old THEN Ok(st, None)
  ELSE IF u \in DOMAIN st.reg[R] THEN Er(st, "ValueError")
  ELSE Ok([Store(st, x, "uid", t) EXCEPT !.reg[R] = (u :> x) @@ @, !.taint = @ \cup {old}], None)
NewB(st, x, u) == [st EXCEPT !.objs = (x :> [c |-> "B", v |-> [uid |-> Str(u)]]) @@ @, !.reg["R1"] = (u :> x) @@ @]
SetP(st, e) ==
  IF e.n = "uid" THEN SetUid(st, e.h, e.v)
  ELSE IF Kind(e.n) = "inst" /\ e.v[1] = "kw"
       THEN IF e.v[2] \in DOMAIN st.reg["R1"] THEN Er(st, "ValueError")
            ELSE LET y == e.pre \o e.v[2] IN Ok(Store(NewB(st, y, e.v[2]), e.h, e.n, H(y)), None)
  ELSE IF OkVal(st, e.n, e.v) THEN Ok(Store(st, e.h, e.n, e.v), None) ELSE Er(st, "ValueError")

New(st, e) ==
  LET R == RegOf(e.c)
      hasuid == \E j \in DOMAIN e.kw : e.kw[j][1] = "uid"
      u == IF hasuid THEN (CHOOSE j \in DOMAIN e.kw : e.kw[j][1] = "uid") ELSE 0
      id == IF hasuid THEN e.kw[u][2][2] ELSE Auto(e.x)
      kwf(n) == e.kw[CHOOSE j \in DOMAIN e.kw : e.kw[j][1] = n][2]
      names == {e.kw[j][1] : j \in DOMAIN e.kw}
      bad == \/ ~(names \subseteq Range(PropsOf(e.c)))
             \/ \E n \in names \ {"uid"} : ~OkVal(st, n, kwf(n))
             \/ hasuid /\ (e.kw[u][2][1] # "s" \/ id \in DOMAIN st.reg[R])
      v0 == [n \in names \ {m \in names : kwf(m) = Undef} |-> kwf(n)] @@ Drop(Defaults(e.c, e.x), {m \in names : kwf(m) = Undef})
  IN IF e.c = "Box" THEN (IF names \subseteq Range(PropsOf("Box")) /\ \A n \in names : OkVal(st, n, kwf(n))
                          THEN Ok([st EXCEPT !.objs = (e.x :> [c |-> "Box", v |-> v0]) @@ @], H(e.x))
                          ELSE Er(st, IF names \subseteq Range(PropsOf("Box")) THEN "ValueError" ELSE "AttributeError"))
     ELSE IF bad THEN Er(st, IF names \subseteq Range(PropsOf(e.c)) THEN "ValueError" ELSE "AttributeError")
     ELSE Ok([st EXCEPT !.objs = (e.x :> [c |-> e.c, v |-> v0]) @@ @, !.reg[R] = (id :> e.x) @@ @], H(e.x))

-----------------------------------------------------------------------------
(* Serialization: sink is [ents] being filled; entries are visited once per id *)
RECURSIVE SerU(_, _, _, _), SerT(_, _, _, _), SerSeq(_, _, _, _), SerPairs(_, _, _, _), SerBody(_, _, _, _, _)
\* each returns [v: what is written, e: entries]
SerT(st, t, ic, ents) ==
  CASE t[1] = "h" -> IF st.objs[t[2]].c = "Box"
                     THEN LET r == SerBody(st, t[2], PropsOf("Box"), ic, ents) IN
                          [v |-> <<"obj", IF ic THEN ("class" :> Str("Box")) @@ r.v ELSE r.v>>, e |-> r.e]
                     ELSE SerU(st, t[2], ic, ents)
    [] t[1] = "l" -> LET r == SerSeq(st, t[2], ic, ents) IN [v |-> <<"l", r.v>>, e |-> r.e]
    [] t[1] = "d" -> LET r == SerPairs(st, t[2], ic, ents) IN [v |-> <<"d", r.v>>, e |-> r.e]
    [] OTHER -> [v |-> t, e |-> ents]
SerSeq(st, ts, ic, ents) ==
  IF Len(ts) = 0 THEN [v |-> <<>>, e |-> ents]
  ELSE LET a == SerT(st, ts[1], ic, ents) b == SerSeq(st, Tail(ts), ic, a.e) IN [v |-> <<a.v>> \o b.v, e |-> b.e]
SerPairs(st, ps, ic, ents) ==
  IF Len(ps) = 0 THEN [v |-> <<>>, e |-> ents]
  ELSE LET a == SerT(st, ps[1][2], ic, ents) b == SerPairs(st, Tail(ps), ic, a.e) IN [v |-> <<<<ps[1][1], a.v>>>> \o b.v, e |-> b.e]
SerBody(st, x, ns, ic, ents) ==
  IF Len(ns) = 0 THEN [v |-> <<>>, e |-> ents]
  ELSE IF ns[1] \notin DOMAIN st.objs[x].v THEN SerBody(st, x, Tail(ns), ic, ents)
  ELSE LET a == SerT(st, st.objs[x].v[ns[1]], ic, ents) b == SerBody(st, x, Tail(ns), ic, a.e) IN [v |-> (ns[1] :> a.v) @@ b.v, e |-> b.e]
SerU(st, x, ic, ents) ==
  LET u == CId(st, x) c == st.objs[x].c IN
  IF u \in DOMAIN ents THEN [v |-> Str(u), e |-> ents]
  ELSE LET r == SerBody(st, x, PropsOf(c), ic, (u :> <<>>) @@ ents) IN
       [v |-> Str(u), e |-> (u :> (IF ic THEN ("class" :> Str(c)) @@ r.v ELSE r.v)) @@ r.e]
Flat(st, x, ic) == [root |-> CId(st, x), ents |-> SerU(st, x, ic, <<>>).e]

\* objects reachable from x
RECURSIVE ReachFrom(_, _, _)
Refs(t) == CASE t[1] = "h" -> {t[2]} [] t[1] = "l" -> UNION {IF t[2][j][1] = "h" THEN {t[2][j][2]} ELSE {} : j \in DOMAIN t[2]}
             [] t[1] = "d" -> UNION {IF t[2][j][2][1] = "h" THEN {t[2][j][2][2]} ELSE {} : j \in DOMAIN t[2]} [] OTHER -> {}
ReachFrom(st, todo, seen) ==
  IF todo = {} THEN seen
  ELSE LET x == CHOOSE y \in todo : TRUE
           nx == UNION {Refs(st.objs[x].v[n]) : n \in DOMAIN st.objs[x].v}
       IN ReachFrom(st, (todo \cup nx) \ (seen \cup {x}), seen \cup {x})
Reach(st, x) == ReachFrom(st, {x}, {})
UReach(st, x) == {y \in Reach(st, x) : st.objs[y].c # "Box"}
DistinctIds(st, xs) == \A y, z \in xs : CId(st, y) = CId(st, z) => y = z

-----------------------------------------------------------------------------
(* Deserialization: d = [st, done: id -> object, bad]; opt = [tr, strict, pre] *)
Bad(d) == [d EXCEPT !.bad = TRUE]
ClassFor(c, ent, opt) ==
  LET n == IF "class" \in DOMAIN ent /\ ent["class"][1] = "s" THEN ent["class"][2] ELSE "" IN
  IF n = "" \/ n = c THEN c
  ELSE IF opt.tr /\ n \in Known(c) THEN n
  ELSE IF opt.strict THEN "!" ELSE c
RECURSIVE DesU(_, _, _, _, _), DesT(_, _, _, _, _, _), DesSeq(_, _, _, _, _), DesPairs(_, _, _, _, _), DesProps(_, _, _, _, _, _)
\* returns [d, t]: the value for property n of the object named x
DesT(d, n, j, x, ents, opt) ==
  CASE d.bad -> [d |-> d, t |-> None]
    [] Kind(n) = "uid" -> IF j[1] = "s" THEN [d |-> d, t |-> j] ELSE [d |-> Bad(d), t |-> None]
    [] Kind(n) = "int" -> IF j[1] = "i" /\ j[2] <= 50 THEN [d |-> d, t |-> j] ELSE [d |-> Bad(d), t |-> None]
    [] Kind(n) \in {"str", "ptr"} -> IF j[1] = "s" THEN [d |-> d, t |-> j] ELSE [d |-> Bad(d), t |-> None]
    [] Kind(n) = "inst" -> DesU(d, "B", j, ents, opt)
    [] Kind(n) = "list" -> IF j[1] # "l" THEN [d |-> Bad(d), t |-> None]
                           ELSE LET r == DesSeq(d, j[2], x, ents, opt) IN [d |-> r.d, t |-> <<"l", r.t>>]
    [] Kind(n) = "dict" -> IF j[1] # "d" THEN [d |-> Bad(d), t |-> None]
                           ELSE LET r == DesPairs(d, j[2], x, ents, opt) IN [d |-> r.d, t |-> <<"d", r.t>>]
    [] Kind(n) = "box" ->
         IF j[1] # "obj" THEN [d |-> Bad(d), t |-> None]
         ELSE LET y == x \o ".box"
                  c == ClassFor("Box", j[2], opt)
                  extra == DOMAIN j[2] \ ({"class"} \cup Range(PropsOf("Box")))
              IN IF c = "!" \/ (opt.strict /\ extra # {}) THEN [d |-> Bad(d), t |-> None]
                 ELSE LET r == DesProps(d, SelectSeq(PropsOf("Box"), LAMBDA m : m \in DOMAIN j[2]), j[2], y, ents, opt) IN
                      [d |-> [r.d EXCEPT !.st.objs = (y :> [c |-> "Box", v |-> r.t @@ Defaults("Box", y)]) @@ @], t |-> H(y)]
DesSeq(d, js, x, ents, opt) ==
  IF Len(js) = 0 THEN [d |-> d, t |-> <<>>]
  ELSE LET a == DesT(d, "nxt", js[1], x, ents, opt) b == DesSeq(a.d, Tail(js), x, ents, opt) IN [d |-> b.d, t |-> <<a.t>> \o b.t]
DesPairs(d, ps, x, ents, opt) ==
  IF Len(ps) = 0 THEN [d |-> d, t |-> <<>>]
  ELSE LET a == DesT(d, "nxt", ps[1][2], x, ents, opt) b == DesPairs(a.d, Tail(ps), x, ents, opt) IN [d |-> b.d, t |-> <<<<ps[1][1], a.t>>>> \o b.t]
DesProps(d, ns, ent, x, ents, opt) ==
  IF Len(ns) = 0 THEN [d |-> d, t |-> <<>>]
  ELSE LET a == DesT(d, ns[1], ent[ns[1]], x, ents, opt) b == DesProps(a.d, Tail(ns), ent, x, ents, opt) IN
       [d |-> b.d, t |-> IF a.t = None THEN b.t ELSE (ns[1] :> a.t) @@ b.t]
DesU(d, c, j, ents, opt) ==
  IF d.bad \/ j[1] # "s" THEN [d |-> Bad(d), t |-> None]
  ELSE LET u == j[2] R == RegOf(c) loaded == u \in DOMAIN d.st.reg[R] IN
  IF u \in DOMAIN d.done THEN [d |-> d, t |-> H(d.done[u])]
  ELSE IF loaded /\ u \notin DOMAIN ents THEN [d |-> d, t |-> H(d.st.reg[R][u])]
  ELSE IF loaded \/ u \notin DOMAIN ents THEN [d |-> Bad(d), t |-> None]
  ELSE LET ent == ents[u]
           nc == ClassFor(c, ent, opt)
           x == opt.pre \o u
           extra == DOMAIN ent \ ({"class"} \cup Range(PropsOf(nc)))
       IN IF nc = "!" THEN [d |-> Bad(d), t |-> None]
          ELSE IF opt.strict /\ extra # {} THEN [d |-> Bad(d), t |-> None]
          ELSE LET d1 == [d EXCEPT !.done = (u :> x) @@ @]
                   r == DesProps(d1, SelectSeq(PropsOf(nc), LAMBDA m : m \in DOMAIN ent), ent, x, ents, opt)
                   v == r.t @@ Defaults(nc, x)
               IN [d |-> [r.d EXCEPT !.st.objs = (x :> [c |-> nc, v |-> v]) @@ @, !.st.reg[R] = (u :> x) @@ @], t |-> H(x)]
\* the values of instance properties have the declared class
WellTyped(st) == \A x \in DOMAIN st.objs : \A n \in DOMAIN st.objs[x].v : OkVal(st, n, st.objs[x].v[n]) \/ n = "uid"
Required == {"val", "kids", "map", "tag", "num"}
\* every required value is set, here and below
ValidAll(st, x) == \A y \in Reach(st, x) : (Range(PropsOf(st.objs[y].c)) \cap Required) \subseteq DOMAIN st.objs[y].v
\* objects that validation visits: pointers holding instances included
Deser(st, e) ==
  LET f == st.slots[e.s]
      root == IF e.root # "" THEN e.root ELSE f.root
      opt == [tr |-> e.tr, strict |-> e.strict, pre |-> e.pre]
      r == DesU([st |-> st, done |-> <<>>, bad |-> FALSE], e.c, IF root = "none" THEN None ELSE Str(root), f.ents, opt)
      atonce == root \in DOMAIN st.reg[RegOf(e.c)] \/ root \notin DOMAIN f.ents
      failed == IF atonce THEN st ELSE [st EXCEPT !.taint = @ \cup DOMAIN f.ents]
  IN IF r.d.bad \/ ~WellTyped(r.d.st) THEN Er(failed, "ValueError")
     ELSE IF e.av /\ r.t[2] \notin DOMAIN st.objs /\ ~ValidAll(r.d.st, r.t[2]) THEN Er(failed, "ValueError")
     ELSE Ok(r.d.st, r.t)

-----------------------------------------------------------------------------
(* Changing a serialized graph *)
RECURSIVE Retag(_, _)
Ren(m, u) == IF u \in DOMAIN m THEN m[u] ELSE u
Retag(t, m) == CASE t[1] = "s" -> Str(Ren(m, t[2]))
                 [] t[1] = "l" -> <<"l", [j \in DOMAIN t[2] |-> Retag(t[2][j], m)]>>
                 [] t[1] = "d" -> <<"d", [j \in DOMAIN t[2] |-> <<t[2][j][1], Retag(t[2][j][2], m)>>]>>
                 [] t[1] = "obj" -> <<"obj", [n \in DOMAIN t[2] |-> Retag(t[2][n], m)]>>
                 [] OTHER -> t
Edit(f, e) ==
  CASE e.how = "drop" -> [f EXCEPT !.ents = Drop(@, {e.u})]
    [] e.how = "put" -> [f EXCEPT !.ents[e.u] = Put(@, e.n, e.v)]
    [] e.how = "cut" -> [f EXCEPT !.ents[e.u] = Drop(@, {e.n})]
    [] e.how = "root" -> [f EXCEPT !.root = e.u]
    [] e.how = "retag" -> [root |-> Ren(e.m, f.root),
                           ents |-> [w \in {Ren(e.m, u) : u \in DOMAIN f.ents} |->
                                       LET u == CHOOSE y \in DOMAIN f.ents : Ren(e.m, y) = w IN
                                       [n \in DOMAIN f.ents[u] |-> IF n = "class" THEN f.ents[u][n] ELSE Retag(f.ents[u][n], e.m)]]]

-----------------------------------------------------------------------------
Do(st, e) ==
  CASE e.op = "new" -> New(st, e)
    [] e.op = "set" -> SetP(st, e)
    [] e.op = "load" -> Ok(st, LET R == RegOf(e.c) IN IF e.u \in DOMAIN st.reg[R] THEN H(st.reg[R][e.u]) ELSE None)
    [] e.op = "ser" -> LET f == Flat(st, e.h, e.ic) IN Ok([st EXCEPT !.slots = (e.s :> f) @@ @], <<"flat", f.root, f.ents>>)
    [] e.op = "deser" -> Deser(st, e)
    [] e.op = "edit" -> Ok([st EXCEPT !.slots[e.s] = Edit(@, e)], None)
    [] e.op = "forget" -> Ok([st EXCEPT !.reg = [R \in DOMAIN @ |-> <<>>]], None)
    [] e.op = "validate" -> IF ValidAll(st, e.h) THEN Ok(st, <<"b", TRUE>>) ELSE Er(st, "ValueError")
    [] e.op = "copy" ->
         LET r == Deser([st EXCEPT !.slots = ("_" :> Flat(st, e.h, TRUE)) @@ @],
                        [s |-> "_", root |-> "", c |-> st.objs[e.h].c, tr |-> TRUE, strict |-> FALSE, av |-> FALSE, pre |-> e.pre])
         IN [r EXCEPT !.st.slots = st.slots]

Start(cfg) == [objs |-> <<>>, reg |-> [R \in {"R1", "R2"} |-> <<>>], slots |-> <<>>, taint |-> {}]
Agree(st, post) ==
  /\ DOMAIN st.objs = DOMAIN post.objs
  /\ \A x \in DOMAIN st.objs : st.objs[x].c = post.objs[x].c /\ DOMAIN st.objs[x].v = DOMAIN post.objs[x].v
                              /\ \A n \in DOMAIN st.objs[x].v : st.objs[x].v[n] = post.objs[x].v[n]
  /\ \A R \in {"R1", "R2"} : LET us == (DOMAIN st.reg[R] \cup DOMAIN post.reg[R]) \ st.taint IN
                             \A u \in us : u \in DOMAIN st.reg[R] /\ u \in DOMAIN post.reg[R] /\ st.reg[R][u] = post.reg[R][u]

-----------------------------------------------------------------------------
(* What is explored exhaustively *)
Configs == {[w |-> "uid"]}
Names == <<"x1", "x2", "x3">>
Ids == {"a", "b"}
Clean(us, st) == us \cap st.taint = {}
Ops(st) ==
  LET n == Cardinality({x \in DOMAIN st.objs : x \in Range(Names)})
      live == DOMAIN st.objs
      back == \E x \in live : x \notin Range(Names)
      ser == "s" \in DOMAIN st.slots
      kw(u) == <<<<"uid", Str(u)>>, <<"val", <<"i", 1>>>>>>
  IN (IF n < Len(Names) /\ ~ser
      THEN {[op |-> "new", x |-> Names[n + 1], c |-> c, kw |-> kw(u)] : c \in {"N", "M"}, u \in Ids \ st.taint}
           \cup {[op |-> "new", x |-> Names[n + 1], c |-> "N", kw |-> <<<<"uid", Str(u)>>, <<"val", Str("zz")>>>>] : u \in Ids \ st.taint}
           \cup {[op |-> "new", x |-> Names[n + 1], c |-> "N", kw |-> <<>>]}
      ELSE {})
     \cup (IF back THEN {} ELSE
       {[op |-> "set", h |-> x, n |-> "uid", v |-> Str(u), pre |-> ""] : x \in (IF ser THEN {} ELSE live), u \in (Ids \cup {"c"}) \ st.taint}
       \cup {[op |-> "set", h |-> x, n |-> "nxt", v |-> H(y), pre |-> ""] : x \in live, y \in live}
       \cup {[op |-> "set", h |-> x, n |-> "kids", v |-> <<"l", <<H(y), H(x)>>>>, pre |-> ""] : x \in live, y \in live})
     \cup (IF ser \/ n < 2 THEN {} ELSE {[op |-> "ser", h |-> x, s |-> "s", ic |-> TRUE] : x \in {y \in live : DistinctIds(st, UReach(st, y)) /\ Clean({CId(st, z) : z \in UReach(st, y)}, st)}})
     \cup (IF ser /\ DOMAIN st.reg["R1"] # {} THEN {[op |-> "forget"]} ELSE {})
     \cup (IF ser /\ ~back /\ Clean(DOMAIN st.slots["s"].ents, st)
           THEN {[op |-> "deser", c |-> "B", s |-> "s", root |-> r, tr |-> t, strict |-> FALSE, av |-> TRUE, pre |-> "y"] : t \in BOOLEAN, r \in {"", "c"}}
                \cup {[op |-> "edit", s |-> "s", how |-> "put", u |-> u, n |-> "val", v |-> <<"i", 99>>] :
                        u \in {w \in DOMAIN st.slots["s"].ents : "val" \in DOMAIN st.slots["s"].ents[w] /\ st.slots["s"].ents[w]["val"] # <<"i", 99>>}}
           ELSE {})
     \cup {[op |-> "load", c |-> "N", u |-> u] : u \in Ids \ st.taint}
Inv(st) ==
  /\ WellTyped(st)
  \* looking up the current id of an object gives the object, unless the registry was cleared or overtaken
  /\ (~("s" \in DOMAIN st.slots)) => \A x \in DOMAIN st.objs : st.reg["R1"][CId(st, x)] = x
  \* a serialized graph has exactly one entry per reachable object
  /\ \A x \in DOMAIN st.objs : DistinctIds(st, UReach(st, x)) =>
        LET f == Flat(st, x, TRUE) IN DOMAIN f.ents = {CId(st, y) : y \in UReach(st, x)} /\ f.root = CId(st, x)
  \* reading a serialized graph where its ids are free gives an isomorphic graph
  /\ \A x \in DOMAIN st.objs : DistinctIds(st, UReach(st, x)) =>
        LET f == Flat(st, x, TRUE)
            r == Deser([st EXCEPT !.reg["R1"] = <<>>, !.slots = ("t" :> f) @@ @],
                       [s |-> "t", root |-> "", c |-> "B", tr |-> TRUE, strict |-> TRUE, av |-> FALSE, pre |-> "z"])
            m == [y \in UReach(st, x) |-> "z" \o CId(st, y)]
            same(a, b) == CASE a[1] = "h" -> b[1] = "h" /\ (a[2] \in DOMAIN m => b[2] = m[a[2]])
                            [] a[1] = "l" -> b[1] = "l" /\ Len(a[2]) = Len(b[2]) /\ \A j \in DOMAIN a[2] : b[2][j] = H(m[a[2][j][2]])
                            [] OTHER -> a = b
        IN /\ r.ok /\ r.v = H(m[x])
           /\ \A y \in UReach(st, x) : /\ r.st.objs[m[y]].c = st.objs[y].c
                                       /\ DOMAIN r.st.objs[m[y]].v = DOMAIN st.objs[y].v
                                       /\ \A n \in DOMAIN st.objs[y].v : same(st.objs[y].v[n], r.st.objs[m[y]].v[n])
                                       /\ r.st.reg["R1"][CId(st, y)] = m[y]
=============================================================================
