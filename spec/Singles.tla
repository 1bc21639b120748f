------------------------------ MODULE Singles ------------------------------
(***************************************************************************)
(* Singletons (properties.extras.Singleton).                               *)
(*                                                                         *)
(* A and its subclass A1 share the registry RA; C is a subclass of A with  *)
(* a registry of its own, RC; D (registry RD) declares no name property;   *)
(* E (registry RE) accepts the names x, y and z only.  Every class has the *)
(* integers v (optional) and q (required); A1 adds w, with default 7.  A   *)
(* holder has a property for an instance of A.                             *)
(*                                                                         *)
(* objs: object -> [c, id, v]; reg: registry -> id -> object; slots: a     *)
(* serialized object, key -> value; hold: what the holder holds.           *)
(***************************************************************************)
EXTENDS MiniBase

Registries == {"RA", "RC", "RD", "RE"}
RegOf(c) == CASE c \in {"A", "A1"} -> "RA" [] c = "C" -> "RC" [] c = "D" -> "RD" [] c = "E" -> "RE"
PropsOf(c) == CASE c \in {"A", "C", "E"} -> {"name", "v", "q"} [] c = "A1" -> {"name", "v", "q", "w"} [] c = "D" -> {"v", "q"}
Defaults(c) == IF c = "A1" THEN "w" :> Num(7) ELSE <<>>
Known(c) == IF c \in {"A", "A1"} THEN {"A", "A1"} ELSE {c}
OkName(c, t) == t[1] = "s" /\ (c = "E" => t[2] \in {"x", "y", "z"})
OkVal(c, n, t) == t = Undef \/ IF n = "name" THEN OkName(c, t) ELSE t[1] = "i"
IsA(c) == c \in {"A", "A1", "C"}

\* a new object, or the one the name denotes
Make(st, c, t, kw, x) ==
  LET R == RegOf(c) id == t[2] names == KwNames(kw)
      v0 == [n \in {m \in names : Kw(kw, m) # Undef} |-> Kw(kw, n)] @@ Drop(Defaults(c), names) @@ (IF c = "D" THEN <<>> ELSE "name" :> t)
  IN IF t[1] # "s" THEN Er(st, "ValueError")
     ELSE IF id \in DOMAIN st.reg[R] THEN Ok(st, H(st.reg[R][id]))
     ELSE IF c # "D" /\ ~OkName(c, t) THEN Er(st, "ValueError")
     ELSE IF \E n \in names \cap PropsOf(c) : ~OkVal(c, n, Kw(kw, n))
          THEN Er(st, IF names \subseteq PropsOf(c) THEN "ValueError" ELSE "any")
     ELSE IF ~(names \subseteq PropsOf(c)) THEN Er(st, "AttributeError")
     ELSE Ok([st EXCEPT !.objs = (x :> [c |-> c, id |-> id, v |-> v0]) @@ @, !.reg[R] = (id :> x) @@ @], H(x))

Valid(o) == "q" \in DOMAIN o.v /\ (o.c = "D" \/ "name" \in DOMAIN o.v) /\ (o.c = "A1" => "w" \in DOMAIN o.v)
Written(o, ic) == ("id" :> Str(o.id)) @@ (IF ic THEN "class" :> Str(o.c) ELSE <<>>) @@ o.v
ClassFor(c, f, tr, strict) ==
  LET n == IF "class" \in DOMAIN f /\ f["class"][1] = "s" THEN f["class"][2] ELSE "" IN
  IF n = "" \/ n = c THEN c ELSE IF tr /\ n \in Known(c) THEN n ELSE IF strict THEN "!" ELSE c
Read(st, f, e) ==
  LET named == "id" \in DOMAIN f \/ "name" \in DOMAIN f
      t == IF "id" \in DOMAIN f THEN f["id"] ELSE f["name"]
      R == RegOf(e.c)
      nc == ClassFor(e.c, f, e.tr, e.strict)
      keys == DOMAIN f \cap PropsOf(nc)
      newname == IF "name" \in DOMAIN f /\ f["name"] # Str("") THEN f["name"] ELSE t
      o == [c |-> nc, id |-> t[2],
            v |-> [n \in keys \ {"name"} |-> f[n]] @@ Defaults(nc) @@ (IF nc = "D" THEN <<>> ELSE "name" :> newname)]
  IN IF ~named THEN Er(st, "ValueError")
     ELSE IF t[2] \in DOMAIN st.reg[R] THEN Ok(st, H(st.reg[R][t[2]]))
     ELSE IF \/ nc = "!"
             \/ e.strict /\ ~(DOMAIN f \subseteq PropsOf(nc) \cup {"id", "class"})
             \/ \E n \in keys \ {"name"} : ~OkVal(nc, n, f[n])
             \/ nc # "D" /\ (~OkName(nc, t) \/ ~OkName(nc, newname))
             \/ e.av /\ ~Valid(o)
          THEN Er(st, "ValueError")
     ELSE Ok([st EXCEPT !.objs = (e.x :> o) @@ @, !.reg[R] = (t[2] :> e.x) @@ @], H(e.x))

Held(r) == IF r.ok THEN [r EXCEPT !.st.hold = r.v[2], !.v = None] ELSE r
Coerce(st, e) ==
  CASE e.v[1] = "h" -> IF IsA(st.objs[e.v[2]].c) THEN Ok([st EXCEPT !.hold = e.v[2]], None) ELSE Er(st, "ValueError")
    [] e.v[1] = "kw" -> LET kw == e.v[2] r == Make(st, "A", Kw(kw, "name"), SelectSeq(kw, LAMBDA p : p[1] # "name"), e.x) IN
                        IF r.ok THEN Held(r) ELSE Er(st, "ValueError")
    [] OTHER -> Held(Make(st, "A", e.v, <<>>, e.x))

Do(st, e) ==
  CASE e.op = "make" -> Make(st, e.c, e.id, e.kw, e.x)
    [] e.op = "set" -> LET o == st.objs[e.h] IN
                       IF ~OkVal(o.c, e.n, e.v) THEN Er(st, "ValueError")
                       ELSE Ok([st EXCEPT !.objs[e.h].v = IF e.v = Undef THEN Drop(@, {e.n}) ELSE Put(@, e.n, e.v)], None)
    [] e.op = "coerce" -> Coerce(st, e)
    [] e.op = "ser" -> LET f == Written(st.objs[e.h], e.ic) IN Ok([st EXCEPT !.slots = (e.s :> f) @@ @], <<"flat", f>>)
    [] e.op = "edit" -> Ok([st EXCEPT !.slots[e.s] = IF e.v = Undef THEN Drop(@, {e.n}) ELSE Put(@, e.n, e.v)], None)
    [] e.op = "deser" -> Read(st, st.slots[e.s], e)
    [] e.op = "copy" -> LET o == st.objs[e.h] IN Read(st, Written(o, TRUE), [c |-> o.c, tr |-> TRUE, strict |-> FALSE, av |-> FALSE, x |-> e.x])
    [] e.op = "validate" -> IF Valid(st.objs[e.h]) THEN Ok(st, <<"b", TRUE>>) ELSE Er(st, "ValueError")
    [] e.op = "forget" -> Ok([st EXCEPT !.reg[e.r] = <<>>], None)

Start(cfg) == [objs |-> <<>>, reg |-> [R \in Registries |-> <<>>], slots |-> <<>>, hold |-> ""]
Agree(st, post) ==
  /\ DOMAIN st.objs = DOMAIN post.objs
  /\ \A x \in DOMAIN st.objs : st.objs[x].c = post.objs[x].c /\ st.objs[x].id = post.objs[x].id /\ SameFun(st.objs[x].v, post.objs[x].v)
  /\ \A R \in Registries : SameFun(st.reg[R], post.reg[R])
  /\ st.hold = post.hold

-----------------------------------------------------------------------------
Configs == {[w |-> "singles"]}
Names == <<"o1", "o2", "o3", "o4", "o5", "o6", "o7", "o8">>
Ops(st) ==
  LET live == DOMAIN st.objs
      x == Names[Cardinality(live) + 1]
      ser == "s" \in DOMAIN st.slots
      ids == {Str("x"), Str("y")}
  IN {[op |-> "make", x |-> x, c |-> c, id |-> t, kw |-> kw, bykw |-> FALSE, extra |-> 0] :
        c \in {"A", "A1", "C", "D", "E"}, t \in {Str("x")}, kw \in {<<>>, <<<<"v", Num(1)>>, <<"q", Num(2)>>>>, <<<<"v", Str("zz")>>>>}}
     \cup {[op |-> "make", x |-> x, c |-> c, id |-> Str("y"), kw |-> <<>>, bykw |-> TRUE, extra |-> 0] : c \in {"A", "C"}}
     \cup {[op |-> "make", x |-> x, c |-> "E", id |-> Str("bad"), kw |-> <<>>, bykw |-> FALSE, extra |-> 0]}
     \cup {[op |-> "set", h |-> h, n |-> "name", v |-> v] : h \in {y \in live : st.objs[y].c # "D"}, v \in {Str("x"), Str("y"), Undef}}
     \cup {[op |-> "ser", h |-> h, s |-> "s", ic |-> TRUE] : h \in live}
     \cup (IF ser THEN {[op |-> "deser", c |-> c, s |-> "s", tr |-> tr, strict |-> FALSE, av |-> av, x |-> x] :
                          c \in {"A", "C", "D"}, tr \in BOOLEAN, av \in BOOLEAN}
                       \cup {[op |-> "edit", s |-> "s", n |-> "id", v |-> Undef], [op |-> "edit", s |-> "s", n |-> "v", v |-> Str("zz")]}
                       \cup {[op |-> "forget", r |-> R] : R \in {"RA", "RD"}}
           ELSE {})
     \cup {[op |-> "coerce", x |-> x, v |-> v] : v \in {Str("x"), <<"kw", <<<<"name", Str("y")>>, <<"v", Num(3)>>>>>>}}
Inv(st) ==
  \* a registered name denotes an object with that identifying name, made by a class of the registry
  /\ \A R \in Registries : \A id \in DOMAIN st.reg[R] : LET o == st.objs[st.reg[R][id]] IN o.id = id /\ RegOf(o.c) = R
  \* two objects of one registry have different identifying names, unless the registry was cleared
  /\ ("s" \notin DOMAIN st.slots) => \A x, y \in DOMAIN st.objs : (x # y /\ RegOf(st.objs[x].c) = RegOf(st.objs[y].c)) => st.objs[x].id # st.objs[y].id
  /\ ("s" \notin DOMAIN st.slots) => \A x \in DOMAIN st.objs : st.reg[RegOf(st.objs[x].c)][st.objs[x].id] = x
  \* an object denoted by its name is what reading back its serialization gives
  /\ \A x \in DOMAIN st.objs : LET o == st.objs[x] R == RegOf(o.c) IN
        (o.id \in DOMAIN st.reg[R] /\ st.reg[R][o.id] = x) =>
           Read(st, Written(o, TRUE), [c |-> o.c, tr |-> FALSE, strict |-> TRUE, av |-> FALSE, x |-> "new"]) = Ok(st, H(x))
  \* and where the name is free, an equal object with the same identifying name
  /\ \A x \in DOMAIN st.objs : LET o == st.objs[x]
                                   s2 == [st EXCEPT !.reg = [R \in Registries |-> <<>>]]
                                   r == Read(s2, Written(o, TRUE), [c |-> o.c, tr |-> FALSE, strict |-> TRUE, av |-> FALSE, x |-> "new"])
                               IN ("name" \in DOMAIN o.v \/ o.c = "D") => r.ok /\ r.st.objs["new"] = o
=============================================================================
