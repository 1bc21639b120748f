------------------------------ MODULE HPExplore ------------------------------
(***************************************************************************)
(* Exhaustive exploration of the object machine.  A scenario gives a       *)
(* recorded prelude (class definitions, objects, listeners), the           *)
(* operations a client may perform afterwards, how many of them in a row,  *)
(* and which invariants to check.  Every transition is printed: the        *)
(* harness walks the printed graph with the real library.                  *)
(***************************************************************************)
EXTENDS HPTrace, TLCExt
VARIABLE hist

RECURSIVE Prelude(_, _, _)
Prelude(s, evs, j) == IF j > Len(evs) THEN s ELSE Prelude(Judge(s, evs[j], Step(s, evs[j])).st, evs, j + 1)

-----------------------------------------------------------------------------
(* Objects made on the way are forgotten when nothing refers to them, and   *)
(* otherwise get a name of their own                                        *)
RECURSIVE HsIn(_), Reach(_, _)
HsIn(t) == CASE Tag(t) = "h" -> {t[2]}
             [] Tag(t) \in {"l", "t", "S"} -> UNION {HsIn(t[3][j]) : j \in DOMAIN t[3]}
             [] Tag(t) = "d" -> UNION {HsIn(t[3][j][1]) \cup HsIn(t[3][j][2]) : j \in DOMAIN t[3]}
             [] OTHER -> {}
Reach(s, S) == LET T1 == S \cup UNION {UNION {HsIn(s.heap[h].v[n]) : n \in DOMAIN s.heap[h].v} : h \in S}
               IN IF T1 = S THEN S ELSE Reach(s, T1)
Settle(s0, s) ==
  LET chs == UNION {(IF s.ch[x].att THEN {} ELSE HsIn(s.ch[x].val)) : x \in DOMAIN s.ch}
      keep == Reach(s, (DOMAIN s0.heap \cap DOMAIN s.heap) \cup (chs \cap DOMAIN s.heap))
      old == {h \in keep : ~IsFresh(h)}
      new == SortStr({h \in keep : IsFresh(h)})
      free == SortStr({"y" \o ToString(n) : n \in 10..40} \ old)
      b == [h \in Range1(new) |-> free[CHOOSE j \in DOMAIN new : new[j] = h]]
      back(h) == IF h \in old THEN h ELSE CHOOSE x \in Range1(new) : b[x] = h
      names == old \cup {b[h] : h \in DOMAIN b}
      obj(o) == [c |-> o.c, v |-> [n \in DOMAIN o.v |-> Subst(o.v[n], b)]]
  IN [Clean(s) EXCEPT !.heap = [h \in names |-> obj(s.heap[back(h)])],
                      !.lis = [h \in {x \in names : back(x) \in DOMAIN s.lis} |-> s.lis[back(h)]],
                      !.ch = [x \in DOMAIN @ |-> [@[x] EXCEPT !.val = Subst(@, b)]]]

-----------------------------------------------------------------------------
(* What a client can ask for in a state *)
\* o: the open scopes, the innermost last
Enabled1(s, o, e) ==
  CASE e.op = "exit" -> Len(o) > 0 /\ o[Len(o)] = e.x
    [] e.op = "enter" -> e.x \notin DOMAIN s.ctx \/ Len(s.ctx[e.x]) < e.max
    [] e.op \in {"mut", "oper"} -> e.x \in DOMAIN s.ch
    [] e.op = "links" -> \A j \in DOMAIN e.ls : e.ls[j][1] \notin DOMAIN s.links
    [] e.op \in {"unlink", "relink"} -> \A j \in DOMAIN e.ks : e.ks[j] \in DOMAIN s.links
    [] e.op = "listen" -> IF e.h \in DOMAIN s.lis THEN ~\E j \in DOMAIN s.lis[e.h] : s.lis[e.h][j].id = <<"prog", e.lid>> ELSE TRUE
    [] e.op = "poke" -> LET v == Stored(s, e.h, e.n) IN Tag(v) \in {"l", "t", "S", "d"} /\ v[2] = e.v[2] /\ v # e.v
    [] e.op = "defclass" -> e.d.cid \notin DOMAIN s.cls /\ \A j \in DOMAIN e.d.bases : e.d.bases[j] \in DOMAIN s.cls
    [] e.op \in {"new", "deser", "registry", "doc", "props", "filter"} -> e.c \in DOMAIN s.cls
    [] OTHER -> TRUE

-----------------------------------------------------------------------------
(* Invariants, by name *)
RECURSIVE Nan(_)
Nan(t) == CASE Tag(t) = "nan" -> TRUE
            [] Tag(t) \in {"l", "t", "S"} -> \E j \in DOMAIN t[3] : Nan(t[3][j])
            [] Tag(t) = "d" -> \E j \in DOMAIN t[3] : Nan(t[3][j][1]) \/ Nan(t[3][j][2])
            [] Tag(t) = "c" -> Nan(t[2]) \/ Nan(t[3])
            [] Tag(t) = "a" -> \E j \in DOMAIN t[5] : Nan(t[5][j])
            [] OTHER -> FALSE
Objs(s) == {h \in DOMAIN s.heap : s.heap[h].c # "traits"}
StoredProps(s, h) == {n \in DOMAIN s.heap[h].v : HasProp(ClsOf(s, h), n) /\ ~IsUndefNone(s.heap[h].v[n])}
\* a stored value is one its property accepts, and accepts unchanged
Typed(s) == \A h \in Objs(s) : \A n \in StoredProps(s, h) :
              LET p == ClsOf(s, h).pm[n] v == s.heap[h].v[n] r == Validate(s, p, n, h, v)
              IN r.ok /\ (Nan(v) \/ EqualP(s, p, v, r.v, {}))
\* equality is reflexive (but for nan) and symmetric
EqLaw(s) == \A a \in Objs(s), b \in Objs(s) : InstEq(s, <<"h", a>>, <<"h", b>>, {}) = InstEq(s, <<"h", b>>, <<"h", a>>, {})
\* equality of objects is equality of class and values
EqDef(s) == \A a \in Objs(s), b \in Objs(s) :
  InstEq(s, <<"h", a>>, <<"h", b>>, {}) <=>
    \/ a = b
    \/ /\ s.heap[a].c = s.heap[b].c
       /\ \A j \in DOMAIN ClsOf(s, a).props :
            LET n == ClsOf(s, a).props[j][1] p == ClsOf(s, a).props[j][2] x == Stored(s, a, n) y == Stored(s, b, n) IN
            \/ p.k \in {"ren", "dyn"}
            \/ IsUndefNone(x) /\ IsUndefNone(y)
            \/ ~IsUndefNone(x) /\ ~IsUndefNone(y) /\ EqualP(s, p, x, y, {})
EqSelf(s) == \A a \in Objs(s) : (\E n \in DOMAIN s.heap[a].v : Nan(s.heap[a].v[n])) \/ InstEq(s, <<"h", a>>, <<"h", a>>, {})
\* what was serialized loads to an equal object
Round(s) == \A h \in Objs(s) : LET r == CopyObj(Clean(s), h, [ic |-> TRUE, dyn |-> FALSE, mk |-> ""], [tr |-> TRUE, strict |-> FALSE, av |-> FALSE, mk |-> ""])
                              IN IF r.ok THEN (\E n \in DOMAIN s.heap[h].v : Nan(s.heap[h].v[n])) \/ InstEq(r.st, <<"h", h>>, r.v, {})
                                 ELSE r.kind = "SelfReferenceError"
\* nothing is silenced outside all scopes
Scoped(s) == (\A x \in DOMAIN s.ctx : s.ctx[x] = <<>>) => s.q = {}
\* a tracked container reference that is attached is the stored container
Tracked(s) == \A x \in DOMAIN s.ch : s.ch[x].att => ~IsUndefNone(Stored(s, s.ch[x].h, s.ch[x].n))
Law(name, s) == CASE name = "typed" -> Typed(s) [] name = "eq" -> EqLaw(s) [] name = "eqdef" -> EqDef(s) [] name = "eqself" -> EqSelf(s) [] name = "round" -> Round(s)
                  [] name = "scoped" -> Scoped(s) [] name = "tracked" -> Tracked(s)
\* operations that only look never change an object
Looking == {"get", "equal", "ser", "registry", "doc", "props", "filter", "oper", "grab"}
\* a rejected assignment without observers changes nothing
StepLaw(name, s, e, r) ==
  CASE name = "pure" -> e.op \in Looking => \A h \in DOMAIN s.heap : r.st.heap[h] = s.heap[h]
    [] name = "atomic" -> e.op \in {"set", "del", "reset"} /\ ~r.ok => \A h \in DOMAIN s.heap : r.st.heap[h] = s.heap[h]
    [] name = "apart" -> e.op \in {"deser", "copy", "new"} => \A h \in DOMAIN s.heap : r.st.heap[h] = s.heap[h]

-----------------------------------------------------------------------------
Lawful(z, s) == \A n \in Range1(Sessions[z].laws) : Assert(Law(n, s), <<"Law", n, s>>)
EInit == k \in DOMAIN Sessions /\ i = -1 /\ st = InitState /\ out = <<>> /\ hist = <<>>
\* (with a parameter, like Next in HPTrace)
ENext(go) ==
  \/ /\ i = -1
     /\ st' = Prelude(InitState, Sessions[k].evs, 1)
     /\ i' = 0 /\ UNCHANGED <<k, out, hist>>
  \/ /\ i >= 0
     /\ Lawful(k, st)
     /\ i < Sessions[k].depth
     /\ \E j \in DOMAIN Sessions[k].ops :
          LET e == Sessions[k].ops[j] IN
          /\ Enabled1(st, out, e) = TRUE
          /\ LET r == Step(st, e) IN
             /\ \A n \in Range1(Sessions[k].steplaws) : Assert(StepLaw(n, st, e, r), <<"StepLaw", n, e>>)
             /\ st' = Settle(st, r.st)
             /\ i' = i + 1 /\ k' = k
             /\ out' = CASE e.op = "enter" -> Append(out, e.x) [] e.op = "exit" -> SubSeq(out, 1, Len(out) - 1) [] OTHER -> out
             /\ hist' = Append(hist, j)
             /\ PrintT(<<"X", k, TLCFP(<<st, out>>), j, TLCFP(<<st', out'>>)>>)
ESpec == EInit /\ [][\E go \in {TRUE} : ENext(go)]_<<k, i, st, out, hist>>
EView == <<k, i >= 0, st, out>>
=============================================================================
