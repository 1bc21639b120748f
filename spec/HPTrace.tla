------------------------------- MODULE HPTrace -------------------------------
(***************************************************************************)
(* Conformance: recorded executions of the library against HPStep.         *)
(* Each input line is a session [id, evs]; each event carries the          *)
(* operation, what it returned or raised (res), the listener firings,      *)
(* hook calls and warnings it caused, and the objects that changed (post). *)
(***************************************************************************)
EXTENDS HPStep, Json, IOUtils

Sessions == ndJsonDeserialize(IOEnv.TRACE)

-----------------------------------------------------------------------------
(* Matching prescribed terms (with fresh objects #1, #2 ...) to observed ones *)
Yes(b) == [ok |-> TRUE, b |-> b]
No(b)  == [ok |-> FALSE, b |-> b]
IsFresh(x) == Len(x) > 0 /\ Ch(x, 1) = "#"
MatchH(x, o, b, known) ==
  IF IsFresh(x) THEN IF x \in DOMAIN b THEN (IF b[x] = o THEN Yes(b) ELSE No(b))
                     ELSE IF o = "" \/ o \in known \/ \E y \in DOMAIN b : b[y] = o THEN No(b) ELSE Yes((x :> o) @@ b)
  ELSE IF x = o THEN Yes(b) ELSE No(b)
RECURSIVE MatchT(_, _, _, _), MatchSeq(_, _, _, _), MatchBag(_, _, _, _), MatchPairs(_, _, _, _)
MatchT(x, o, b, known) ==
  CASE Tag(x) = "any" -> Yes(b)
    [] Tag(x) = "anyf" -> IF Tag(o) \in {"f", "fx"} THEN Yes(b) ELSE No(b)
    [] Tag(x) = "anyuuid" -> IF Tag(o) = "uuid" THEN Yes(b) ELSE No(b)
    [] Tag(x) = "anystr" -> IF Tag(o) = "s" THEN Yes(b) ELSE No(b)
    [] Tag(x) = "anycolor" -> IF Tag(o) = "t" /\ Len(o[3]) = 3 /\ \A i \in 1..3 : Tag(o[3][i]) = "i" /\ o[3][i][2] \in 0..255 THEN Yes(b) ELSE No(b)
    [] Tag(x) = "perm" -> IF Tag(o) = "l" /\ Len(o[3]) = Len(x[3]) THEN MatchBag(x[3], o[3], b, known) ELSE No(b)
    [] Tag(x) # Tag(o) -> No(b)
    [] Tag(x) = "h" -> MatchH(x[2], o[2], b, known)
    [] Tag(x) \in {"l", "t"} -> IF (x[2] = "any" \/ x[2] = o[2]) /\ Len(x[3]) = Len(o[3]) THEN MatchSeq(x[3], o[3], b, known) ELSE No(b)
    [] Tag(x) = "S" -> IF (x[2] = "any" \/ x[2] = o[2]) /\ Len(x[3]) = Len(o[3]) THEN MatchBag(x[3], o[3], b, known) ELSE No(b)
    [] Tag(x) = "d" -> IF (x[2] = "any" \/ x[2] = o[2]) /\ Len(x[3]) = Len(o[3]) THEN MatchPairs(x[3], o[3], b, known) ELSE No(b)
    [] Tag(x) = "a" -> IF x[2] = o[2] /\ x[3] = o[3] /\ x[4] = o[4] THEN MatchSeq(x[5], o[5], b, known) ELSE No(b)
    [] OTHER -> IF x = o THEN Yes(b) ELSE No(b)
MatchSeq(xs, os, b, known) ==
  IF Len(xs) = 0 THEN Yes(b)
  ELSE LET m == MatchT(xs[1], os[1], b, known) IN IF m.ok THEN MatchSeq(Tail(xs), Tail(os), m.b, known) ELSE m
MatchBag(xs, os, b, known) ==
  IF Len(xs) = 0 THEN Yes(b)
  ELSE LET js == {j \in DOMAIN os : MatchT(xs[1], os[j], b, known).ok} IN
       IF js = {} THEN No(b)
       ELSE LET j == CHOOSE n \in js : \A n2 \in js : n <= n2 IN
            MatchBag(Tail(xs), RemoveAt(os, j), MatchT(xs[1], os[j], b, known).b, known)
MatchPairs(xs, os, b, known) ==
  IF Len(xs) = 0 THEN Yes(b)
  ELSE LET js == {j \in DOMAIN os : MatchSeq(xs[1], os[j], b, known).ok} IN
       IF js = {} THEN No(b)
       ELSE LET j == CHOOSE n \in js : \A n2 \in js : n <= n2 IN
            MatchPairs(Tail(xs), RemoveAt(os, j), MatchSeq(xs[1], os[j], b, known).b, known)

\* error entries <<reason, property, object>>, in any order
MatchTup(x, o, b, known) == IF x[1] = o[1] /\ x[2] = o[2] THEN MatchH(x[3], o[3], b, known) ELSE No(b)
RECURSIVE MatchTups(_, _, _, _), MatchFires(_, _, _, _), MatchHooks(_, _, _, _)
MatchTups(xs, os, b, known) ==
  IF Len(xs) # Len(os) THEN No(b)
  ELSE IF Len(xs) = 0 THEN Yes(b)
  ELSE LET js == {j \in DOMAIN os : MatchTup(xs[1], os[j], b, known).ok} IN
       IF js = {} THEN No(b)
       ELSE LET j == CHOOSE n \in js : \A n2 \in js : n <= n2 IN
            MatchTups(Tail(xs), RemoveAt(os, j), MatchTup(xs[1], os[j], b, known).b, known)
\* firings <<listener, object, name, mode, previous, value>>, in order
MatchFires(xs, os, b, known) ==
  IF Len(xs) # Len(os) THEN No(b)
  ELSE IF Len(xs) = 0 THEN Yes(b)
  ELSE LET x == xs[1] o == os[1] m1 == MatchH(x[2], o[2], b, known) IN
       IF x[1] # o[1] \/ x[3] # o[3] \/ x[4] # o[4] \/ ~m1.ok THEN No(b)
       ELSE LET m2 == MatchT(x[5], o[5], m1.b, known) IN
            IF ~m2.ok THEN m2
            ELSE LET m3 == MatchT(x[6], o[6], m2.b, known) IN
                 IF m3.ok THEN MatchFires(Tail(xs), Tail(os), m3.b, known) ELSE m3
\* what each object's hook last received
LastHooks(hs) == SelectSeq([i \in DOMAIN hs |-> IF \E j \in (i + 1)..Len(hs) : hs[j][1] = hs[i][1] THEN <<>> ELSE hs[i]], LAMBDA x : x # <<>>)
MatchHooks(xs, os, b, known) ==
  IF Len(xs) # Len(os) THEN No(b)
  ELSE IF Len(xs) = 0 THEN Yes(b)
  ELSE LET good(j) == LET m == MatchH(xs[1][1], os[j][1], b, known) IN
                      IF m.ok THEN MatchTups(xs[1][2], os[j][2], m.b, known) ELSE m
           js == {j \in DOMAIN os : good(j).ok}
       IN IF js = {} THEN No(b) ELSE LET j == CHOOSE n \in js : \A n2 \in js : n <= n2 IN
                                     MatchHooks(Tail(xs), RemoveAt(os, j), good(j).b, known)

\* stored values of one object: model record x, observed record o
RECURSIVE MatchVals(_, _, _, _, _)
MatchVals(ns, x, o, b, known) ==
  IF Len(ns) = 0 THEN Yes(b)
  ELSE LET n == ns[1]
           xv == IF n \in DOMAIN x THEN x[n] ELSE Undef
           ov == IF n \in DOMAIN o THEN o[n] ELSE None
           m == IF IsUndefNone(xv) \/ IsUndefNone(ov) THEN (IF IsUndefNone(xv) /\ IsUndefNone(ov) THEN Yes(b) ELSE No(b))
                ELSE MatchT(xv, ov, b, known)
       IN IF m.ok THEN MatchVals(Tail(ns), x, o, m.b, known) ELSE m
MatchObj(x, o, b, known) ==
  IF x.c # o.c THEN No(b) ELSE MatchVals(SetToSeq(DOMAIN x.v \cup DOMAIN o.v), x.v, o.v, b, known)
RECURSIVE MatchHeap(_, _, _, _, _)
\* hs: pairs <<model handle, observed handle>> still to compare
MatchHeap(hs, mh, oh, b, known) ==
  IF Len(hs) = 0 THEN Yes(b)
  ELSE LET x == hs[1][1] y == hs[1][2]
           m == IF y \notin DOMAIN oh \/ x \notin DOMAIN mh THEN No(b) ELSE MatchObj(mh[x], oh[y], b, known)
           new == SetToSeq({<<z, m.b[z]>> : z \in (DOMAIN m.b) \ (DOMAIN b)})
       IN IF m.ok THEN MatchHeap(Tail(hs) \o new, mh, oh, m.b, known) ELSE m

-----------------------------------------------------------------------------
Rn(b, h) == IF h \in DOMAIN b THEN b[h] ELSE h
RECURSIVE Subst(_, _)
Subst(t, b) == CASE Tag(t) = "h" -> <<"h", Rn(b, t[2])>>
                 [] Tag(t) \in {"l", "t", "S"} -> <<t[1], t[2], [i \in DOMAIN t[3] |-> Subst(t[3][i], b)]>>
                 [] Tag(t) = "d" -> <<t[1], t[2], [i \in DOMAIN t[3] |-> <<Subst(t[3][i][1], b), Subst(t[3][i][2], b)>>]>>
                 [] OTHER -> t

NoValue == {"set", "del", "reset", "enter", "exit", "listen", "poke", "nop", "grab", "aug", "links", "unlink", "relink", "defclass"}
\* the verdict on event e: [bad: set of failed clauses, st: next state]
Judge(st, e, r) ==
  LET known == DOMAIN st.heap
      oh == e.post @@ st.heap
      vok == r.ok /\ e.res.ok
      m1 == IF vok /\ e.op \notin NoValue
            THEN (IF r.v = Self THEN (IF e.res.v = Self THEN Yes(EmptyFn) ELSE No(EmptyFn)) ELSE MatchT(r.v, e.res.v, EmptyFn, known))
            ELSE Yes(EmptyFn)
      m2 == MatchFires(r.st.fires, e.fires, m1.b, known)
      isVE == ~r.ok /\ ~e.res.ok /\ e.op # "defclass" /\ r.kind \in VEKinds
      m3 == IF isVE THEN MatchTups(r.tups, e.res.tups, m2.b, known) ELSE Yes(m2.b)
      m4 == IF ~r.ok /\ ~e.res.ok THEN MatchHooks(LastHooks(r.st.hooks), LastHooks(e.hooks), m3.b, known) ELSE Yes(m3.b)
      start == SetToSeq({<<h, h>> : h \in known} \cup {<<x, m4.b[x]>> : x \in DOMAIN m4.b})
      m5 == MatchHeap(start, r.st.heap, oh, m4.b, known)
      kindok == r.ok \/ e.res.ok \/ (IF e.op = "defclass" THEN \E i \in DOMAIN e.res.kinds : e.res.kinds[i] \in r.v
                ELSE r.kind = "other" \/ Has(e.res.kinds, r.kind) \/ (r.kind = "TypeError|ValueError" /\ (Has(e.res.kinds, "TypeError") \/ Has(e.res.kinds, "ValueError"))))
      ch1 == r.st.ch
      contok == \A x \in DOMAIN ch1 : x \in DOMAIN e.cont =>
                   /\ ch1[x].att = e.cont[x].att
                   /\ MatchT(IF ch1[x].att THEN Stored(r.st, ch1[x].h, ch1[x].n) ELSE ch1[x].val, e.cont[x].val, m5.b, known).ok
      bad == (IF r.ok = e.res.ok THEN {} ELSE {"ok"}) \cup (IF kindok THEN {} ELSE {"kind"})
             \cup (IF m1.ok THEN {} ELSE {"value"}) \cup (IF m2.ok THEN {} ELSE {"fires"}) \cup (IF m3.ok THEN {} ELSE {"tups"})
             \cup (IF m4.ok THEN {} ELSE {"hooks"}) \cup (IF m5.ok THEN {} ELSE {"heap"})
             \cup (IF e.warns < 0 \/ (e.warns > 0) = (r.st.warns > 0) THEN {} ELSE {"warns"})
             \cup (IF e.argsame THEN {} ELSE {"args"}) \cup (IF contok THEN {} ELSE {"cont"})
      bnd == m5.b
      back == [y \in {bnd[x] : x \in DOMAIN bnd} |-> CHOOSE x \in DOMAIN bnd : bnd[x] = y]
      adopt(h) == LET x == IF h \in DOMAIN back THEN back[h] ELSE h
                      ov == oh[h].v
                      mv == IF x \in DOMAIN r.st.heap THEN r.st.heap[x].v ELSE ov
                      keep(n) == IF n \in DOMAIN mv /\ IsUndefNone(mv[n]) THEN mv[n] ELSE ov[n]
                      ns == {n \in DOMAIN mv \cup DOMAIN ov : \/ n \in DOMAIN mv
                                                              \/ n \in DOMAIN ov /\ ~IsUndefNone(ov[n])}
                  IN [c |-> oh[h].c, v |-> [n \in {m \in ns : m \in DOMAIN ov \/ IsUndefNone(mv[m])} |-> keep(n)]]
      st2 == [r.st EXCEPT !.heap = [h \in DOMAIN oh |-> adopt(h)], !.fires = <<>>, !.hooks = <<>>, !.warns = 0, !.gv = {},
                          !.lis = [h \in {Rn(bnd, x) : x \in DOMAIN @} |-> r.st.lis[IF h \in DOMAIN back THEN back[h] ELSE h]],
                          !.ch = [x \in DOMAIN @ |-> [@[x] EXCEPT !.val = Subst(@, bnd)]]]
  IN [bad |-> bad, st |-> st2]

-----------------------------------------------------------------------------
VARIABLES k, i, st, out
vars == <<k, i, st, out>>
Init == k = 1 /\ i = 1 /\ st = InitState /\ out = <<>>
Brief(r) == [ok |-> r.ok, kind |-> ToString(IF r.kind = "" THEN r.v ELSE r.kind), v |-> ToString(r.v), tups |-> ToString(r.tups),
             fires |-> ToString(r.st.fires), hooks |-> ToString(r.st.hooks), warns |-> r.st.warns,
             heap |-> ToString(r.st.heap), ch |-> ToString(r.st.ch)]
\* clauses that leave the specification's state in step with the library's
Soft == {"tups", "hooks", "fires", "warns", "args", "kind", "value"}
Flush == k' > Len(Sessions) => JsonSerialize(IOEnv.VERDICT, [done |-> TRUE, bad |-> out'])
\* (TLC looks through every definition without parameters for constants at startup, at a cost exponential in the depth of calls:
\* the definitions that lead to the whole machine have a parameter)
Next(go) ==
  /\ k <= Len(Sessions)
  /\ IF i = 1 THEN PrintT(<<"AT", k>>) ELSE TRUE
  /\ LET s == Sessions[k] IN
     IF i > Len(s.evs)
     THEN k' = k + 1 /\ i' = 1 /\ st' = InitState /\ out' = out
     ELSE LET e == s.evs[i]
              r == Step(st, e)
              j == Judge(st, e, r)
              rel == j.bad \cap Range1(s.scope)
              note == [id |-> s.id, at |-> i, clauses |-> SetToSeq(j.bad), relevant |-> SetToSeq(rel), want |-> Brief(r)]
          IN IF j.bad = {} \/ (rel = {} /\ j.bad \subseteq Soft)
             THEN k' = k /\ i' = i + 1 /\ st' = j.st /\ out' = IF j.bad = {} THEN out ELSE Append(out, note)
             ELSE k' = k + 1 /\ i' = 1 /\ st' = InitState /\ out' = Append(out, note)
  /\ Flush
Spec == Init /\ [][\E go \in {TRUE} : Next(go)]_vars
View == <<k, i>>
=============================================================================
