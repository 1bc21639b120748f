-------------------------------- MODULE HPStep --------------------------------
(***************************************************************************)
(* One operation of a client of the library: Step(st, e) is the result the *)
(* specification prescribes for operation e in state st.                   *)
(***************************************************************************)
EXTENDS HPCont

Clean(st) == [st EXCEPT !.fires = <<>>, !.hooks = <<>>, !.warns = 0, !.fresh = 1, !.depth = 0, !.gv = {}]

FilterSplit(c, v, imm) ==
  LET isP(pr) == Tag(pr[1]) = "s" /\ HasProp(c, pr[1][2]) /\ (imm \/ IsMut(c.pm[pr[1][2]]) \/ c.pm[pr[1][2]].k = "ren")
  IN <<"t", "tuple", <<<<"d", "dict", SelectSeq(v[3], isP)>>, <<"d", "dict", SelectSeq(v[3], LAMBDA pr : ~isP(pr))>>>>>>

AddListener(st, h, l) == [st EXCEPT !.lis = PutV(@, h, (IF h \in DOMAIN @ THEN @[h] ELSE <<>>) \o <<l>>)]
\* a directional link k from a = <<h, n>> to b; opt = [now, chg, tr]
NewLink(st, k, a, b, opt) ==
  LET valid(x) == \/ x[1] \in DOMAIN st.heap /\ (ClsOf(st, x[1]).name = "traits" => x[2] \in {"a", "b"})
                     /\ (ClsOf(st, x[1]).name # "traits" => HasProp(ClsOf(st, x[1]), x[2]))
      s1 == [st EXCEPT !.links = (k :> [sh |-> a[1], sn |-> a[2], th |-> b[1], tn |-> b[2], tr |-> opt.tr, unl |-> FALSE, upd |-> FALSE]) @@ @]
  IN IF ~valid(a) \/ ~valid(b) \/ a = b THEN Er(st, "ValueError", <<>>)
     ELSE LET r == IF opt.now THEN DLink(s1, k) ELSE Ok(s1, None) IN
          IF ~r.ok THEN [r EXCEPT !.st.links = st.links]   \* the client gets no link
          ELSE Ok(AddListener(r.st, a[1], [id |-> <<"dlink", k>>, all |-> FALSE, names |-> <<a[2]>>, prog |-> <<>>,
                                           mode |-> IF ClsOf(st, a[1]).name = "traits" THEN "trait"
                                                    ELSE IF opt.chg THEN "observe_change" ELSE "observe_set"]), None)
RECURSIVE EachLink(_, _, _)
EachLink(st, ls, opt) == IF Len(ls) = 0 THEN Ok(st, None)
                         ELSE LET r == NewLink(st, ls[1][1], ls[1][2], ls[1][3], opt) IN
                              IF r.ok THEN EachLink(r.st, Tail(ls), opt) ELSE r
\* a link object that cannot be made links nothing, though some items may have been updated
NewLinks(st, ls, opt) == LET r == EachLink(st, ls, opt) IN IF r.ok THEN r ELSE [r EXCEPT !.st.links = st.links, !.st.lis = st.lis]
SetLinks(st, ks, b) == [st EXCEPT !.links = [k \in DOMAIN @ |-> IF Has(ks, k) THEN [@[k] EXCEPT !.unl = b] ELSE @[k]]]

(* one of the concrete results a serialization with an unspecified order allows *)
RECURSIVE Concrete(_)
Concrete(v) ==
  CASE Tag(v) = "perm" -> JList([i \in DOMAIN v[3] |-> Concrete(v[3][i])])
    [] Tag(v) = "l" -> <<"l", v[2], [i \in DOMAIN v[3] |-> Concrete(v[3][i])]>>
    [] Tag(v) = "d" -> <<"d", v[2], [i \in DOMAIN v[3] |-> <<v[3][i][1], Concrete(v[3][i][2])>>]>>
    [] OTHER -> v
Opt(e, f, d) == IF f \in DOMAIN e THEN e[f] ELSE d     \* an optional argument
CopyObj(st, h, fl, dl) ==
  LET r == SerObj(st, h, fl, {}) IN IF r.ok THEN DeserObj(r.st, st.heap[h].c, Concrete(r.v), dl) ELSE r

Step(st0, e) ==
  LET st == Clean(st0) IN
  CASE e.op = "defclass" -> DefClass(st, e.d)
    [] e.op = "new" -> NewObj(st, e.c, e.kw)
    [] e.op = "set" -> SetAttr(st, e.h, e.n, e.v)
    [] e.op = "get" -> GetAttr(st, e.h, e.n)
    [] e.op = "del" -> DelAttr(st, e.h, e.n)
    [] e.op = "reset" -> ResetP(st, e.h, e.n)
    [] e.op = "validate" -> ValidObj(st, e.h)
    [] e.op = "equal" -> Ok(st, <<"b", InstEq(st, e.a, e.b, {})>>)
    [] e.op = "ser" -> SerObj(st, e.h, [ic |-> e.ic, dyn |-> e.dyn, mk |-> Opt(e, "mk", "")], {})
    [] e.op = "deser" -> DeserObj(st, e.c, e.v, [tr |-> e.tr, strict |-> e.strict, av |-> e.av, mk |-> Opt(e, "mk", "")])
    [] e.op = "copy" -> CopyObj(st, e.h, [ic |-> Opt(e, "ic", TRUE), dyn |-> Opt(e, "dyn", FALSE), mk |-> Opt(e, "mk", "")],
                                [tr |-> Opt(e, "tr", TRUE), strict |-> Opt(e, "strict", FALSE), av |-> Opt(e, "av", FALSE), mk |-> Opt(e, "mk", "")])
    [] e.op = "enter" -> Ok([st EXCEPT !.q = QAdd(@, e.types), !.ctx = PutV(@, e.x, (IF e.x \in DOMAIN @ THEN @[e.x] ELSE <<>>) \o <<st.q>>)], None)
    [] e.op = "exit" -> LET s == st.ctx[e.x] IN
                        Ok([st EXCEPT !.q = s[Len(s)], !.ctx = PutV(@, e.x, SubSeq(s, 1, Len(s) - 1))], None)
    [] e.op = "listen" -> Ok(AddListener(st, e.h, [id |-> <<"prog", e.lid>>, mode |-> e.mode, all |-> FALSE,
                                names |-> IF e.all THEN [i \in DOMAIN ClsOf(st, e.h).props |-> ClsOf(st, e.h).props[i][1]] ELSE e.names,
                                prog |-> e.prog]), None)
    [] e.op = "poke" -> Ok([st EXCEPT !.heap[e.h].v = PutV(@, e.n, e.v)], None)
    [] e.op = "nop" -> Ok(st, None)
    [] e.op = "grab" -> GrabRef(st, e.x, e.h, e.n)
    [] e.op = "mut" -> MutRef(st, e.x, e.m, e.args, IF e.res.ok THEN e.res.v ELSE None)
    [] e.op = "aug" -> AugAttr(st, e.h, e.n, e.m, e.args)
    [] e.op = "oper" -> OperRef(st, e.x, e.m, e.args, e.y)
    [] e.op = "links" -> NewLinks(st, e.ls, [now |-> e.now, chg |-> e.chg, tr |-> e.tr])
    [] e.op = "unlink" -> Ok(SetLinks(st, e.ks, TRUE), None)
    [] e.op = "relink" -> Ok(SetLinks(st, e.ks, FALSE), None)
    [] e.op = "mktrait" -> Ok([st EXCEPT !.heap = ("#1" :> [c |-> "traits", v |-> [n \in {"a", "b"} |-> IntT(0)]]) @@ @, !.lis = ("#1" :> <<>>) @@ @], <<"h", "#1">>)
    [] e.op = "filter" -> Ok(st, FilterSplit(st.cls[e.c], e.v, e.imm))
    [] e.op = "props" -> Ok(st, <<"d", "dict", [i \in DOMAIN st.cls[e.c].props |->
                                     <<Str(st.cls[e.c].props[i][1]), Str(st.cls[e.c].docs[st.cls[e.c].props[i][1]])>>]>>)
    [] e.op = "doc" -> Ok(st, Str(st.cls[e.c].doc))
    [] e.op = "registry" -> Ok(st, <<"d", "dict", LET f == st.regs[st.cls[e.c].reg] ks == SetToSeq(DOMAIN f) IN
                                                 [i \in DOMAIN ks |-> <<Str(ks[i]), Str(f[ks[i]])>>]>>)
=============================================================================
