------------------------------- MODULE HPClass -------------------------------
(***************************************************************************)
(* Class definition: method resolution order, which declaration of a name  *)
(* governs, observers and class validators, registries, class-level        *)
(* defaults, documentation.                                                *)
(*                                                                         *)
(* A definition d is a record                                              *)
(*   cid, name, bases (class ids), newreg, docpriv, docorder, doc          *)
(*   body: <<kind, name, payload, doc>> in order, kind in                  *)
(*         prop (payload: descriptor)   obs ([lid,mode,all,names,prog])    *)
(*         cv ([lid, prog])             plain                              *)
(*   dflts: <<name, default spec>> pairs                                   *)
(***************************************************************************)
EXTENDS HPCore

-----------------------------------------------------------------------------
(* C3 linearization *)
RECURSIVE C3Merge(_)
C3Merge(seqs0) ==
  LET seqs == SelectSeq(seqs0, LAMBDA s : Len(s) > 0) IN
  IF Len(seqs) = 0 THEN <<>>
  ELSE LET good(c) == \A i \in DOMAIN seqs : ~\E j \in 2..Len(seqs[i]) : seqs[i][j] = c
           is == {i \in DOMAIN seqs : good(seqs[i][1])}
       IN IF is = {} THEN <<"!">>
          ELSE LET c == seqs[CHOOSE i \in is : \A j \in is : i <= j][1]
                   rest == C3Merge([i \in DOMAIN seqs |-> IF seqs[i][1] = c THEN Tail(seqs[i]) ELSE seqs[i]])
               IN IF Len(rest) = 1 /\ rest[1] = "!" THEN rest ELSE <<c>> \o rest
MroTail(st, bases) == C3Merge([i \in DOMAIN bases |-> st.cls[bases[i]].mro] \o <<bases>>)

-----------------------------------------------------------------------------
SortStr(S) == SetToSortSeq(S, StrLess)

-----------------------------------------------------------------------------
(* Documentation text *)
RECURSIVE Repr(_)
ReprSeq(s) == JoinS([i \in DOMAIN s |-> Repr(s[i])], ", ")
Repr(v) == CASE Tag(v) = "none" -> "None"
             [] Tag(v) = "b" -> IF v[2] THEN "True" ELSE "False"
             [] Tag(v) = "i" -> ToString(v[2])
             [] Tag(v) = "f" -> FmtFloat(v[2])
             [] Tag(v) = "s" -> "'" \o v[2] \o "'"
             [] Tag(v) = "l" -> "[" \o ReprSeq(v[3]) \o "]"
             [] Tag(v) = "t" -> "(" \o ReprSeq(v[3]) \o (IF Len(v[3]) = 1 THEN ",)" ELSE ")")
             [] Tag(v) = "S" -> "{" \o ReprSeq(v[3]) \o "}"
             [] Tag(v) = "d" -> "{" \o JoinS([i \in DOMAIN v[3] |-> Repr(v[3][i][1]) \o ": " \o Repr(v[3][i][2])], ", ") \o "}"
             [] OTHER -> "?"
StrOf(v) == IF Tag(v) = "s" THEN v[2] ELSE Repr(v)
TypeName(v) == CASE Tag(v) = "b" -> "bool" [] Tag(v) = "i" -> "int" [] Tag(v) = "f" -> "float" [] Tag(v) = "s" -> "str"
                 [] Tag(v) \in {"l", "t", "S", "d", "a"} -> v[2] [] Tag(v) = "c" -> "complex" [] Tag(v) = "I" -> "int"
                 [] Tag(v) \in {"nan", "inf"} -> "float" [] Tag(v) = "dt" -> "datetime"
                 [] Tag(v) = "npi" -> "int64" [] Tag(v) = "npf" -> "float64" [] Tag(v) = "npb" -> "bool_" [] OTHER -> "?"
DefaultText(p) ==
  LET d == PDefault(p)
      txt == IF d[1] = "val" THEN StrOf(d[2]) ELSE IF d[1] = "cls" THEN "new instance of " \o d[2]
             ELSE "new instance of " \o TypeName(d[2])
  IN IF d = Undef \/ p.k = "uuid" THEN ""
     ELSE IF d[1] # "cls" /\ (d[2] = None \/ (Tag(d[2]) = "s" /\ d[1] = "val" /\ d[2][2] = "") \/ (Tag(d[2]) = "s" /\ Len(d[2][2]) = 0)
                              \/ (Tag(d[2]) \in {"l", "t", "S", "d"} /\ Len(d[2][3]) = 0)) THEN ""
     ELSE ", Default: " \o txt
TypeTitle == [prop |-> "Property", gettable |-> "GettableProperty", bool |-> "Boolean", int |-> "Integer", float |-> "Float",
              complex |-> "Complex", str |-> "String", url |-> "URL", choice |-> "StringChoice", color |-> "Color",
              datetime |-> "DateTime", uuid |-> "Uuid", tuple |-> "Tuple", list |-> "List", set |-> "Set", dict |-> "Dictionary",
              array |-> "Array", vec3 |-> "Vector3", vec2 |-> "Vector2", vec3a |-> "Vector3Array", vec2a |-> "Vector2Array",
              file |-> "File"]
ContInfo(k) == CASE k = "tuple" -> "a tuple" [] k = "list" -> "a list" [] k = "set" -> "a set" [] OTHER -> "a dictionary"
RegexText(rx) == CASE rx[1] = "has" -> rx[2] [] rx[1] = "pre" -> "^" \o rx[2]
                   [] rx[1] = "full" -> "^[" \o rx[2] \o "]+$" [] OTHER -> "[" \o rx[2] \o "]"
ShapeText(shp) == "(" \o JoinS([i \in DOMAIN shp |-> IF shp[i] = -1 THEN "\\*" ELSE ToString(shp[i])], ", ") \o ")"
RECURSIVE Info(_), SphinxClass(_, _)
Info(p) ==
  CASE p.k \in {"prop", "gettable", "ren"} -> ""
    [] p.k = "bool" -> "a boolean"
    [] p.k \in {"int", "float"} ->
         LET b == IF p.k = "int" THEN "an integer" ELSE "a float" IN
         IF p.min = None /\ p.max = None THEN b
         ELSE b \o " in range [" \o (IF p.min = None THEN "-inf" ELSE Repr(p.min)) \o ", " \o (IF p.max = None THEN "inf" ELSE Repr(p.max)) \o "]"
    [] p.k = "complex" -> "a complex number"
    [] p.k = "str" -> "a unicode string" \o (IF p.regex[1] = "none" THEN "" ELSE " that matches pattern \"" \o RegexText(p.regex) \o "\"")
    [] p.k = "url" -> "a URL string" \o (IF p.rmp THEN ", path or query params removed" ELSE "") \o (IF p.rmf THEN ", fragment removed" ELSE "")
    [] p.k = "choice" ->
         LET cs == [i \in DOMAIN p.choices |-> "\"" \o p.choices[i][1] \o "\"" \o
                      (IF p.descs = <<>> THEN "" ELSE " (" \o p.descs[i] \o ")")] IN
         IF Len(cs) = 2 THEN "either " \o cs[1] \o " or " \o cs[2] ELSE "any of " \o JoinS(cs, ", ")
    [] p.k = "color" -> "a color"
    [] p.k = "datetime" -> "a datetime object"
    [] p.k = "own" -> "a label"
    [] p.k = "uuid" -> "a unique ID auto-generated with uuid.uuid4()"
    [] p.k \in {"tuple", "list", "set"} ->
         LET it == ContInfo(p.k) \o (IF Info(p.prop) = "" THEN "" ELSE " (each item is " \o Info(p.prop) \o ")") IN
         IF p.minl < 0 /\ p.maxl < 0 THEN it
         ELSE it \o " with " \o (IF p.maxl < 0 THEN "length >= " \o ToString(p.minl)
                                 ELSE IF p.maxl = p.minl THEN "length of " \o ToString(p.minl)
                                 ELSE "length between " \o (IF p.minl < 0 THEN "0" ELSE ToString(p.minl)) \o " and " \o ToString(p.maxl))
    [] p.k = "dict" ->
         LET a == Info(p.kprop) b == Info(p.vprop) IN
         "a dictionary" \o (IF a # "" /\ b # "" THEN " (keys: " \o a \o "; values: " \o b \o ")"
                            ELSE IF a # "" THEN " (keys: " \o a \o ")" ELSE IF b # "" THEN " (values: " \o b \o ")" ELSE "")
    [] p.k = "inst" -> "an instance of " \o p.cls
    [] p.k = "union" -> JoinS([i \in DOMAIN p.props |-> IF Info(p.props[i]) = "" THEN "any value" ELSE Info(p.props[i])], " or ")
    [] p.k = "dyn" -> Info(p.prop) \o " created dynamically"
    [] p.k \in {"array", "vec3", "vec2", "vec3a", "vec2a"} ->
         (CASE p.k = "array" -> "a list or numpy array" [] p.k = "vec3" -> "a 3D Vector" [] p.k = "vec2" -> "a 2D Vector"
            [] p.k = "vec3a" -> "a list of Vector3" [] OTHER -> "a list of Vector2")
         \o " of " \o JoinS([i \in DOMAIN p.dtype |-> "<class '" \o p.dtype[i] \o "'>"], ", ") \o " with "
         \o (IF p.shape = <<>> THEN "any shape" ELSE "shape " \o JoinS([i \in DOMAIN p.shape |-> ShapeText(p.shape[i])], " or "))
    [] OTHER -> "?"
\* pre: text that enclosing containers put in front of each class reference
SphinxClass(p, pre) ==
  CASE p.k \in {"tuple", "list", "set"} -> SphinxClass(p.prop, ContInfo(p.k) \o " of " \o pre)
    [] p.k = "own" -> pre \o ":class:`Label <m.Label>`"
    [] p.k = "inst" -> pre \o ":class:`" \o p.cls \o " <m." \o p.cls \o ">`"
    [] p.k = "union" -> JoinS([i \in DOMAIN p.props |-> SphinxClass(p.props[i], pre)], ", ")
    [] p.k = "dyn" -> "dynamic " \o SphinxClass(p.prop, pre)
    [] p.k = "ren" -> ""
    [] OTHER -> pre \o ":class:`" \o TypeTitle[p.k] \o " <properties." \o TypeTitle[p.k] \o ">`"
PropText(nm, p, doc) ==
  LET sc == SphinxClass(p, "") inf == Info(p) IN
  "**" \o nm \o "**" \o (IF sc = "" THEN "" ELSE " (" \o sc \o ")") \o ": " \o doc \o (IF inf = "" THEN "" ELSE ", " \o inf)
  \o (IF IsMut(p) THEN DefaultText(p) ELSE "")
Nl == "\n"
Section(title, ls) == IF ls = <<>> THEN "" ELSE Nl \o Nl \o "**" \o title \o " Properties:**" \o Nl \o Nl \o JoinS(ls, Nl)
DocText(c, own) ==
  LET line(nm) == "* " \o PropText(nm, c.pm[nm], c.docs[nm])
      pick(Q(_)) == LET ns == SelectSeq(c.docorder, Q) IN [i \in DOMAIN ns |-> line(ns[i])]
      priv(nm) == Ch(nm, 1) = "_"
  IN own \o Section("Required", pick(LAMBDA nm : ~priv(nm) /\ IsMut(c.pm[nm]) /\ c.pm[nm].req))
         \o Section("Optional", pick(LAMBDA nm : ~priv(nm) /\ IsMut(c.pm[nm]) /\ ~c.pm[nm].req))
         \o Section("Other", pick(LAMBDA nm : ~priv(nm) /\ ~IsMut(c.pm[nm])))
         \o Section("Private", pick(priv))

-----------------------------------------------------------------------------
(* Definition *)
OwnOf(body) == [n \in {body[i][2] : i \in DOMAIN body} |-> body[CHOOSE i \in DOMAIN body : body[i][2] = n]]
\* the class of mro whose body decides what name n is ("" if none)
Governs(cls, mro, n) ==
  LET is == {i \in DOMAIN mro : n \in DOMAIN cls[mro[i]].own} IN
  IF is = {} THEN "" ELSE mro[CHOOSE i \in is : \A j \in is : i <= j]
RECURSIVE Unique(_, _)
Unique(s, acc) == IF Len(s) = 0 THEN acc ELSE Unique(Tail(s), IF Has(acc, s[1]) THEN acc ELSE Append(acc, s[1]))
\* names that inherited bodies declare with the given kind and that still resolve to that kind, furthest ancestor first
Inherited(cls, mrotail, kind) ==
  LET far == Reverse(mrotail)
      all == Unique(FlattenSeq([i \in DOMAIN far |-> LET b == cls[far[i]].body IN
                                   [j \in DOMAIN SelectSeq(b, LAMBDA x : x[1] = kind) |-> SelectSeq(b, LAMBDA x : x[1] = kind)[j][2]]]), <<>>)
  IN SelectSeq(all, LAMBDA n : LET g == Governs(cls, mrotail, n) IN cls[g].own[n][1] = kind)
Collect(cls, mrotail, body, kind) ==
  LET own == OwnOf(body)
      inh == SelectSeq(Inherited(cls, mrotail, kind), LAMBDA n : n \notin DOMAIN own)
      mine == SelectSeq(body, LAMBDA x : x[1] = kind)
  IN [i \in DOMAIN inh |-> cls[Governs(cls, mrotail, inh[i])].own[inh[i]]] \o mine

DefClass(st, d) ==
  LET mt == MroTail(st, d.bases)
      badmro == Len(mt) > 0 /\ mt[Len(mt)] = "!"
      cls == st.cls
      own == OwnOf(d.body)
      ps == Collect(cls, mt, d.body, "prop")
      props == [i \in DOMAIN ps |-> <<ps[i][2], ps[i][3]>>]
      pnames == {props[i][1] : i \in DOMAIN props}
      pm == [n \in pnames |-> LET i == CHOOSE j \in DOMAIN props : props[j][1] = n IN props[i][2]]
      docs == [n \in pnames |-> LET i == CHOOSE j \in DOMAIN ps : ps[j][2] = n IN ps[i][4]]
      os == Collect(cls, mt, d.body, "obs")
      obs == [i \in DOMAIN os |-> [id |-> <<"prog", os[i][3].lid>>, mode |-> os[i][3].mode, all |-> os[i][3].all,
                                   names |-> os[i][3].names, prog |-> os[i][3].prog]]
      cs == Collect(cls, mt, d.body, "cv")
      cvs == [i \in DOMAIN cs |-> [id |-> cs[i][3].lid, prog |-> cs[i][3].prog]]
      plain == UNION {DOMAIN cls[mt[i]].own : i \in DOMAIN mt} \cup DOMAIN own
      reg == LET is == {i \in DOMAIN mt : cls[mt[i]].newreg} IN mt[CHOOSE i \in is : \A j \in is : i <= j]
      \* documentation settings
      attr(c, f) == LET is == {i \in DOMAIN cls[c].mro : cls[cls[c].mro[i]][f][1] # "unset"} IN
                    IF is = {} THEN <<"unset">> ELSE cls[cls[c].mro[CHOOSE i \in is : \A j \in is : i <= j]][f]
      privInh == FoldRight(LAMBDA b, acc : IF attr(b, "docpriv")[1] = "unset" THEN acc ELSE attr(b, "docpriv"), d.bases, <<"flag", FALSE>>)
      priv == IF d.docpriv[1] = "unset" THEN privInh ELSE d.docpriv
      documented == SortStr({n \in pnames : (priv[1] = "flag" /\ priv[2]) \/ Ch(n, 1) # "_"})
      fits(o) == o[1] = "list" /\ Len(o[2]) = Len(documented) /\ Range1(o[2]) = Range1(documented)
      ordInh == FoldRight(LAMBDA b, acc : LET a == IF attr(b, "docord")[1] = "unset" THEN acc ELSE attr(b, "docord") IN
                                          IF fits(a) THEN a ELSE <<"none">>, d.bases, <<"none">>)
      ord == IF d.docord[1] = "unset" THEN ordInh ELSE d.docord
      \* class-level defaults
      dnear(n) == LET is == {i \in DOMAIN mt : \E j \in DOMAIN cls[mt[i]].owndflts : cls[mt[i]].owndflts[j][1] = n}
                      ds == IF \E j \in DOMAIN d.dflts : d.dflts[j][1] = n THEN d.dflts
                            ELSE cls[mt[CHOOSE i \in is : \A j \in is : i <= j]].owndflts
                  IN ds[CHOOSE j \in DOMAIN ds : ds[j][1] = n][2]
      dnames == {d.dflts[j][1] : j \in DOMAIN d.dflts}
                \cup UNION {{cls[mt[i]].owndflts[j][1] : j \in DOMAIN cls[mt[i]].owndflts} : i \in DOMAIN mt}
      dflts == [n \in dnames |-> dnear(n)]
      \* reasons to reject
      badren == \E i \in DOMAIN d.body : d.body[i][1] = "prop" /\ d.body[i][3].k = "ren" /\ d.body[i][3].new \notin pnames
      badobs == \E i \in DOMAIN d.body : d.body[i][1] = "obs" /\ ~d.body[i][3].all
                  /\ \E j \in DOMAIN d.body[i][3].names : d.body[i][3].names[j] \notin pnames \/ ~IsMut(pm[d.body[i][3].names[j]])
      badord == ord[1] = "bad" \/ (ord[1] = "list" /\ ~fits(ord))
      baddf(n) == IF n \notin pnames THEN TRUE
                  ELSE LET r == EvalDef(st, dflts[n])
                           q == IF r.ok /\ r.v # Undef THEN Validate(r.st, pm[n], "", "", r.v) ELSE r IN ~q.ok
      ownbad(p) == LET r == EvalDef(st, p.dflt)
                       q == IF r.ok /\ r.v # Undef THEN Validate(r.st, p, "", "", r.v) ELSE r IN
                   IF p.dflt = Undef \/ p.k = "uuid" \/ q.ok THEN {} ELSE {q.kind}
      ownkinds == UNION {ownbad(d.body[i][3]) : i \in {j \in DOMAIN d.body : d.body[j][1] = "prop"}}
      kinds == ownkinds \cup (IF badmro THEN {"TypeError"} ELSE {}) \cup
               (IF ~badmro /\ (badren \/ badobs) THEN {"TypeError"} ELSE {}) \cup
               (IF ~badmro /\ (priv[1] = "bad" \/ badord \/ \E n \in dnames : baddf(n)) THEN {"AttributeError"} ELSE {})
      c0 == [cid |-> d.cid, name |-> d.name, mro |-> <<d.cid>> \o mt, props |-> props, pm |-> pm, docs |-> docs, obs |-> obs, cvs |-> cvs,
             plain |-> plain, own |-> own, body |-> d.body, owndflts |-> d.dflts, dflts |-> dflts, newreg |-> d.newreg,
             reg |-> IF d.newreg THEN d.cid ELSE reg, docpriv |-> d.docpriv, docord |-> d.docord,
             docorder |-> IF ord[1] = "list" THEN ord[2] ELSE documented, doc |-> ""]
      c1 == [c0 EXCEPT !.doc = DocText(c0, d.doc)]
      owner == c0.reg
      rg == IF owner \in DOMAIN st.regs THEN st.regs[owner] ELSE EmptyFn
  IN IF kinds # {} THEN [Er(st, "", <<>>) EXCEPT !.v = kinds]
     ELSE Ok([st EXCEPT !.cls = (d.cid :> c1) @@ @, !.regs = (owner :> PutV(rg, d.name, d.cid)) @@ @], None)

HPClassRec ==
  [cid |-> "HasProperties", name |-> "HasProperties", mro |-> <<"HasProperties">>, props |-> <<>>, pm |-> EmptyFn, docs |-> EmptyFn,
   obs |-> <<>>, cvs |-> <<[id |-> "props", prog |-> <<>>]>>, plain |-> {}, 
   own |-> ("_validate_props" :> <<"cv", "_validate_props", [lid |-> "props", prog |-> <<>>], "">>),
   body |-> <<<<"cv", "_validate_props", [lid |-> "props", prog |-> <<>>], "">>>>,
   owndflts |-> <<>>, dflts |-> EmptyFn, newreg |-> TRUE, reg |-> "HasProperties", docpriv |-> <<"unset">>, docord |-> <<"unset">>,
   docorder |-> <<>>, doc |-> ""]
TraitsRec ==
  [HPClassRec EXCEPT !.cid = "traits", !.name = "traits", !.mro = <<"traits">>,
     !.props = <<<<"a", [k |-> "int", req |-> FALSE]>>, <<"b", [k |-> "int", req |-> FALSE]>>>>,
     !.pm = [n \in {"a", "b"} |-> [k |-> "int", req |-> FALSE]], !.newreg = FALSE]
RootRec == [HPClassRec EXCEPT !.cid = "Root", !.name = "Root", !.mro = <<"Root", "HasProperties">>, !.own = EmptyFn, !.body = <<>>,
                              !.reg = "Root"]
InitState ==
  [heap |-> EmptyFn, cls |-> ("HasProperties" :> HPClassRec) @@ ("Root" :> RootRec) @@ ("traits" :> TraitsRec),
   regs |-> ("Root" :> ("Root" :> "Root")), lis |-> EmptyFn, q |-> {}, ctx |-> EmptyFn, links |-> EmptyFn, ch |-> EmptyFn,
   gv |-> {}, fires |-> <<>>, hooks |-> <<>>, warns |-> 0, fresh |-> 1, depth |-> 0]
=============================================================================
