-------------------------------- MODULE Decl --------------------------------
(***************************************************************************)
(* Property declarations.                                                  *)
(*                                                                         *)
(* props: declaration x -> [cls, set, name, meta, used, dyn].  set holds   *)
(* the value of every keyword the type documents (given, or the default);  *)
(* used says that it belongs to a class or to another property; dyn is "", *)
(* or the property a dynamic property decorates.  Terms: <<"i", n>>,       *)
(* <<"f", n>> (a float), <<"b", v>>, <<"s", x>>, <<"l", seq>>, <<"t", seq>>*)
(* (tuple), <<"S", seq>> (set), <<"d", pairs>>, <<"p", x>> (a property),   *)
(* <<"p0">> (a property accepting anything), <<"pi", C>> (an instance      *)
(* property of class C), <<"c", C>> (a class), <<"fn", f>> (a function),   *)
(* <<"re", pattern>>.                                                      *)
(***************************************************************************)
EXTENDS MiniBase

Numeric == {"Integer", "Float"}
Cont == {"List", "Set", "Tuple"}
Vecs == {"Vector2", "Vector3", "Vector2Array", "Vector3Array"}
Gettable == {"GettableProperty", "Uuid", "Renamed"}
FileTypes == {"File", "ImagePNG"}
Types == {"Property", "Boolean", "Complex", "String", "URL", "StringChoice", "Color", "DateTime", "Array", "Dictionary", "Instance", "Pointer",
          "Union"} \cup Numeric \cup Cont \cup Vecs \cup Gettable \cup FileTypes

\* arguments by position, and those without which there is no declaration
Pos(c) == CASE c = "StringChoice" -> <<"doc", "choices", "case_sensitive">>
            [] c \in Cont -> <<"doc", "prop">>
            [] c \in {"Instance", "Pointer"} -> <<"doc", "instance_class">>
            [] c = "Union" -> <<"doc", "props">>
            [] c \in FileTypes -> <<"doc", "mode">>
            [] c = "Renamed" -> <<"new_name">>
            [] OTHER -> <<"doc">>
Must(c) == CASE c = "StringChoice" -> {"doc", "choices"}
             [] c \in {"Instance", "Pointer"} -> {"doc", "instance_class"}
             [] c = "Union" -> {"doc", "props"}
             [] c = "Renamed" -> {"new_name"}
             [] OTHER -> {"doc"}
\* keywords and their values when not given
Unset == <<"unset">>
Dim(c) == IF c \in {"Vector2", "Vector2Array"} THEN 2 ELSE 3
Common == [default |-> Unset, serializer |-> None, deserializer |-> None, doc |-> Str("")]
Own(c) ==
  CASE c \in {"Boolean", "Complex"} -> [cast |-> <<"b", FALSE>>]
    [] c \in Numeric -> [cast |-> <<"b", FALSE>>, min |-> None, max |-> None]
    [] c = "String" -> [strip |-> Str(""), change_case |-> None, unicode |-> <<"b", TRUE>>, regex |-> None]
    [] c = "URL" -> [strip |-> Str(""), change_case |-> None, unicode |-> <<"b", TRUE>>, regex |-> None,
                     remove_parameters |-> <<"b", FALSE>>, remove_fragment |-> <<"b", FALSE>>]
    [] c = "StringChoice" -> [choices |-> None, case_sensitive |-> <<"b", FALSE>>, descriptions |-> None]
    [] c = "Array" -> [shape |-> <<"S", <<<<"t", <<Str("*")>>>>>>>>, dtype |-> <<"t", <<<<"c", "float">>, <<"c", "int">>>>>>, coerce |-> <<"b", TRUE>>]
    [] c \in {"Vector2", "Vector3"} -> [length |-> None, coerce |-> <<"b", TRUE>>]
    [] c \in {"Vector2Array", "Vector3Array"} -> [length |-> None, coerce |-> <<"b", TRUE>>, shape |-> <<"S", <<<<"t", <<Str("*"), Num(Dim(c))>>>>>>>>]
    [] c \in {"List", "Set"} -> [prop |-> <<"p0">>, min_length |-> None, max_length |-> None, coerce |-> <<"b", FALSE>>, observe_mutations |-> <<"b", FALSE>>]
    [] c = "Tuple" -> [prop |-> <<"p0">>, min_length |-> None, max_length |-> None, coerce |-> <<"b", FALSE>>]
    [] c = "Dictionary" -> [key_prop |-> <<"p0">>, value_prop |-> <<"p0">>, coerce |-> <<"b", FALSE>>, observe_mutations |-> <<"b", FALSE>>]
    [] c = "Instance" -> [instance_class |-> None, auto_create |-> <<"b", FALSE>>]
    [] c = "Pointer" -> [instance_class |-> None, auto_create |-> <<"b", FALSE>>, load |-> <<"b", FALSE>>, uid_prop |-> Str("uid")]
    [] c = "Union" -> [props |-> None, strict_instances |-> <<"b", FALSE>>]
    [] c = "File" -> [mode |-> None, valid_modes |-> None]
    [] c = "ImagePNG" -> [mode |-> Str("rb"), valid_modes |-> None, filename |-> Str("texture.png")]
    [] c = "Renamed" -> [new_name |-> None, warn |-> <<"b", TRUE>>]
    [] OTHER -> <<>>
Base(c) == Own(c) @@ (IF c \in Gettable THEN Common ELSE Common @@ [required |-> <<"b", TRUE>>])
\* attributes that can be read but not set
ReadOnly(c) == {"meta", "info", "terms"} \cup (IF c \in {"Vector2", "Vector3"} THEN {"shape", "dtype"} ELSE IF c \in Vecs THEN {"dtype"} ELSE {})

-----------------------------------------------------------------------------
IsInt(v) == v[1] = "i"
IsNum(v) == v[1] \in {"i", "f"}
IsSeq(v) == v[1] \in {"l", "t", "S"}
AllStr(s) == \A j \in DOMAIN s : s[j][1] = "s"
Upper(s) == CASE s = "a" -> "A" [] s = "b" -> "B" [] s = "c" -> "C" [] s = "ab" -> "AB" [] s = "Ab" -> "AB" [] s = "x" -> "X" [] s = "red" -> "RED" [] OTHER -> s
Matches(re, s) == CASE re = "^a" -> s \in {"a", "ab"} [] re = "b$" -> s \in {"b", "ab", "Ab"} [] OTHER -> FALSE
Functions0 == {"one", "lst"}                      \* callables without arguments
Returns(f) == IF f = "one" THEN Num(1) ELSE <<"l", <<Num(1)>>>>

\* choices: pairs of a string and its alternatives
ChoicePairs(v) ==
  IF IsSeq(v) THEN [j \in DOMAIN v[2] |-> <<v[2][j], <<"l", <<>>>>>>]
  ELSE [j \in DOMAIN v[2] |-> <<v[2][j][1], IF IsSeq(v[2][j][2]) THEN <<"l", v[2][j][2][2]>> ELSE <<"l", <<v[2][j][2]>>>>>>]
RECURSIVE AllItems(_)
AllItems(ps) == IF ps = <<>> THEN <<>> ELSE <<ps[1][1]>> \o ps[1][2][2] \o AllItems(Tail(ps))
GoodChoices(v, sens) ==
  /\ v[1] \in {"l", "t", "S", "d"}
  /\ LET items == AllItems(ChoicePairs(v)) IN
     /\ AllStr(items)
     /\ \A j, m \in DOMAIN items : j # m => IF sens THEN items[j][2] # items[m][2] ELSE Upper(items[j][2]) # Upper(items[m][2])
Keys(ch) == {ch[2][j][1] : j \in DOMAIN ch[2]}
GoodDescriptions(v, ch) ==
  ch # None /\ v[1] = "d" /\ Len(v[2]) = Len(ch[2]) /\ \A j \in DOMAIN v[2] : v[2][j][1] \in Keys(ch) /\ v[2][j][2][1] = "s"
GoodShape(v) == v[1] = "t" /\ \A j \in DOMAIN v[2] : v[2][j] = Str("*") \/ IsInt(v[2][j])
Scalars == {<<"c", "int">>, <<"c", "float">>, <<"c", "bool">>, <<"c", "complex">>}
HPClass(c) == c \in {"P0", "U0"}
Nestable(st, v) == \/ v[1] = "p" /\ v[2] \in DOMAIN st.props /\ st.props[v[2]].cls \notin Gettable /\ st.props[v[2]].dyn = ""
                   \/ v[1] = "c" /\ HPClass(v[2])
Nest(v) == IF v[1] = "c" THEN <<"pi", v[2]>> ELSE v
Modes(c) == IF c = "ImagePNG" THEN {"rb", "rb+", "wb+", "ab+"} ELSE {"r", "r+", "rb", "rb+", "w", "w+", "wb", "wb+", "a", "a+", "ab", "ab+"}
ModeSeq(v) == IF IsSeq(v) THEN v[2] ELSE <<v>>
Below(a, b) == a[2] <= b[2]

\* is v a good value of keyword n, given the others (the default aside)?
GoodVal(st, c, set, n, v) ==
  CASE n \in {"required", "cast", "unicode", "case_sensitive", "coerce", "observe_mutations", "auto_create", "strict_instances", "warn"} -> v[1] = "b"
    [] n \in {"doc", "name", "strip", "filename", "new_name"} -> v[1] = "s"
    [] n \in {"serializer", "deserializer"} -> v[1] \in {"fn", "c"}
    [] n = "min" -> v = None \/ set.max = None \/ Below(v, set.max)
    [] n = "max" -> v = None \/ set.min = None \/ Below(set.min, v)
    [] n = "min_length" -> IsInt(v) /\ v[2] >= 0 /\ (set.max_length = None \/ Below(v, set.max_length))
    [] n = "max_length" -> IsInt(v) /\ v[2] >= 0 /\ (set.min_length = None \/ Below(set.min_length, v))
    [] n = "change_case" -> v \in {None, Str("upper"), Str("lower")}
    [] n = "regex" -> v[1] \in {"s", "re"} /\ v[2] # "("
    [] n = "choices" -> GoodChoices(v, set.case_sensitive[2])
    [] n = "descriptions" -> GoodDescriptions(v, set.choices)
    [] n = "shape" /\ c \in Vecs -> \A w \in (IF v[1] = "S" THEN Range(v[2]) ELSE {v}) : w # None /\ GoodShape(w) /\ Len(w[2]) = 2 /\ w[2][2] = Num(Dim(c))
    [] n = "shape" -> v = None \/ (IF v[1] = "S" THEN \A j \in DOMAIN v[2] : GoodShape(v[2][j]) ELSE GoodShape(v))
    [] n = "dtype" -> IF v[1] \in {"l", "t"} THEN v[2] # <<>> /\ \A j \in DOMAIN v[2] : v[2][j] \in Scalars ELSE v \in Scalars
    [] n = "length" -> IsNum(v) /\ v[2] > 0
    [] n \in {"prop", "key_prop", "value_prop"} -> Nestable(st, v)
    [] n = "instance_class" -> v[1] = "c"
    [] n = "props" -> v[1] \in {"l", "t"} /\ \A j \in DOMAIN v[2] : Nestable(st, v[2][j])
    [] n = "mode" -> v = None \/ (v[1] = "s" /\ v[2] \in Modes(c))
    [] n = "valid_modes" -> /\ set.mode \in Range(ModeSeq(v))
                            /\ \A j \in DOMAIN ModeSeq(v) : ModeSeq(v)[j][1] = "s" /\ ModeSeq(v)[j][2] \in Modes(c)
    [] OTHER -> TRUE                                   \* those turned into a boolean or a text
\* what the attribute then is
Falsy(v) == v \in {<<"b", FALSE>>, Num(0), Str(""), None, <<"l", <<>>>>}
Recorded(n, v) ==
  CASE n \in {"serializer", "deserializer"} -> <<"fn", "ser">>
    [] n = "choices" -> <<"d", ChoicePairs(v)>>
    [] n = "shape" -> IF v = None \/ v[1] = "S" THEN v ELSE <<"S", <<v>>>>
    [] n = "dtype" -> IF v[1] \in {"l", "t"} THEN v ELSE <<"t", <<v>>>>
    [] n \in {"prop", "key_prop", "value_prop"} -> Nest(v)
    [] n = "props" -> <<"t", [j \in DOMAIN v[2] |-> Nest(v[2][j])]>>
    [] n = "regex" -> <<"re", v[2]>>
    [] n = "length" -> <<"f", v[2]>>
    [] n = "valid_modes" -> <<"t", ModeSeq(v)>>
    [] n \in {"remove_parameters", "remove_fragment", "load"} -> <<"b", ~Falsy(v)>>
    [] n = "uid_prop" -> IF IsInt(v) THEN Str(ToString(v[2])) ELSE v
    [] OTHER -> v
NestedIn(set) == {v \in {Get(set, n, None) : n \in {"prop", "key_prop", "value_prop"}} : v[1] = "p"}
                 \cup (IF "props" \in DOMAIN set /\ set.props[1] = "t" THEN {v \in Range(set.props[2]) : v[1] = "p"} ELSE {})

-----------------------------------------------------------------------------
\* is a value good for a declaration? (as far as defaults and plain validation need it)
RECURSIVE Fits(_, _, _, _), FitsNested(_, _, _)
InRange(set, v) == (set.min = None \/ set.min[2] <= v) /\ (set.max = None \/ v <= set.max[2])
Fits(st, c, set, v) ==
  CASE c = "Boolean" -> v[1] = "b" \/ set.cast[2]
    [] c \in Numeric -> v[1] \in {"i", "f", "b"} /\ InRange(set, IF v[1] = "b" THEN (IF v[2] THEN 1 ELSE 0) ELSE v[2])
    [] c = "Complex" -> v[1] \in {"i", "f", "b"}
    [] c = "String" -> v[1] = "s" /\ (set.regex = None \/ Matches(set.regex[2], v[2]))
    [] c = "URL" -> v = Str("http://a.b/c") /\ set.regex = None
    [] c = "StringChoice" -> v[1] = "s" /\ (IF set.case_sensitive[2] THEN v \in Range(AllItems(set.choices[2]))
                                            ELSE Upper(v[2]) \in {Upper(w[2]) : w \in Range(AllItems(set.choices[2]))})
    [] c = "Color" -> v \in {Str("red"), Str("b")} \/ (v[1] \in {"l", "t"} /\ Len(v[2]) = 3 /\ \A j \in DOMAIN v[2] : (v[2][j][1] = "b" \/ (IsInt(v[2][j]) /\ v[2][j][2] \in 0..255)))
    [] c = "Array" -> /\ v[1] \in {"l", "t"} /\ set.coerce[2] /\ \A j \in DOMAIN v[2] : IsNum(v[2][j])
                      /\ LET kind == IF v[2] # <<>> /\ \A j \in DOMAIN v[2] : IsInt(v[2][j]) THEN "int" ELSE "float" IN <<"c", kind>> \in Range(set.dtype[2])
                      /\ (set.shape = None \/ \E s \in Range(set.shape[2]) : Len(s[2]) = 1 /\ s[2][1] \in {Str("*"), Num(Len(v[2]))})
    [] c = "Vector3" -> set.coerce[2] /\ (v = Str("x") \/ (v[1] \in {"l", "t"} /\ Len(v[2]) = 3 /\ \A j \in DOMAIN v[2] : IsNum(v[2][j])))
    [] c = "Vector2" -> set.coerce[2] /\ (v = Str("x") \/ (v[1] \in {"l", "t"} /\ Len(v[2]) = 2 /\ \A j \in DOMAIN v[2] : IsNum(v[2][j])))
    [] c \in Cont -> /\ v[1] = (CASE c = "List" -> "l" [] c = "Set" -> "S" [] c = "Tuple" -> "t") \/ set.coerce[2]
                     /\ \A w \in (IF IsSeq(v) THEN Range(v[2]) ELSE {v}) : FitsNested(st, set.prop, w)
    [] c = "Dictionary" -> \/ set.coerce[2] /\ IsSeq(v) /\ v[2] = <<>>
                           \/ v[1] = "d" /\ \A j \in DOMAIN v[2] : FitsNested(st, set.key_prop, v[2][j][1]) /\ FitsNested(st, set.value_prop, v[2][j][2])
    [] c = "Instance" -> FitsNested(st, <<"pi", set.instance_class[2]>>, v)
    [] c = "Union" -> \E w \in Range(set.props[2]) : FitsNested(st, w, v)
    [] c \in {"Property", "GettableProperty"} -> TRUE
    [] OTHER -> FALSE
FitsNested(st, p, v) ==
  CASE p[1] = "p0" -> TRUE
    [] p[1] = "pi" -> IF HPClass(p[2]) THEN v \in {<<"d", <<>>>>, <<"new", p[2]>>}
                      ELSE v[1] \in {"i", "f", "b"} \/ v = <<"d", <<>>>>       \* int
    [] p[1] = "p" -> Fits(st, st.props[p[2]].cls, st.props[p[2]].set, v)
\* the value a default stands for
Value(v) == CASE v[1] = "fn" -> Returns(v[2])
              [] v[1] = "c" -> IF HPClass(v[2]) THEN <<"new", v[2]>> ELSE Num(0)
              [] OTHER -> v
GoodDefault(st, c, set, v) == v = Undef \/ Fits(st, c, set, Value(v))
DefaultError(c) == IF c = "Union" THEN "TypeError" ELSE "ValueError"
\* the default of a union is its own, or the first of its alternatives
RECURSIVE FirstDefault(_, _), Effective(_, _, _)
FirstDefault(st, ps) == IF ps = <<>> THEN Undef
                        ELSE LET p == st.props[ps[1][2]] d == IF ps[1][1] = "p" THEN Effective(st, p.cls, p.set) ELSE Undef IN
                             IF d # Undef THEN d ELSE FirstDefault(st, Tail(ps))
Effective(st, c, set) ==
  IF c = "Union" /\ set.default \in {Undef, Unset} THEN FirstDefault(st, set.props[2])
  ELSE IF c = "Uuid" THEN <<"uuid4">>
  ELSE IF set.default # Unset THEN set.default
  ELSE IF c \in {"Instance", "Pointer"} /\ set.auto_create[2] THEN set.instance_class
  ELSE Undef

-----------------------------------------------------------------------------
\* the keywords are applied in this order: what others depend on first
First == <<"case_sensitive", "choices", "mode">>
Order(kw) ==
  LET early == SelectSeq(First, LAMBDA n : n \in KwNames(kw))
      rest == SelectSeq(kw, LAMBDA p : p[1] \notin Range(First) \cup {"default"}) IN
  [j \in DOMAIN early |-> <<early[j], Kw(kw, early[j])>>] \o rest
RECURSIVE Apply(_, _, _, _, _)
\* [set, errs]: keywords applied one after the other
Apply(st, c, kw, set, errs) ==
  IF kw = <<>> THEN [set |-> set, errs |-> errs]
  ELSE LET n == kw[1][1] v == kw[1][2] IN
       IF n \in ReadOnly(c) \/ (n # "name" /\ n \notin DOMAIN Base(c)) THEN Apply(st, c, Tail(kw), set, errs \cup {"AttributeError"})
       ELSE IF ~GoodVal(st, c, set, n, v) THEN Apply(st, c, Tail(kw), set, errs \cup {"TypeError"})
       ELSE Apply(st, c, Tail(kw), IF n = "name" THEN set ELSE [set EXCEPT ![n] = Recorded(n, v)], errs)
\* the name of a property is the name of those it contains
RECURSIVE Named(_, _, _), NamedAll(_, _, _)
Named(props, x, n) == NamedAll([props EXCEPT ![x].name = n],
                               IF props[x].dyn # "" THEN {<<"p", props[x].dyn>>} ELSE NestedIn(props[x].set), n)
NamedAll(props, ps, n) == IF ps = {} THEN props ELSE LET p == CHOOSE q \in ps : TRUE IN NamedAll(Named(props, p[2], n), ps \ {p}, n)
UseAll(props, ps) == [x \in DOMAIN props |-> IF <<"p", x>> \in ps THEN [props[x] EXCEPT !.used = TRUE] ELSE props[x]]
RenamedDoc(n) == Str("This property has been renamed '" \o n \o "' and may be removed in the future.")

Declare(st, e) ==
  LET c == e.cls
      pos == Pos(c)
      early == Len(e.args) > Len(pos) \/ \E j \in DOMAIN e.args : pos[j] \in KwNames(e.kw)
      given == [j \in DOMAIN e.args |-> <<pos[j], e.args[j]>>] \o e.kw
      doc == IF c = "Renamed" /\ "doc" \notin KwNames(given) /\ "new_name" \in KwNames(given) /\ Kw(given, "new_name")[1] = "s"
             THEN <<<<"doc", RenamedDoc(Kw(given, "new_name")[2])>>>> ELSE <<>>
      a == Apply(st, c, Order(given) \o doc, Base(c), {})
      set == IF c \in FileTypes /\ "valid_modes" \notin KwNames(given)
             THEN [a.set EXCEPT !.valid_modes = IF c = "ImagePNG" THEN <<"t", <<Str("rb"), Str("rb+"), Str("wb+"), Str("ab+")>>>>
                                                ELSE IF a.set.mode = None THEN None ELSE <<"t", <<a.set.mode>>>>] ELSE a.set
      dflt == IF "default" \in KwNames(given) THEN Kw(given, "default") ELSE None
      ok == dflt = None \/ GoodDefault(st, c, set, dflt)
      final == IF dflt = None THEN set ELSE [set EXCEPT !.default = dflt]
      p == [cls |-> c, set |-> final, name |-> "", meta |-> <<>>, used |-> FALSE, dyn |-> ""]
      props == Put(UseAll(st.props, NestedIn(final)), e.x, p)
      modes == c = "ImagePNG" /\ "valid_modes" \notin KwNames(given) /\ a.errs = {} /\ a.set.mode = None
  IN IF early \/ modes \/ ~(Must(c) \subseteq KwNames(given)) THEN Er(st, "TypeError")
     ELSE IF a.errs # {} THEN Er(st, IF Cardinality(a.errs) = 1 THEN CHOOSE k \in a.errs : TRUE ELSE "any")
     ELSE IF ~ok THEN Er(st, DefaultError(c))
     ELSE Ok([st EXCEPT !.props = IF "name" \in KwNames(given) THEN Named(props, e.x, Kw(given, "name")[2]) ELSE props], <<"p", e.x>>)

\* setting an attribute of a declaration
PutAttr(st, e) ==
  LET p == st.props[e.x] c == p.cls IN
  IF e.n \in ReadOnly(c) THEN (IF e.n = "terms" THEN Er(st, "TypeError") ELSE Er(st, "AttributeError"))
  ELSE IF e.n = "default" THEN (IF GoodDefault(st, c, p.set, e.v) THEN Ok([st EXCEPT !.props[e.x].set.default = e.v], None) ELSE Er(st, DefaultError(c)))
  ELSE IF ~GoodVal(st, c, p.set, e.n, e.v) THEN Er(st, "TypeError")
  ELSE IF e.n = "name" THEN Ok([st EXCEPT !.props = Named(st.props, e.x, e.v[2])], None)
  ELSE Ok([st EXCEPT !.props[e.x].set[e.n] = Recorded(e.n, e.v)], None)

Merge(meta, kw) == [n \in KwNames(kw) |-> Kw(kw, n)] @@ meta
Tagged(st, e) ==
  IF e.bad # "" THEN Er(st, "TypeError")
  ELSE Ok([st EXCEPT !.props[e.x].meta = Merge(Merge(@, e.d), e.kw)], <<"p", e.x>>)

RECURSIVE NameEach(_, _)
NameEach(props, as) == IF as = <<>> THEN props ELSE NameEach(Named(UseAll(props, {<<"p", as[1][2]>>}), as[1][2], as[1][1]), Tail(as))
DefClass(st, e) == Ok([st EXCEPT !.props = NameEach(@, e.attrs), !.classes = Put(@, e.c, e.attrs)], None)
\* the class makes instances whose containers are filled and changed
Use(st, e) ==
  LET bad == {j \in DOMAIN st.classes[e.c] : LET p == st.props[st.classes[e.c][j][2]]
                                                 d == IF p.dyn # "" \/ p.cls = "Renamed" THEN Undef ELSE Effective(st, p.cls, p.set) IN
                                             d # Undef /\ d # <<"uuid4">> /\ ~Fits(st, p.cls, p.set, Value(d))} IN
  IF bad = {} THEN Ok(st, None) ELSE Er(st, "any")

\* p(func), and the setter and deleter of what it makes
Getters == {"get1", "oth1"}
FnName(f) == IF f \in {"oth1", "oth2"} THEN "m" ELSE "n"
FnArgs(f) == IF f \in {"get0"} THEN 0 ELSE IF f \in {"get1", "oth1"} THEN 1 ELSE 2
Decorate(st, e) ==
  LET p == st.props[e.x] IN
  IF e.fn[1] # "fn" \/ FnArgs(e.fn[2]) # 1 \/ p.dyn # "" THEN Er(st, "TypeError")
  ELSE IF Effective(st, p.cls, p.set) # Undef THEN Er(st, "TypeError")
  ELSE LET q == [cls |-> "DynamicProperty", set |-> [doc |-> p.set.doc, prop |-> <<"p", e.x>>, func |-> e.fn, set_func |-> None, del_func |-> None],
                 name |-> "", meta |-> p.meta, used |-> FALSE, dyn |-> e.x] IN
       Ok([st EXCEPT !.props = Named(Put(UseAll(@, {<<"p", e.x>>}), e.y, q), e.y, FnName(e.fn[2]))], <<"p", e.y>>)
Accessor(st, e) ==
  IF e.fn[1] # "fn" \/ FnArgs(e.fn[2]) # (IF e.n = "set_func" THEN 2 ELSE 1) \/ FnName(e.fn[2]) # st.props[e.x].name THEN Er(st, "TypeError")
  ELSE Ok([st EXCEPT !.props[e.x].set[e.n] = e.fn], <<"p", e.x>>)
Validate(st, e) == LET p == st.props[e.x] IN IF Fits(st, p.cls, p.set, e.v) THEN Ok(st, Skip) ELSE Er(st, "ValueError")

Do(st, e) ==
  CASE e.op = "decl" -> Declare(st, e)
    [] e.op = "put" -> PutAttr(st, e)
    [] e.op = "tag" -> Tagged(st, e)
    [] e.op = "class" -> DefClass(st, e)
    [] e.op = "use" -> Use(st, e)
    [] e.op = "dyn" -> Decorate(st, e)
    [] e.op = "access" -> Accessor(st, e)
    [] e.op = "validate" -> Validate(st, e)

Start(cfg) == [props |-> <<>>, classes |-> <<>>]
SameTerm(n, a, b) == IF n \in {"valid_modes", "shape"} /\ a # None /\ b # None THEN Range(a[2]) = Range(b[2]) ELSE a = b
Seen(st, p) == IF p.dyn # "" THEN p.set ELSE [p.set EXCEPT !.default = Effective(st, p.cls, p.set)]
Agree(st, post) ==
  /\ DOMAIN st.props = DOMAIN post
  /\ \A x \in DOMAIN st.props :
       LET p == st.props[x] q == post[x] s == Seen(st, p) IN
       /\ p.cls = q.cls /\ p.name = q.name /\ SameFun(p.meta, q.meta)
       /\ q.terms                                     \* the recorded terms are the arguments given
       /\ DOMAIN s = DOMAIN q.set /\ \A n \in DOMAIN s : SameTerm(n, s[n], q.set[n])

-----------------------------------------------------------------------------
Configs == {[k |-> "decl"]}
Values == {Num(1), Num(9), <<"f", 2>>, Str("a"), Str("ab"), <<"b", TRUE>>, <<"l", <<Num(1)>>>>, <<"l", <<>>>>, <<"t", <<Num(1), Num(2), Num(3)>>>>,
           <<"S", <<Num(1)>>>>, <<"d", <<>>>>}
Defaults == Values \cup {<<"fn", "one">>, <<"fn", "lst">>, <<"c", "P0">>, Undef, None}
Bools == {<<"b", TRUE>>, <<"b", FALSE>>, Num(1)}
Cand(st, c, n) ==
  CASE n \in {"required", "cast", "unicode", "case_sensitive", "coerce", "observe_mutations", "auto_create", "strict_instances", "warn"} -> Bools
    [] n \in {"doc"} -> {Str("text"), Num(3)}
    [] n = "name" -> {Str("nm"), Num(3)}
    [] n \in {"strip", "filename", "new_name"} -> {Str("a"), Num(3)}
    [] n \in {"serializer", "deserializer"} -> {<<"fn", "ser">>, Num(3)}
    [] n = "min" -> {Num(1), Num(5), <<"f", 2>>, None}
    [] n = "max" -> {Num(1), Num(5), <<"f", 2>>, None}
    [] n \in {"min_length", "max_length"} -> {Num(0), Num(2), Num(-1), Str("a")}
    [] n = "change_case" -> {Str("upper"), Str("lower"), Str("Upper"), None}
    [] n = "regex" -> {Str("^a"), <<"re", "b$">>, Str("("), Num(3)}
    [] n = "choices" -> {<<"l", <<Str("a"), Str("b")>>>>, <<"t", <<Str("a"), Str("A")>>>>, <<"l", <<Str("a"), Str("a")>>>>,
                         <<"d", <<<<Str("a"), <<"l", <<Str("x"), Str("ab")>>>>>>, <<Str("b"), Str("c")>>>>>>, <<"d", <<<<Str("a"), Str("A")>>>>>>, <<"l", <<Num(1)>>>>, Str("a")}
    [] n = "descriptions" -> {<<"d", <<<<Str("a"), Str("x")>>, <<Str("b"), Str("x")>>>>>>, <<"d", <<<<Str("a"), Str("x")>>>>>>,
                              <<"d", <<<<Str("a"), Str("x")>>, <<Str("c"), Str("x")>>>>>>, <<"d", <<<<Str("a"), Str("x")>>, <<Str("b"), Num(1)>>>>>>, Str("a")}
    [] n = "shape" /\ c \in Vecs -> {None, <<"t", <<Num(1)>>>>, <<"t", <<Str("*"), Num(2)>>>>, <<"t", <<Num(4), Num(3)>>>>, <<"S", <<<<"t", <<Num(4), Num(2)>>>>, <<"t", <<Num(1), Num(3)>>>>>>>>,
                                     <<"S", <<<<"t", <<Num(4), Num(3)>>>>, <<"t", <<Num(1), Num(3)>>>>>>>>, <<"t", <<Str("*"), Str("*")>>>>}
    [] n = "shape" -> {None, <<"t", <<Num(1)>>>>, <<"t", <<Str("*"), Num(3)>>>>, <<"S", <<<<"t", <<Num(3)>>>>, <<"t", <<Str("*"), Str("*")>>>>>>>>, <<"l", <<Num(1)>>>>, <<"t", <<Str("a")>>>>, Num(3)}
    [] n = "dtype" -> {<<"c", "int">>, <<"l", <<<<"c", "float">>, <<"c", "bool">>>>>>, <<"t", <<>>>>, <<"c", "P0">>, Str("a")}
    [] n = "length" -> {Num(2), <<"f", 1>>, Num(0), Num(-1), Str("a")}
    [] n \in {"prop", "key_prop", "value_prop"} -> {<<"c", "P0">>, <<"c", "int">>, Num(3)} \cup {<<"p", x>> : x \in {y \in DOMAIN st.props : ~st.props[y].used}}
    [] n = "instance_class" -> {<<"c", "P0">>, <<"c", "int">>, Num(3)}
    [] n = "props" -> {<<"l", <<<<"c", "P0">>>>>>, <<"t", <<Num(3)>>>>, Num(3)} \cup {<<"l", <<<<"p", x>>, <<"c", "P0">>>>>> : x \in {y \in DOMAIN st.props : ~st.props[y].used}}
    [] n = "mode" -> {Str("rb"), Str("r"), Str("q"), None}
    [] n = "valid_modes" -> {<<"l", <<Str("rb"), Str("ab+")>>>>, <<"t", <<Str("r")>>>>, <<"S", <<Str("rb"), Str("q")>>>>, Str("rb")}
    [] n \in {"remove_parameters", "remove_fragment", "load"} -> {<<"b", TRUE>>, <<"b", FALSE>>, Str("a"), Num(0)}
    [] n = "uid_prop" -> {Str("a"), Num(3)}
    [] n \in ReadOnly(c) \cup {"foo", "_min"} -> {Num(3)}
Kws(c) == ((DOMAIN Base(c) \cup {"name", "foo", "_min", "info", "terms"}) \ (Range(Pos(c)) \cup {"default"}))
          \ (IF c \in Cont \cup {"Dictionary", "Union"} THEN {"name"} ELSE {})
\* defaults are only given where Fits says what happens
DefaultsOf(c) == IF c \in FileTypes \cup {"Uuid", "Renamed", "Pointer", "DateTime", "URL"} \cup Vecs THEN {}
                 ELSE IF c = "Set" THEN Defaults \ {<<"d", <<>>>>, <<"c", "P0">>} ELSE Defaults
Second(st, c) == IF c = "Renamed" THEN {<<Str("a")>>, <<Num(3)>>, <<>>}
                 ELSE IF Len(Pos(c)) = 1 THEN {<<Str("text")>>, <<Num(3)>>, <<>>}
                 ELSE {<<Str("text"), v>> : v \in Cand(st, c, Pos(c)[2])} \cup {<<Str("text")>>}
GoodArgs(st, c) == CASE c = "StringChoice" -> <<Str("d"), <<"l", <<Str("a"), Str("b")>>>>>>
                     [] c \in {"Instance", "Pointer"} -> <<Str("d"), <<"c", "P0">>>>
                     [] c = "Union" -> <<Str("d"), <<"l", <<<<"c", "P0">>>>>>>>
                     [] c = "File" -> <<Str("d"), Str("rb")>>
                     [] c = "Renamed" -> <<Str("a")>>
                     [] OTHER -> <<Str("d")>>
Puttable == {"doc", "serializer", "required", "min", "max", "min_length", "max_length", "cast", "change_case", "length", "coerce"}
\* (sets of values that cannot be hashed are not specified)
Hashable(c) == c \notin {"List", "Set", "Dictionary", "Array", "Union"} \cup Vecs
Ops(st) ==
  LET n == Cardinality(DOMAIN st.props)
      x == "p" \o ToString(n + 1)
      free == {y \in DOMAIN st.props : ~st.props[y].used}
      sure == {y \in free : st.props[y].cls \notin FileTypes \cup {"Pointer"}}
      plain == {y \in DOMAIN st.props : st.props[y].dyn = ""}
      D(c, a, kw) == [op |-> "decl", x |-> x, cls |-> c, args |-> a, kw |-> kw]
  IN (IF n > 0 THEN {} ELSE
        UNION {{D(c, a, <<>>) : a \in Second(st, c)} : c \in Types}
        \cup UNION {UNION {{D(c, GoodArgs(st, c), <<<<k, v>>>>) : v \in Cand(st, c, k)} : k \in Kws(c)} : c \in Types}
        \cup UNION {{D(c, GoodArgs(st, c), <<<<"default", v>>>>) : v \in DefaultsOf(c)} : c \in Types}
        \cup UNION {UNION {{D(c, GoodArgs(st, c), <<<<k[1], v>>, <<k[2], w>>>>) : v \in Cand(st, c, k[1]), w \in IF k[2] = "default" THEN DefaultsOf(c) ELSE Cand(st, c, k[2])} :
                            k \in {kk \in (DOMAIN Own(c) \ Range(Pos(c))) \X (DOMAIN Own(c) \cup {"default", "required"}) : kk[1] # kk[2] /\ kk[2] \notin Range(Pos(c))}} : c \in Types \ {"Pointer", "URL"}})
     \cup (IF n # 1 THEN {} ELSE
        {D(c, <<Str("d")>>, <<<<"prop", <<"p", y>>>>, <<"default", v>>>>) : c \in {"List", "Tuple"}, y \in sure, v \in {<<"l", <<Num(1)>>>>, <<"t", <<Num(9)>>>>, <<"S", <<Str("a")>>>>}}
        \cup {D("Set", <<Str("d")>>, <<<<"prop", <<"p", y>>>>, <<"default", <<"S", <<Str("a")>>>>>>>>) : y \in {z \in sure : Hashable(st.props[z].cls)}}
        \cup {D("Dictionary", <<Str("d")>>, <<<<k, <<"p", y>>>>>>) : y \in free, k \in {"key_prop", "value_prop"}}
        \cup {D("Union", <<Str("d"), <<"l", <<<<"p", y>>, <<"c", "P0">>>>>>>>, <<>>) : y \in free}
        \cup {[op |-> "dyn", x |-> y, y |-> x, fn |-> f] : y \in free \cap plain, f \in {<<"fn", "get1">>, <<"fn", "get2">>, Num(3)}})
     \cup UNION {UNION {{[op |-> "put", x |-> y, n |-> k, v |-> v] : v \in Cand(st, st.props[y].cls, k)} :
                         k \in (Puttable \cap DOMAIN st.props[y].set) \cup {"info", "meta", "terms"}} : y \in plain}
     \cup {[op |-> "tag", x |-> y, bad |-> b, d |-> d, kw |-> kw] : y \in DOMAIN st.props, b \in {"", "two"}, d \in {<<>>, <<<<"k", Num(1)>>>>}, kw \in {<<>>, <<<<"k", Num(2)>>>>, <<<<"j", Str("a")>>>>}}
     \cup (IF DOMAIN st.classes = {} THEN {[op |-> "class", c |-> "C1", attrs |-> <<<<"n", y>>>>] : y \in {z \in free : st.props[z].cls # "Renamed"}} ELSE
           {[op |-> "use", c |-> "C1"]})
Inv(st) ==
  \A x \in DOMAIN st.props :
    LET p == st.props[x] IN
    /\ (p.cls \in Numeric /\ p.set.min # None /\ p.set.max # None) => Below(p.set.min, p.set.max)
    /\ (p.cls \in Cont /\ p.set.min_length # None /\ p.set.max_length # None) => Below(p.set.min_length, p.set.max_length)
    /\ (p.cls = "StringChoice" /\ p.set.descriptions # None) => {p.set.descriptions[2][j][1] : j \in DOMAIN p.set.descriptions[2]} = Keys(p.set.choices)
    /\ (p.cls = "File" /\ p.set.valid_modes # None) => p.set.mode \in Range(p.set.valid_modes[2])
    /\ \A q \in NestedIn(p.set) : st.props[q[2]].used /\ (p.name # "" => st.props[q[2]].name = p.name)
=============================================================================
