------------------------------- MODULE Tasks -------------------------------
(***************************************************************************)
(* Computational tasks (properties.extras.BaseTask).                       *)
(*                                                                         *)
(* The input has the integers x (required; a validator refuses 13 with an  *)
(* error and 14 by returning False), y (default 5), a list l of integers   *)
(* and an instance n with the required integer a.  The output has the      *)
(* integer r (required; a validator refuses 99), success and log.  A call  *)
(* says how run and process_output behave.  The state is the log of what   *)
(* ran during the last operation, in order, with what it was given.        *)
(***************************************************************************)
EXTENDS MiniBase

\* the value an integer property reads: text of digits is a number
AsInt(t) == IF t = Str("3") THEN Num(3) ELSE t
IsInt(t) == t[1] = "i" \/ t = Str("3")
KwGet(kw, n) == IF n \in KwNames(kw) THEN Kw(kw, n) ELSE Undef
\* reading the input: unknown keywords are ignored, wrong values refused
GoodKw(kw) ==
  /\ KwGet(kw, "x") = Undef \/ IsInt(KwGet(kw, "x"))
  /\ KwGet(kw, "y") = Undef \/ IsInt(KwGet(kw, "y"))
  /\ KwGet(kw, "l") = Undef \/ (KwGet(kw, "l")[1] = "l" /\ \A j \in DOMAIN KwGet(kw, "l")[2] : IsInt(KwGet(kw, "l")[2][j]))
  /\ KwGet(kw, "n") = Undef \/ (KwGet(kw, "n")[1] = "kw" /\ LET a == KwGet(KwGet(kw, "n")[2], "a") IN a = Undef \/ IsInt(a))
Input(kw) ==
  LET x == KwGet(kw, "x") y == KwGet(kw, "y") l == KwGet(kw, "l") n == KwGet(kw, "n")
      f(name, t) == IF t = Undef THEN <<>> ELSE name :> t
  IN f("x", AsInt(x)) @@ ("y" :> (IF y = Undef THEN Num(5) ELSE AsInt(y)))
     @@ f("l", IF l = Undef THEN Undef ELSE <<"l", [j \in DOMAIN l[2] |-> AsInt(l[2][j])]>>)
     @@ f("n", IF n = Undef THEN Undef ELSE <<"a", AsInt(KwGet(n[2], "a"))>>)
ValidInput(v) == /\ "x" \in DOMAIN v /\ v["x"] \notin {Num(13), Num(14)}
                 /\ "n" \in DOMAIN v => v["n"] # <<"a", Undef>>

\* what run returns, by behaviour: [cls, v, good] or an error
Returns(run, v) ==
  CASE run \in {"good", "spoil"} -> [cls |-> "Out", v |-> [r |-> Num(v["x"][2] + v["y"][2]), success |-> <<"b", TRUE>>, log |-> Str("")]]
    [] run = "fail" -> [cls |-> "Out", v |-> [r |-> Num(0), success |-> <<"b", FALSE>>, log |-> Str("bad")]]
    [] run = "sub" -> [cls |-> "SubOut", v |-> [r |-> Num(1), success |-> <<"b", TRUE>>, log |-> Str(""), more |-> Num(2)]]
    [] run = "base" -> [cls |-> "BaseOutput", v |-> [success |-> <<"b", TRUE>>, log |-> Str("")]]
    [] run = "missing" -> [cls |-> "Out", v |-> [success |-> <<"b", TRUE>>, log |-> Str("")]]
    [] run = "refused" -> [cls |-> "Out", v |-> [r |-> Num(99), success |-> <<"b", TRUE>>, log |-> Str("")]]
    [] run \in {"none", "int", "dict", "input", "other"} -> [cls |-> "", v |-> <<>>]
ValidOutput(o) == o.cls = "BaseOutput" \/ ("r" \in DOMAIN o.v /\ o.v["r"] # Num(99))
\* process_output, by behaviour
Processed(proc, o) ==
  CASE proc = "default" -> <<"res", o.v>> [] proc = "self" -> <<"out", o.cls>> [] proc = "none" -> None [] proc = "count" -> Num(Cardinality(DOMAIN o.v))
Raises == [temporary |-> "TemporaryTaskFailure", permanent |-> "PermanentTaskFailure", value |-> "ValueError", key |-> "KeyError",
           validation |-> "ValidationError", abstract |-> "NotImplementedError"]

Call(e) ==
  LET v == Input(e.kw)
      ran == [what |-> "run", cls |-> "In", v |-> v, valid |-> TRUE]
      o == Returns(e.run, v)
      proc == [what |-> "process", cls |-> o.cls, v |-> o.v, valid |-> TRUE]
  IN IF ~GoodKw(e.kw) THEN Er(<<>>, "any")
     ELSE IF ~ValidInput(v) THEN Er(<<>>, "ValueError")
     ELSE IF e.run \in DOMAIN Raises THEN Er(IF e.run = "abstract" THEN <<>> ELSE <<ran>>, Raises[e.run])
     ELSE IF o.cls = "" \/ ~ValidOutput(o) THEN Er(<<ran>>, "ValidationError")
     ELSE IF e.proc = "key" THEN Er(<<ran, proc>>, "KeyError")
     ELSE Ok(<<ran, proc>>, Processed(e.proc, o))

-----------------------------------------------------------------------------
(* Status reports: <<"st", keywords>> is a status object, <<"kw", keywords>> a dictionary.
   Progress is a number of percent <<"pc", n>>. *)
Pad(n) == IF n < 10 THEN "  " \o ToString(n) ELSE IF n < 100 THEN " " \o ToString(n) ELSE ToString(n)
GoodStatus(kw) ==
  /\ KwNames(kw) \subseteq {"progress", "message"}
  /\ KwGet(kw, "progress") = Undef \/ (KwGet(kw, "progress")[1] = "pc" /\ KwGet(kw, "progress")[2] \in 0..100)
  /\ KwGet(kw, "message") = Undef \/ KwGet(kw, "message")[1] = "s"
Status(e) ==
  LET kw == e.v[2]
      p == KwGet(kw, "progress") m == KwGet(kw, "message")
  IN IF e.v[1] \notin {"kw", "st"} THEN Er(<<>>, "ValueError")
     ELSE IF ~GoodStatus(kw) THEN Er(<<>>, "ValueError")
     ELSE Ok(<<>>, Str("Task | " \o (IF p = Undef THEN "   " ELSE Pad(p[2])) \o "% | " \o (IF m = Undef THEN "" ELSE m[2])))

Do(st, e) == CASE e.op = "call" -> Call(e) [] e.op = "status" -> Status(e)
Start(cfg) == <<>>
Agree(st, post) == st = post.log

-----------------------------------------------------------------------------
Configs == {[w |-> "tasks"]}
Kws == {<<>>, <<<<"x", Num(1)>>>>, <<<<"x", Str("3")>>, <<"y", Num(2)>>>>, <<<<"x", Str("zz")>>>>, <<<<"x", Num(13)>>>>, <<<<"x", Num(14)>>>>,
        <<<<"x", Num(2)>>, <<"zzz", Num(1)>>>>, <<<<"y", Num(1)>>>>, <<<<"x", Num(1)>>, <<"n", <<"kw", <<>>>>>>>>, <<<<"x", Num(1)>>, <<"n", <<"kw", <<<<"a", Num(4)>>>>>>>>>>,
        <<<<"x", Num(1)>>, <<"l", <<"l", <<Num(1), Str("q")>>>>>>>>, <<<<"x", Num(1)>>, <<"l", <<"l", <<Num(1), Str("3")>>>>>>>>,
        \* naming a class has no effect: the input is of the declared class
        <<<<"x", Num(1)>>, <<"__class__", Str("In")>>>>, <<<<"x", Num(1)>>, <<"__class__", Str("In2")>>>>, <<<<"__class__", Str("In2")>>>>, <<<<"x", Num(1)>>, <<"__class__", Str("BaseInput")>>>>,
        <<<<"x", Num(13)>>, <<"__class__", Str("Sub2")>>>>, <<<<"x", Num(1)>>, <<"__class__", Str("Nope")>>>>, <<<<"x", Num(1)>>, <<"n", <<"kw", <<<<"a", Num(4)>>, <<"__class__", Str("In2")>>>>>>>>>>}
Runs == {"good", "spoil", "fail", "sub", "base", "missing", "refused", "none", "int", "dict", "input", "other"} \cup DOMAIN Raises
Procs == {"default", "self", "none", "count", "key"}
Pcs == {<<"pc", n>> : n \in {0, 1, 7, 29, 50, 57, 99, 100, 101, -1}} \cup {Str("zz"), Undef}
Msgs == {Str("hi"), Str(""), Num(3), Undef}
StatusKw(p, m) == (IF p = Undef THEN <<>> ELSE <<<<"progress", p>>>>) \o (IF m = Undef THEN <<>> ELSE <<<<"message", m>>>>)
Ops(st) == {[op |-> "call", kw |-> kw, run |-> r, proc |-> p] : kw \in Kws, r \in Runs, p \in Procs}
           \cup {[op |-> "status", v |-> <<f, StatusKw(p, m)>>] : f \in {"kw"}, p \in Pcs, m \in Msgs}
           \cup {[op |-> "status", v |-> <<"st", StatusKw(p, m)>>] : p \in Pcs \ {Str("zz"), <<"pc", 101>>, <<"pc", -1>>}, m \in Msgs \ {Num(3)}}
           \cup {[op |-> "status", v |-> v] : v \in {Num(3), None, Str("x"), <<"l", <<>>>>, <<"kw", <<<<"zzz", Num(1)>>>>>>}}
Inv(st) ==
  \* whatever was called: run at most once, before processing, and only with valid input; processing only after it
  /\ Len(st) <= 2
  /\ Len(st) >= 1 => st[1].what = "run" /\ ValidInput(st[1].v)
  /\ Len(st) = 2 => st[2].what = "process" /\ ValidOutput(st[2])
=============================================================================
