-------------------------------- MODULE Files --------------------------------
(***************************************************************************)
(* File and image properties.                                              *)
(*                                                                         *)
(* A holder h1 or h2 has one property f: a file property (cfg.k = "file")  *)
(* with a mode ("" for none) and a list of valid modes (empty for none     *)
(* given), or an image property (cfg.k = "png") with a mode.  Paths: some  *)
(* hold text, some PNG images, one is a directory, others do not exist.    *)
(* Contents are tokens; those in Images are PNG files.                     *)
(*                                                                         *)
(* files: path -> content; streams: stream -> [k, mode, path, data,        *)
(* closed], k being "file" (opened by anybody), "mem" (bytes in memory),   *)
(* "txt" (text in memory), "half" (can read but not seek), "pix" (a PNG    *)
(* image object) or "img" (the copy an image property makes); hold: holder *)
(* -> stream or ""; slots: serialized images.                              *)
(***************************************************************************)
EXTENDS MiniBase

Images == {"A", "B", "G"}
RModes == {"r", "r+", "rb", "rb+"}
WModes == {"w", "w+", "wb", "wb+"}
Reported(m) == IF m = "wb+" THEN "rb+" ELSE m
Content(st, x) == IF st.streams[x].k = "file" THEN st.files[st.streams[x].path] ELSE st.streams[x].data
\* opening a path: [ok, st]
Opens(st, path, mode, x) ==
  IF path = "dir" \/ (mode \in RModes /\ path \notin DOMAIN st.files) THEN [ok |-> FALSE, st |-> st]
  ELSE [ok |-> TRUE, st |-> [st EXCEPT !.files = IF mode \in WModes \/ path \notin DOMAIN st.files THEN Put(@, path, "") ELSE @,
                                       !.streams = Put(@, x, [k |-> "file", mode |-> Reported(mode), path |-> path, data |-> "", closed |-> FALSE])]]
Valid(cfg) == IF cfg.k = "png" THEN (IF cfg.valid = <<>> THEN {"rb", "rb+", "wb+", "ab+"} ELSE Range(cfg.valid))
              ELSE IF cfg.valid # <<>> THEN Range(cfg.valid) ELSE IF cfg.mode = "" THEN {} ELSE {cfg.mode}
GoodMode(cfg, m) == Valid(cfg) = {} \/ m \in Valid(cfg) \/ (m = "rb+" /\ "wb+" \in Valid(cfg))
No(st) == [ok |-> FALSE, x |-> "", st |-> st]
\* accepting a stream as an open file
Usable(st, x) == LET s == st.streams[x] IN
  /\ s.k \in {"file", "mem", "txt", "img"} /\ ~s.closed
  /\ s.k = "file" => GoodMode(st.cfg, s.mode)
AcceptFile(st, v, x) ==
  CASE v[1] = "s" /\ st.cfg.mode # "" -> LET o == Opens(st, v[2], st.cfg.mode, x) IN [ok |-> o.ok, x |-> x, st |-> o.st]
    [] v[1] = "h" -> IF Usable(st, v[2]) THEN [ok |-> TRUE, x |-> v[2], st |-> st] ELSE No(st)
    [] OTHER -> No(st)
\* an image property stores a copy and closes what it was given
\* (a PNG image object can be written once: what happens the second time is not specified)
CopyOf(st, x, y) == [st EXCEPT !.streams = Put(IF st.streams[x].k = "pix" THEN [@ EXCEPT ![x].path = "used"] ELSE [@ EXCEPT ![x].closed = TRUE], y,
                                               [k |-> "img", mode |-> "", path |-> "", data |-> Content(st, x), closed |-> FALSE])]
Accept(st, v, x) ==
  IF st.cfg.k = "file" THEN AcceptFile(st, v, x)
  ELSE IF v[1] = "h" /\ st.streams[v[2]].k = "img" /\ ~st.streams[v[2]].closed THEN [ok |-> TRUE, x |-> v[2], st |-> st]
  ELSE IF v[1] = "h" /\ st.streams[v[2]].k = "pix" THEN [ok |-> TRUE, x |-> x, st |-> CopyOf(st, v[2], x)]
  ELSE LET a == AcceptFile(st, v, x \o "f") IN
       IF ~a.ok THEN No(a.st)
       ELSE IF st.streams # a.st.streams
            THEN (IF Content(a.st, a.x) \in Images THEN [ok |-> TRUE, x |-> x, st |-> [CopyOf(a.st, a.x, x) EXCEPT !.streams = Drop(@, {a.x})]]
                  ELSE No([a.st EXCEPT !.streams = st.streams]))
       ELSE IF Content(st, a.x) \in Images /\ st.streams[a.x].k # "txt" THEN [ok |-> TRUE, x |-> x, st |-> CopyOf(st, a.x, x)] ELSE No(st)

Seen(st, x) == IF st.streams[x].k = "img" THEN <<"img", 0, st.cfg.name, st.streams[x].data>> ELSE H(x)
SetF(st, e) ==
  IF e.v = Undef THEN Ok([st EXCEPT !.hold[e.h] = ""], None)
  ELSE LET a == Accept(st, e.v, e.x) IN
       IF a.ok THEN Ok([a.st EXCEPT !.hold[e.h] = a.x], Seen(a.st, a.x)) ELSE Er(a.st, "ValueError")
Open(st, e) == LET o == Opens(st, e.path, e.mode, e.x) IN IF o.ok THEN Ok(o.st, None) ELSE Er(st, "OSError")
Validate(st, e) ==
  LET x == st.hold[e.h] IN
  IF x # "" /\ (IF st.cfg.k = "file" THEN Usable(st, x) ELSE ~st.streams[x].closed) THEN Ok(st, <<"b", TRUE>>) ELSE Er(st, "ValueError")

Do(st, e) ==
  CASE e.op = "open" -> Open(st, e)
    [] e.op = "make" -> Ok([st EXCEPT !.streams = Put(@, e.x, [k |-> e.k, mode |-> "", path |-> "", data |-> e.data, closed |-> FALSE])], None)
    [] e.op = "close" -> Ok([st EXCEPT !.streams[e.x].closed = TRUE], None)
    [] e.op = "part" -> Ok(st, None)                                          \* reads some bytes
    [] e.op = "read" -> Ok(st, <<"data", Content(st, e.x)>>)                  \* all of them
    [] e.op = "write" -> Ok([st EXCEPT !.files = Put(@, e.path, e.data)], None)
    [] e.op = "set" -> SetF(st, e)
    [] e.op = "get" -> Ok(st, IF st.hold[e.h] = "" THEN None ELSE H(st.hold[e.h]))
    [] e.op = "del" -> LET x == st.hold[e.h] IN
                       Ok([st EXCEPT !.hold[e.h] = "", !.streams = IF x = "" THEN @ ELSE [@ EXCEPT ![x].closed = TRUE]], None)
    [] e.op = "validate" -> Validate(st, e)
    [] e.op = "ser" -> LET d == Content(st, st.hold[e.h]) IN Ok([st EXCEPT !.slots = Put(@, e.s, d)], <<"png", d, 0>>)
    [] e.op = "edit" -> Ok([st EXCEPT !.slots = Put(@, e.s, e.d)], None)
    [] e.op = "deser" -> LET d == st.slots[e.s] IN
                         IF d \notin Images THEN Er(st, "any")
                         ELSE Ok([st EXCEPT !.streams = Put(@, e.x, [k |-> "img", mode |-> "", path |-> "", data |-> d, closed |-> FALSE]),
                                            !.hold[e.h] = e.x], <<"img", 0, st.cfg.name, d>>)
    [] e.op = "copy" -> LET d == Content(st, st.hold[e.h]) IN
                        Ok([st EXCEPT !.streams = Put(@, e.x, [k |-> "img", mode |-> "", path |-> "", data |-> d, closed |-> FALSE]),
                                      !.hold[e.g] = e.x], <<"img", 0, st.cfg.name, d>>)

Start(cfg) == [cfg |-> cfg, files |-> [a |-> "A", b |-> "B", t |-> "T", e |-> ""], streams |-> <<>>, hold |-> [h1 |-> "", h2 |-> ""], slots |-> <<>>]
Agree(st, post) ==
  /\ SameFun(st.files, post.files)
  /\ DOMAIN st.streams = DOMAIN post.streams
  /\ \A x \in DOMAIN st.streams : st.streams[x].closed = post.streams[x]
  /\ SameFun(st.hold, post.hold)

-----------------------------------------------------------------------------
FileModes == RModes \cup WModes \cup {"a", "a+", "ab", "ab+"}
Configs == {[k |-> "file", mode |-> m, valid |-> v, name |-> ""] : m \in {"", "r", "rb", "wb+", "a"}, v \in {<<>>}}
           \cup {[k |-> "file", mode |-> "rb", valid |-> <<"r", "rb">>, name |-> ""]}
           \cup {[k |-> "png", mode |-> m, valid |-> <<>>, name |-> "texture.png"] : m \in {"rb", "ab+"}}
           \cup {[k |-> "png", mode |-> "rb", valid |-> <<"rb">>, name |-> "p.png"]}
Ops(st) ==
  LET n == Cardinality(DOMAIN st.streams)
      x == "x" \o ToString(n + 1)
      sh == DOMAIN st.streams
      held == st.hold["h1"] # ""
      openheld == held /\ ~st.streams[st.hold["h1"]].closed
      png == st.cfg.k = "png"
  IN (IF n < 3 THEN
        {[op |-> "open", x |-> x, path |-> p, mode |-> m] : p \in {IF png THEN "a" ELSE "t"}, m \in {"r", "rb", "rb+", "ab"}}
        \cup {[op |-> "open", x |-> x, path |-> "new", mode |-> "wb+"]}
        \cup {[op |-> "make", x |-> x, k |-> k, data |-> d] : k \in {"mem"}, d \in {"A", "T", ""}}
        \cup {[op |-> "make", x |-> x, k |-> k, data |-> IF k = "pix" THEN "G" ELSE "T"] : k \in {"txt", "half", "pix"}}
        \cup {[op |-> "set", h |-> "h1", v |-> Str(p), x |-> x] : p \in {"t", "a", "e", "no", "dir"}}
      ELSE {})
     \cup {[op |-> "set", h |-> "h1", v |-> v, x |-> x] : v \in {None, Undef, Num(3)}}
     \cup {[op |-> "set", h |-> h, v |-> H(y), x |-> x] : h \in {"h1"}, y \in {z \in sh : st.streams[z].path # "used"}}
     \cup {[op |-> "close", x |-> y] : y \in {z \in sh : st.streams[z].k \notin {"half", "pix"}}}
     \cup {[op |-> "part", x |-> y] : y \in {z \in sh : ~st.streams[z].closed /\ st.streams[z].k \in {"file", "mem", "img"} /\ st.streams[z].mode \in {"", "rb"}}}
     \cup {[op |-> "del", h |-> "h1"], [op |-> "validate", h |-> "h1"], [op |-> "get", h |-> "h1"]}
     \cup (IF png /\ openheld THEN {[op |-> "ser", h |-> "h1", s |-> "s"], [op |-> "copy", h |-> "h1", g |-> "h2", x |-> x],
                                    [op |-> "read", x |-> st.hold["h1"]]} ELSE {})
     \cup (IF "s" \in DOMAIN st.slots THEN {[op |-> "deser", h |-> "h2", s |-> "s", x |-> x], [op |-> "edit", s |-> "s", d |-> "T"], [op |-> "edit", s |-> "s", d |-> "bad"]} ELSE {})
Inv(st) ==
  \* what an image property holds is an image of its own
  /\ st.cfg.k = "png" => \A h \in {"h1", "h2"} : st.hold[h] # "" => st.streams[st.hold[h]].k = "img" /\ st.streams[st.hold[h]].data \in Images
  \* and serializing it keeps its bytes
  /\ \A s \in DOMAIN st.slots : st.slots[s] \in Images \cup {"T", "bad"}
  \* a file property without a mode never opens a file
  /\ (st.cfg.k = "file" /\ st.cfg.mode = "") => ~Accept(st, Str("t"), "z").ok
  /\ st.cfg.k = "file" => \A h \in {"h1", "h2"} : st.hold[h] # "" => st.streams[st.hold[h]].k \in {"file", "mem", "txt"}
=============================================================================
