------------------------------ MODULE MiniBase ------------------------------
(* What the small specifications share: terms and outcomes *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt
None == <<"none">>
Undef == <<"undef">>
Skip == <<"skip">>
Str(x) == <<"s", x>>
Num(x) == <<"i", x>>
H(x) == <<"h", x>>
Get(f, x, d) == IF x \in DOMAIN f THEN f[x] ELSE d
Put(f, x, y) == (x :> y) @@ f
Drop(f, xs) == [x \in DOMAIN f \ xs |-> f[x]]
Ok(st, v) == [ok |-> TRUE, kind |-> "", v |-> v, st |-> st]
Er(st, kind) == [ok |-> FALSE, kind |-> kind, v |-> None, st |-> st]
\* keyword lists <<<<name, term>>, ...>>
KwNames(kw) == {kw[j][1] : j \in DOMAIN kw}
Kw(kw, n) == kw[CHOOSE j \in DOMAIN kw : kw[j][1] = n][2]
SameFun(f, g) == DOMAIN f = DOMAIN g /\ \A x \in DOMAIN f : f[x] = g[x]
=============================================================================
