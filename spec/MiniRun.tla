------------------------------- MODULE MiniRun -------------------------------
(***************************************************************************)
(* Running one of the small specifications (Uid, Pointers, Singletons,     *)
(* Tasks, Files, Decl).  Such a module defines                             *)
(*   Start(cfg)      the initial state of a world configured by cfg        *)
(*   Do(st, e)       [ok, kind, v, st]: the prescribed effect of operation *)
(*   Agree(st, post) the observed state agrees with the specified one      *)
(*   Configs, Ops(st), Inv(st)  what is explored, and what must hold       *)
(* TraceSpec judges recorded executions of the library; ExploreSpec        *)
(* enumerates every history up to MaxDepth (states identified by VIEW) and *)
(* prints each as JSON, to be replayed into the library.                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt

CONSTANTS Sessions, Do(_, _), Agree(_, _), Start(_), Ops(_), Inv(_), Configs, MaxDepth
VARIABLES k, i, st, out, hist

-----------------------------------------------------------------------------
TraceInit == k = 1 /\ i = 1 /\ st = Start(Sessions[1].cfg) /\ out = <<>> /\ hist = <<>>
Judge(r, e) ==
  (IF r.ok = e.res.ok THEN {} ELSE {"ok"})
  \cup (IF r.ok \/ e.res.ok \/ r.kind = "any" \/ Contains(e.res.kinds, r.kind) THEN {} ELSE {"kind"})
  \cup (IF r.ok /\ e.res.ok /\ r.v # <<"skip">> /\ r.v # e.res.v THEN {"value"} ELSE {})
  \cup (IF Agree(r.st, e.post) THEN {} ELSE {"state"})
  \cup (IF e.argsame THEN {} ELSE {"args"})
StartOf(n) == IF n > Len(Sessions) THEN <<>> ELSE Start(Sessions[n].cfg)
TraceNext ==
  /\ k <= Len(Sessions)
  /\ hist' = hist
  /\ IF i = 1 THEN PrintT(<<"AT", k>>) ELSE TRUE
  /\ LET s == Sessions[k] IN
     IF i > Len(s.evs)
     THEN k' = k + 1 /\ i' = 1 /\ st' = StartOf(k + 1) /\ out' = out
     ELSE LET e == s.evs[i]
              r == Do(st, e)
              bad == Judge(r, e)
          IN IF bad = {} THEN k' = k /\ i' = i + 1 /\ st' = r.st /\ out' = out
             ELSE /\ k' = k + 1 /\ i' = 1 /\ st' = StartOf(k + 1)
                  /\ out' = Append(out, [id |-> s.id, at |-> i, clauses |-> SetToSeq(bad), relevant |-> SetToSeq(bad),
                                         want |-> [ok |-> r.ok, kind |-> r.kind, v |-> ToString(r.v), state |-> ToString(r.st)]])
  /\ k' > Len(Sessions) => JsonSerialize(IOEnv.VERDICT, [done |-> TRUE, bad |-> out'])
TraceView == <<k, i>>
TraceSpec == TraceInit /\ [][TraceNext]_<<k, i, st, out, hist>>

-----------------------------------------------------------------------------
ExploreInit == k = 0 /\ i = 0 /\ out \in Configs /\ st = Start(out) /\ hist = <<>>
ExploreNext ==
  /\ i < MaxDepth
  /\ \E e \in Ops(st) :
       LET r == Do(st, e) IN
       /\ st' = r.st /\ hist' = Append(hist, e) /\ i' = i + 1 /\ UNCHANGED <<k, out>>
       /\ PrintT(ToJson([cfg |-> out, ops |-> hist']))
ExploreView == <<out, st>>
ExploreInv == Inv(st)
ExploreSpec == ExploreInit /\ [][ExploreNext]_<<k, i, st, out, hist>>
=============================================================================
