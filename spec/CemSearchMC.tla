---------------------------- MODULE CemSearchMC ----------------------------
(***************************************************************************)
(* All searches over a small topology, for all problems within bounds.     *)
(***************************************************************************)
EXTENDS CemSearch

CONSTANTS MaxVal,    \* a search may try -1 .. MaxVal
          MaxIters

Vals == -1..MaxVal
AllSlots == {"a", "b", "c"}
Bounds == {<<>>, <<1>>, <<-1>>, <<0>>}
Problems ==
  [pars : {<<[slot |-> "a", low |-> l, up |-> u]>> : l \in Bounds, u \in Bounds} \cup
          {<<[slot |-> "c", low |-> l, up |-> <<1>>], [slot |-> "a", low |-> <<1>>, up |-> u]>> : l \in Bounds, u \in Bounds},
   iters : 1..MaxIters, eps : {<<>>, <<0>>, <<2>>}, strict : {TRUE}]

VARIABLES P, topo0, topo, tried, phase, best
vars == <<P, topo0, topo, tried, phase, best>>

\* an objective that depends on all slots
F(t) == (t["a"] - 1) * (t["a"] - 1) + (t["c"] + t["b"]) * (t["c"] + t["b"])

Init ==
  /\ P \in Problems
  /\ topo0 \in [AllSlots -> {0, 1}]
  /\ topo = topo0 /\ tried = <<>> /\ phase = "start" /\ best = <<>>

\* the first evaluation is the starting point
Begin ==
  /\ phase = "start"
  /\ LET x == StartOf(P, topo0) IN
     /\ tried' = <<[x |-> x, f |-> F(topo0)]>>
     /\ topo' = Write(P, topo, x)
     /\ phase' = IF Hit(P, F(topo0)) \/ P.iters = 1 THEN "stop" ELSE "search"
  /\ UNCHANGED <<P, topo0, best>>

Try ==
  /\ phase = "search"
  /\ \E x \in [DOMAIN P.pars -> Vals] :
     /\ InBox(P, topo0, x, 0)
     /\ LET t == Write(P, topo, x) IN
        /\ topo' = t
        /\ tried' = Append(tried, [x |-> x, f |-> F(t)])
        /\ phase' = IF Hit(P, F(t)) \/ Len(tried) + 1 >= P.iters THEN "stop" ELSE "search"
  /\ UNCHANGED <<P, topo0, best>>

\* the algorithm is content
Settle == phase = "search" /\ phase' = "stop" /\ UNCHANGED <<P, topo0, topo, tried, best>>

Report ==
  /\ phase = "stop"
  /\ \E j \in DOMAIN tried :
     /\ tried[j].f <= tried[1].f
     /\ \A e \in DOMAIN tried : Hit(P, tried[e].f) => Hit(P, tried[j].f)
     /\ best' = <<tried[j]>>
     /\ topo' = Write(P, topo, tried[j].x)
  /\ phase' = "done"
  /\ UNCHANGED <<P, topo0, tried>>

Next == Begin \/ Try \/ Settle \/ Report
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

-----------------------------------------------------------------------------
WithinBounds ==
  \A j \in DOMAIN P.pars : LET p == P.pars[j] IN
    /\ p.low # <<>> => topo[p.slot] >= topo0[p.slot] - Abs(p.low[1])
    /\ p.up # <<>> => topo[p.slot] <= topo0[p.slot] + Abs(p.up[1])
OnlyParameters == \A s \in AllSlots : s \notin Slots(P) => topo[s] = topo0[s]
Reported == phase = "done" =>
  /\ F(topo) = best[1].f
  /\ StartOf(P, topo) = best[1].x
  /\ best[1].f <= F(topo0)
Limited == Len(tried) <= P.iters
StopsAtThreshold == \A j \in DOMAIN tried : Hit(P, tried[j].f) => j = Len(tried)
Ends == <>(phase = "done")
=============================================================================
