------------------------------ MODULE CemBookMC ------------------------------
(* All short histories of an optimizer's book.                              *)
EXTENDS CemBook, Json, TLC
CONSTANTS DEPTH, EMIT, NS, NG
VARIABLES B, hist, last
vars == <<B, hist, last>>

Fresh(used) == CHOOSE k \in 0..DEPTH : k \notin used /\ \A j \in 0..DEPTH : j \notin used => k <= j

Ops == {[op |-> "addP", s |-> s] : s \in 0..(NS - 1)}
  \cup {[op |-> "addC", s |-> s] : s \in 0..(NG - 1)}
  \cup {[op |-> "remP", k |-> k] : k \in B.pused \cup {Fresh(B.pused)}}
  \cup {[op |-> "remC", k |-> k] : k \in B.gused \cup {Fresh(B.gused)}}
  \cup {[op |-> "solve", grad |-> "AD", algorithm |-> "SLSQP"], [op |-> "solve", grad |-> "FD", algorithm |-> "MMA"],
        [op |-> "solve", grad |-> "no such", algorithm |-> "SLSQP"], [op |-> "solve", grad |-> "AD", algorithm |-> "no such"]}

Init == /\ B = [pars |-> <<>>, goals |-> <<>>, pused |-> {}, gused |-> {}, val |-> [s \in 0..(NS - 1) |-> 10 + s]]
        /\ hist = <<>> /\ last = [op |-> "init"]

Do(op) ==
  LET k == IF op.op = "addP" THEN Fresh(B.pused) ELSE IF op.op = "addC" THEN Fresh(B.gused) ELSE -1
  IN /\ B' = Apply(B, op, k)
     /\ hist' = Append(hist, op)
     /\ last' = [op |-> op, ok |-> Succeeds(B, op)]
     /\ (EMIT => PrintT(ToJson([h |-> hist'])))

Next == Len(hist) < DEPTH /\ \E op \in Ops : Do(op)
Spec == Init /\ [][Next]_vars
View == <<B, last, Len(hist)>>

SaneOK == Sane(B)
\* exactly what was added and not removed
CountOK ==
  LET adds(o) == Cardinality({j \in DOMAIN hist : hist[j].op = o})
      removed(o, a) == Cardinality({k \in 0..DEPTH : \E j \in DOMAIN hist : hist[j].op = o /\ hist[j].k = k
                            /\ Cardinality({i \in 1..j : hist[i].op = a}) > k})
  IN /\ Len(B.pars) = adds("addP") - removed("remP", "addP")
     /\ Len(B.goals) = adds("addC") - removed("remC", "addC")
OrderOK == /\ \A i, j \in DOMAIN B.pars : i < j => B.pars[i].k < B.pars[j].k
           /\ \A i, j \in DOMAIN B.goals : i < j => B.goals[i].k < B.goals[j].k
RefusedOK == [][ ~last'.ok => B' = B ]_vars
NeverReused == [][ /\ B.pused \subseteq B'.pused /\ B.gused \subseteq B'.gused
                   /\ \A k \in Keys(B'.pars) \ Keys(B.pars) : k \notin B.pused
                   /\ \A k \in Keys(B'.goals) \ Keys(B.goals) : k \notin B.gused
                   /\ B'.val = B.val ]_vars
=============================================================================
