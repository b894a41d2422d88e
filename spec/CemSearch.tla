----------------------------- MODULE CemSearch -----------------------------
(***************************************************************************)
(* Constrained form finding as a search: what an optimizer may do with a   *)
(* topology diagram, whatever the algorithm behind it.                     *)
(*                                                                         *)
(* A topology is a function from slots (the length of an edge, the force   *)
(* in an edge, a coordinate, a load component) to numbers. A problem P is  *)
(*   pars  : sequence of [slot, low, up]: parameters; low and up are       *)
(*           sequences: <<>> (unbounded) or <<bound>> (any sign)           *)
(*   iters : limit of evaluations                                          *)
(*   eps   : <<>> or <<threshold>>                                         *)
(*   strict: the algorithm never exceeds the limit                         *)
(*                                                                         *)
(* The search starts where the topology is, evaluates points of the box    *)
(* around it, writing every point into the topology, stops when it is told *)
(* to, and leaves the point that it reports in the topology.               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Abs(v) == IF v < 0 THEN -v ELSE v
If(cond, name) == IF cond THEN {} ELSE {name}

StartOf(P, topo) == [j \in DOMAIN P.pars |-> topo[P.pars[j].slot]]
Slots(P) == {P.pars[j].slot : j \in DOMAIN P.pars}

\* the topology with the values x of the parameters
Write(P, topo, x) ==
  [s \in DOMAIN topo |->
     IF s \in Slots(P) THEN x[CHOOSE j \in DOMAIN P.pars : P.pars[j].slot = s] ELSE topo[s]]

\* the box; tol: resolution of the observation
InBox(P, topo0, x, tol) ==
  /\ Len(x) = Len(P.pars)
  /\ \A j \in DOMAIN P.pars :
       LET p == P.pars[j]  s == topo0[p.slot] IN
       /\ p.low # <<>> => x[j] >= s - Abs(p.low[1]) - tol
       /\ p.up # <<>> => x[j] <= s + Abs(p.up[1]) + tol

Hit(P, f) == P.eps # <<>> /\ f <= P.eps[1]
=============================================================================
