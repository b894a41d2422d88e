------------------------------- MODULE CemBook -------------------------------
(***************************************************************************)
(* The book an optimizer keeps: parameters and constraints, added and      *)
(* removed under keys, and what a solve makes of them.                     *)
(*   B.pars, B.goals : sequences of [k, s]: key and what it stands for, in *)
(*                     the order in which they were added                  *)
(*   B.pused, B.gused: keys ever handed out                                *)
(*   B.val           : the values of the quantities in the topology        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Keys(s) == {s[j].k : j \in DOMAIN s}
Without(s, k) == SelectSeq(s, LAMBDA e : e.k # k)

Solvable(B, op) ==
  /\ Len(B.pars) > 0 /\ Len(B.goals) > 0
  /\ op.grad \in {"AD", "FD"}
  /\ op.algorithm \in {"SLSQP", "LBFGS", "MMA", "TNEWTON", "AUGLAG", "VAR"}

Succeeds(B, op) ==
  CASE op.op \in {"addP", "addC"} -> TRUE
    [] op.op = "remP" -> op.k \in Keys(B.pars)
    [] op.op = "remC" -> op.k \in Keys(B.goals)
    [] op.op = "solve" -> Solvable(B, op)

\* k: the key handed out by an addition
Apply(B, op, k) ==
  IF ~Succeeds(B, op) THEN B ELSE
  CASE op.op = "addP" -> [B EXCEPT !.pars = Append(@, [k |-> k, s |-> op.s]), !.pused = @ \cup {k}]
    [] op.op = "addC" -> [B EXCEPT !.goals = Append(@, [k |-> k, s |-> op.s]), !.gused = @ \cup {k}]
    [] op.op = "remP" -> [B EXCEPT !.pars = Without(@, op.k)]
    [] op.op = "remC" -> [B EXCEPT !.goals = Without(@, op.k)]
    [] op.op = "solve" -> B          \* with a limit of one evaluation

\* what the algorithm is given
Start(B) == [j \in DOMAIN B.pars |-> B.val[B.pars[j].s]]
RECURSIVE Pow8(_)
Pow8(n) == IF n = 0 THEN 1 ELSE 8 * Pow8(n - 1)
RECURSIVE WeightSum(_, _)
WeightSum(goals, j) == IF j > Len(goals) THEN 0 ELSE Pow8(goals[j].s) + WeightSum(goals, j + 1)
\* goal s has weight 8^s and error one
Objective(B) == WeightSum(B.goals, 1)

Distinct(s) == \A i, j \in DOMAIN s : s[i].k = s[j].k => i = j
Sane(B) == /\ Distinct(B.pars) /\ Distinct(B.goals)
           /\ Keys(B.pars) \subseteq B.pused /\ Keys(B.goals) \subseteq B.gused
=============================================================================
