----------------------------- MODULE CemStatics -----------------------------
(***************************************************************************)
(* What must be true of every form diagram in space.                       *)
(*                                                                         *)
(* A form F is a record of fixed-point observations (F.tol: tolerance)     *)
(*   nodes : id -> [p, q, r: vectors, m: moment of q + r, t: type,         *)
(*                  placed: TRUE iff its sequence was equilibrated]        *)
(*   edges : sequence of [u, v, t, f: force, fv: force vector on u,        *)
(*                  len: stored length, dist: distance of the ends]        *)
(* and T the prescription of the topology                                  *)
(*   nodes : id -> [p, q, t, org: is an origin]                            *)
(*   edges : sequence of [u, v, t, f, len, pl: TRUE iff it has a plane,    *)
(*                  from: its end that comes first in the trail,           *)
(*                  off: distance of the other end from the plane in F,    *)
(*                  off0: distance of the first end from the plane in F,   *)
(*                  tilt: sine of the angle between edge and plane in F]   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Abs(x) == IF x < 0 THEN -x ELSE x
Sgn(x) == IF x < 0 THEN -1 ELSE IF x > 0 THEN 1 ELSE 0
If(cond, name) == IF cond THEN {} ELSE {name}
NearTo(a, b, tol) == Abs(a - b) <= tol
NearVec(a, b, tol) == \A i \in 1..3 : NearTo(a[i], b[i], tol)
Zero(v, tol) == \A i \in 1..3 : Abs(v[i]) <= tol

RECURSIVE SumEdges(_, _, _, _)
\* component c of the edge forces at node n, over the edges j..
SumEdges(F, n, c, j) ==
  IF j > Len(F.edges) THEN 0
  ELSE LET e == F.edges[j]
       IN (IF e.u = n THEN e.fv[c] ELSE IF e.v = n THEN -e.fv[c] ELSE 0) + SumEdges(F, n, c, j + 1)

NodeSum(F, n) == [c \in 1..3 |-> SumEdges(F, n, c, 1) + F.nodes[n].q[c] + F.nodes[n].r[c]]

RECURSIVE SumNodes(_, _, _)
SumNodes(F, set, f) ==
  IF set = {} THEN <<0, 0, 0>>
  ELSE LET n == CHOOSE x \in set : TRUE
           s == SumNodes(F, set \ {n}, f)
           a == F.nodes[n]
       IN IF f = "force" THEN [c \in 1..3 |-> s[c] + a.q[c] + a.r[c]]
          ELSE [c \in 1..3 |-> s[c] + a.m[c]]

Placed(F) == {n \in DOMAIN F.nodes : F.nodes[n].placed}

Equilibrium(F) ==
  If(F.finite, "finite") \cup
  (IF ~F.finite THEN {} ELSE
  If(\A n \in Placed(F) : Zero(NodeSum(F, n), F.tol), "balance") \cup
  If(\A n \in DOMAIN F.nodes : F.nodes[n].t = "support" \/ F.nodes[n].lastk \/ Zero(F.nodes[n].r, 0), "reaction.place") \cup
  (IF Placed(F) # DOMAIN F.nodes THEN {} ELSE
    If(Zero(SumNodes(F, DOMAIN F.nodes, "force"), F.tol * 4), "global.force") \cup
    If(Zero(SumNodes(F, DOMAIN F.nodes, "moment"), F.mtol), "global.moment")))

Prescribed(F, T) ==
  IF ~F.finite THEN {"finite"} ELSE
  If(DOMAIN F.nodes = DOMAIN T.nodes /\ Len(F.edges) = Len(T.edges), "keys") \cup
  (IF ~(DOMAIN F.nodes = DOMAIN T.nodes /\ Len(F.edges) = Len(T.edges)) THEN {} ELSE
    If(\A n \in DOMAIN T.nodes : T.nodes[n].org => F.nodes[n].p = T.nodes[n].p, "origins") \cup
    If(\A n \in DOMAIN T.nodes : F.nodes[n].q = T.nodes[n].q, "loads") \cup
    If(\A n \in DOMAIN T.nodes : (F.nodes[n].t = "support") <=> (T.nodes[n].t = "support"), "supports") \cup
    If(\A j \in DOMAIN T.edges : F.edges[j].u = T.edges[j].u /\ F.edges[j].v = T.edges[j].v /\ F.edges[j].t = T.edges[j].t, "connectivity") \cup
    If(\A j \in DOMAIN T.edges : T.edges[j].t = "deviation" => F.edges[j].f = T.edges[j].f, "deviation.forces") \cup
    If(\A j \in DOMAIN T.edges : LET e == T.edges[j]  g == F.edges[j] IN
         (e.t = "trail" /\ e.reached) =>
            \/ g.f = 0 /\ Abs(g.dist) <= F.tol
            \/ ~e.pl /\ NearTo(g.dist, Abs(e.len), F.tol)
            \/ e.pl /\ Abs(e.off) <= F.tol * 4
            \/ e.pl /\ NearTo(g.dist, Abs(e.len), F.tol) /\ (e.tilt <= 2 \/ Abs(e.off0) <= F.tol), "trail.lengths") \cup
    If(\A j \in DOMAIN T.edges : LET e == T.edges[j]  g == F.edges[j] IN
         (e.t = "trail" /\ e.reached /\ ~e.pl) => (g.f = 0 \/ Sgn(g.f) = Sgn(e.len)), "trail.signs") \cup
    If(\A j \in DOMAIN F.edges : LET g == F.edges[j] IN
         IF Abs(g.f) > 1 THEN NearTo(g.len, g.dist * Sgn(g.f), F.tol) ELSE NearTo(Abs(g.len), g.dist, F.tol), "stored.lengths"))
=============================================================================
