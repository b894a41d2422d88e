----------------------------- MODULE CemGoals -----------------------------
(***************************************************************************)
(* Goals, their errors, the objective and its derivatives, exactly.        *)
(*                                                                         *)
(* The diagrams here live on the integer lattice: trail edges leave along  *)
(* vectors of integer length, so that the form, and the squared error of   *)
(* every goal, is a rational number. Deviation edges connect nodes of the  *)
(* same sequence, hence one pass finds the form.                           *)
(*                                                                         *)
(* An instance I is a record                                               *)
(*   x, q   : node -> <<x, y, z>>: initial position, load                  *)
(*   trails : sequence of sequences of nodes, from origin to support       *)
(*   len    : node -> signed length of the trail edge that leaves it       *)
(*   dev    : sequence of [a, b, f]: deviation edges and their forces      *)
(*   goals  : sequence of goals, [kind, n or <<a, b>>, target, w2]         *)
(*   pars   : sequence of [kind, at, c, h]: parameters                     *)
(* Nodes are 1..Len(I.x); w2 is twice the weight of a goal.                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Abs(v) == IF v < 0 THEN -v ELSE v
Sgn(v) == IF v < 0 THEN -1 ELSE IF v > 0 THEN 1 ELSE 0
If(cond, name) == IF cond THEN {} ELSE {name}

Add(a, b) == <<a[1] + b[1], a[2] + b[2], a[3] + b[3]>>
Sub(a, b) == <<a[1] - b[1], a[2] - b[2], a[3] - b[3]>>
Mul(a, k) == <<a[1] * k, a[2] * k, a[3] * k>>
Div(a, k) == <<Sgn(a[1]) * (Abs(a[1]) \div k), Sgn(a[2]) * (Abs(a[2]) \div k), Sgn(a[3]) * (Abs(a[3]) \div k)>>
Dot(a, b) == a[1] * b[1] + a[2] * b[2] + a[3] * b[3]
Sqr(a) == Dot(a, a)
NoVec == <<0, 0, 0>>

\* integer square root by bisection
RECURSIVE RootIn(_, _, _)
RootIn(s, lo, hi) ==
  IF hi - lo <= 1 THEN lo
  ELSE LET m == (lo + hi) \div 2 IN IF m * m <= s THEN RootIn(s, m, hi) ELSE RootIn(s, lo, m)
Root(s) == RootIn(s, 0, 40000)
IsSquare(s) == Root(s) * Root(s) = s
Norm(v) == Root(Sqr(v))

-----------------------------------------------------------------------------
(* The form *)

TrailOf(I, n) == CHOOSE j \in DOMAIN I.trails : \E i \in DOMAIN I.trails[j] : I.trails[j][i] = n
RankOf(I, n) == LET t == I.trails[TrailOf(I, n)] IN CHOOSE i \in DOMAIN t : t[i] = n
PrevOf(I, n) == I.trails[TrailOf(I, n)][RankOf(I, n) - 1]
NextOf(I, n) == I.trails[TrailOf(I, n)][RankOf(I, n) + 1]
IsSupport(I, n) == RankOf(I, n) = Len(I.trails[TrailOf(I, n)])

RECURSIVE Pos(_, _), Out(_, _), Pull(_, _, _)
\* where a node is, and what it hands on to the next node of its trail
Pos(I, n) ==
  IF RankOf(I, n) = 1 THEN I.x[n]
  ELSE LET p == PrevOf(I, n)
           r == Out(I, p)
       IN Add(Pos(I, p), Div(Mul(r, I.len[p]), Norm(r)))
Out(I, n) ==
  LET in == IF RankOf(I, n) = 1 THEN NoVec ELSE Out(I, PrevOf(I, n))
  IN Sub(Sub(in, I.q[n]), Pull(I, n, 1))
Pull(I, n, j) ==
  IF j > Len(I.dev) THEN NoVec
  ELSE LET e == I.dev[j]
           rest == Pull(I, n, j + 1)
       IN IF e.a # n /\ e.b # n THEN rest
          ELSE LET v == Sub(Pos(I, IF e.a = n THEN e.b ELSE e.a), Pos(I, n))
               IN Add(rest, Div(Mul(v, e.f), Norm(v)))

Reaction(I, n) == Out(I, n)
TrailForce(I, n) == Sgn(I.len[n]) * Norm(Out(I, n))

\* is the instance on the lattice, and away from everything singular?
OnLattice(I) ==
  /\ \A n \in DOMAIN I.x : ~IsSupport(I, n) =>
       /\ Out(I, n) # NoVec /\ I.len[n] # 0
       /\ IsSquare(Sqr(Out(I, n)))
       /\ \A c \in 1..3 : (Abs(Out(I, n)[c] * I.len[n])) % Norm(Out(I, n)) = 0
  /\ \A j \in DOMAIN I.dev :
       LET v == Sub(Pos(I, I.dev[j].a), Pos(I, I.dev[j].b))
       IN v # NoVec /\ IsSquare(Sqr(v)) /\ \A c \in 1..3 : Abs(v[c] * I.dev[j].f) % Norm(v) = 0

-----------------------------------------------------------------------------
(* Squared errors, as <<numerator, denominator>> *)

Least(a, b) == IF a[1] * b[2] <= b[1] * a[2] THEN a ELSE b

PointError(p, t) == <<Sqr(Sub(p, t)), 1>>
LineError(p, a, b) ==
  LET d == Sub(b, a)  w == Sub(p, a)
  IN <<Sqr(w) * Sqr(d) - Dot(w, d) * Dot(w, d), Sqr(d)>>
PlaneError(p, o, n) == <<Dot(Sub(p, o), n) * Dot(Sub(p, o), n), Sqr(n)>>
SegmentError(p, a, b) ==
  LET d == Sub(b, a)  s == Dot(Sub(p, a), d)
  IN IF s <= 0 THEN PointError(p, a) ELSE IF s >= Sqr(d) THEN PointError(p, b) ELSE LineError(p, a, b)
RECURSIVE PolyError(_, _, _)
PolyError(p, pts, j) ==
  IF j = Len(pts) - 1 THEN SegmentError(p, pts[j], pts[j + 1])
  ELSE Least(SegmentError(p, pts[j], pts[j + 1]), PolyError(p, pts, j + 1))
\* numbers to numbers; targets are given twofold
NumberError(v, t2) == <<(2 * v - t2) * (2 * v - t2), 4>>
\* unit vectors, the nearer of the two orientations of the target: 2 - 2 |cos|
DirectionError(e, t) == <<2 * (Norm(e) * Norm(t) - Abs(Dot(e, t))), Norm(e) * Norm(t)>>

GoalError(I, g) ==
  CASE g.kind = "point"     -> PointError(Pos(I, g.n), g.t[1])
    [] g.kind = "line"      -> LineError(Pos(I, g.n), g.t[1], g.t[2])
    [] g.kind = "plane"     -> PlaneError(Pos(I, g.n), g.t[1], g.t[2])
    [] g.kind = "polyline"  -> PolyError(Pos(I, g.n), g.t, 1)
    [] g.kind = "length"    -> NumberError(Norm(Sub(Pos(I, g.n), Pos(I, g.m))), g.t[1])
    [] g.kind = "force"     -> NumberError(TrailForce(I, g.n), g.t[1])
    [] g.kind = "reaction"  -> PointError(Reaction(I, g.n), g.t[1])
    [] g.kind = "direction" -> DirectionError(Sub(Pos(I, g.m), Pos(I, g.n)), g.t[1])

\* is the error of the goal a rational number that TLC can compute?
GoalFits(I, g) ==
  /\ g.kind \in {"length", "direction"} =>
       LET v == Sub(Pos(I, g.m), Pos(I, g.n)) IN v # NoVec /\ IsSquare(Sqr(v))
  /\ g.kind = "direction" => IsSquare(Sqr(g.t[1]))

Unit == 10000
\* k/2 times a rational, in units of 1/Unit
Scaled(r, k) == ((r[1] \div r[2]) * Unit * k + ((r[1] % r[2]) * Unit * k) \div r[2]) \div 2

RECURSIVE ObjectiveFrom(_, _)
ObjectiveFrom(I, j) == IF j > Len(I.goals) THEN 0 ELSE Scaled(GoalError(I, I.goals[j]), I.goals[j].w2) + ObjectiveFrom(I, j + 1)
Objective(I) == ObjectiveFrom(I, 1)

-----------------------------------------------------------------------------
(* Parameters: what they stand for, and derivatives of the objective       *)

Value(I, p) ==
  CASE p.kind = "length" -> I.len[p.at]
    [] p.kind = "force"  -> I.dev[p.at].f
    [] p.kind = "origin" -> I.x[p.at][p.c]
    [] p.kind = "load"   -> I.q[p.at][p.c]
With(I, p, v) ==
  CASE p.kind = "length" -> [I EXCEPT !.len[p.at] = v]
    [] p.kind = "force"  -> [I EXCEPT !.dev[p.at].f = v]
    [] p.kind = "origin" -> [I EXCEPT !.x[p.at][p.c] = v]
    [] p.kind = "load"   -> [I EXCEPT !.q[p.at][p.c] = v]

\* Where the objective is quadratic in a parameter, its derivative is the
\* symmetric difference. This is so for the instances of the "smooth" family:
\*   lengths and origins of trails without deviation edges, and goals for
\*   positions (point, line, plane), or
\*   loads and deviation forces where deviation edges connect origins only,
\*   and goals for reactions.
\* (p.h is a step that stays on the lattice)
Derivative(I, p) == (Objective(With(I, p, Value(I, p) + p.h)) - Objective(With(I, p, Value(I, p) - p.h))) \div (2 * p.h)
=============================================================================
