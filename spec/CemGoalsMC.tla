---------------------------- MODULE CemGoalsMC ----------------------------
(***************************************************************************)
(* The errors of CemGoals against their declarative meaning: least squared *)
(* distances, for all lattice points and targets within bounds.            *)
(***************************************************************************)
EXTENDS CemGoals

CONSTANT R    \* coordinates -R..R

Pts == (-R..R) \X (-R..R) \X (-1..1)
Vecs == Pts \ {NoVec}
VARIABLES p, a, b
vars == <<p, a, b>>

Init == p \in Pts /\ a \in (0..1) \X (0..R) \X {0} /\ b \in Pts /\ a # b
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars

LeqR(x, y) == x[1] * y[2] <= y[1] * x[2]
D == Sub(b, a)

\* a point of the line is a + (k / m) d; its squared distance times m * m
LineMeaning ==
  LET e == LineError(p, a, b) IN
  /\ e[1] >= 0
  /\ \A k \in -4..4, m \in 1..3 :
       LeqR(e, <<Sqr(Sub(Mul(Sub(p, a), m), Mul(D, k))), m * m>>)
  \* it is attained at the foot point, which is on the line
  /\ LET s == Dot(Sub(p, a), D) IN
     Sqr(Sub(Mul(Sub(p, a), Sqr(D)), Mul(D, s))) = e[1] * e[2]

SegmentMeaning ==
  LET e == SegmentError(p, a, b) IN
  /\ \A m \in 1..4 : \A k \in 0..m :
       LeqR(e, <<Sqr(Sub(Mul(Sub(p, a), m), Mul(D, k))), m * m>>)
  /\ LeqR(LineError(p, a, b), e)
  /\ e = SegmentError(p, b, a) \/ (LeqR(e, SegmentError(p, b, a)) /\ LeqR(SegmentError(p, b, a), e))

PlaneMeaning ==
  LET e == PlaneError(p, a, D) IN
  /\ \A t \in Pts : Dot(Sub(t, a), D) = 0 => LeqR(e, PointError(p, t))
  /\ (e[1] = 0) <=> (Dot(Sub(p, a), D) = 0)
  \* attained at the foot point
  /\ LET s == Dot(Sub(p, a), D)
         foot == Sub(Mul(p, Sqr(D)), Mul(D, s))     \* times D.D
     IN /\ Dot(Sub(foot, Mul(a, Sqr(D))), D) = 0
        /\ Sqr(Sub(Mul(p, Sqr(D)), foot)) = e[1] * e[2]

\* a line is the intersection of planes: Pythagoras
Pythagoras ==
  LET l == LineError(p, a, b)  n == PlaneError(p, a, D)
  IN l[2] = n[2] /\ l[1] + n[1] = Sqr(Sub(p, a)) * Sqr(D)

PolyMeaning ==
  LET pts == <<a, b, NoVec>>
      e == PolyError(p, pts, 1)
  IN b # NoVec =>
     /\ \A j \in 1..3 : LeqR(e, PointError(p, pts[j]))
     /\ LeqR(e, SegmentError(p, a, b)) /\ LeqR(e, SegmentError(p, b, NoVec))
     /\ e \in {SegmentError(p, a, b), SegmentError(p, b, NoVec)}

DirectionMeaning ==
  (p # NoVec /\ IsSquare(Sqr(p)) /\ IsSquare(Sqr(D))) =>
    LET e == DirectionError(p, D) IN
    /\ e[1] >= 0 /\ LeqR(e, <<2, 1>>)
    /\ e = DirectionError(p, Sub(a, b)) /\ e = DirectionError(Mul(p, -1), D)
    \* the nearer of the two unit vectors, squared distances times (|p| |D|)^2
    /\ LET u == Mul(p, Norm(D))  t == Mul(D, Norm(p))  s == Norm(p) * Norm(D)
           near == IF Sqr(Sub(u, t)) <= Sqr(Add(u, t)) THEN Sqr(Sub(u, t)) ELSE Sqr(Add(u, t))
       IN e[1] * s = near
=============================================================================
