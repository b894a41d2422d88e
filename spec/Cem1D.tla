------------------------------- MODULE Cem1D -------------------------------
(***************************************************************************)
(* Form finding, exactly: the combinatorial equilibrium method for         *)
(* diagrams whose nodes, loads and planes lie on one line, in integers.    *)
(*                                                                         *)
(* Nothing is approximated on a line: unit vectors are -1, 0 or 1, so that *)
(* the specification predicts every position, force and reaction, which    *)
(* passes are made, and whether the result is returned or rejected. All    *)
(* degenerate situations occur (coincident nodes, zero residuals, planes   *)
(* that are already reached or parallel to the trail).                     *)
(*                                                                         *)
(* An instance I is a record                                               *)
(*   x, q   : node -> initial position, load                               *)
(*   trails : sequence of [n: sequence of nodes, s: first sequence]        *)
(*   len    : node -> signed length of the trail edge that leaves it       *)
(*   pl     : node -> <<>>, <<"at", position>> or <<"never", 0>>: plane    *)
(*   dev    : sequence of [a, b, f]: deviation edges                       *)
(*   kmax   : last sequence, or -1 ; tmax : passes ; eta2 : 2 * eta        *)
(* Nodes are 1..Len(I.x).                                                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Abs(v) == IF v < 0 THEN -v ELSE v
Sgn(v) == IF v < 0 THEN -1 ELSE IF v > 0 THEN 1 ELSE 0

NodesOf(I) == 1..Len(I.x)
TrailIdx(I, n) == CHOOSE j \in DOMAIN I.trails : \E i \in DOMAIN I.trails[j].n : I.trails[j].n[i] = n
PosIn(I, n) == LET tr == I.trails[TrailIdx(I, n)].n IN CHOOSE i \in DOMAIN tr : tr[i] = n
SeqOf(I, n) == I.trails[TrailIdx(I, n)].s + PosIn(I, n) - 1
IsSupport(I, n) == PosIn(I, n) = Len(I.trails[TrailIdx(I, n)].n)
IsOrigin(I, n) == PosIn(I, n) = 1
NextOf(I, n) == I.trails[TrailIdx(I, n)].n[PosIn(I, n) + 1]
KLast(I) == CHOOSE k \in {SeqOf(I, n) : n \in NodesOf(I)} : \A n \in NodesOf(I) : SeqOf(I, n) <= k
KEnd(I) == IF I.kmax >= 0 /\ I.kmax < KLast(I) THEN I.kmax ELSE KLast(I)
IsDirect(I, e) == SeqOf(I, e.a) = SeqOf(I, e.b)

\* static data of an instance, computed once
Static(I) ==
  [k |-> [n \in NodesOf(I) |-> SeqOf(I, n)],
   sup |-> [n \in NodesOf(I) |-> IsSupport(I, n)],
   next |-> [n \in NodesOf(I) |-> IF IsSupport(I, n) THEN 0 ELSE NextOf(I, n)],
   direct |-> [j \in DOMAIN I.dev |-> IsDirect(I, I.dev[j])]]

\* the nodes in the order in which a pass visits them
RECURSIVE OrderFrom(_, _, _)
OrderFrom(I, k, j) ==
  IF k > KEnd(I) THEN <<>>
  ELSE IF j > Len(I.trails) THEN OrderFrom(I, k + 1, 1)
  ELSE LET tr == I.trails[j]
           i == k - tr.s + 1
       IN (IF i \in DOMAIN tr.n THEN <<tr.n[i]>> ELSE <<>>) \o OrderFrom(I, k, j + 1)
Order(I) == OrderFrom(I, 0, 1)

-----------------------------------------------------------------------------
(* One visit. deg: something was degenerate, so that the prediction only    *)
(* holds where arithmetic is exact; big: numbers for which floating-point  *)
(* unit vectors are not exact anymore (1/49*49 is not 1)                   *)

RECURSIVE Pull(_, _, _, _, _, _)
\* resultant of the deviation edges j.. at node n; t = 0 ignores indirect edges
Pull(I, C, st, t, n, j) ==
  IF j > Len(I.dev) THEN 0
  ELSE LET e == I.dev[j]
           mine == e.a = n \/ e.b = n
           other == IF e.a = n THEN e.b ELSE e.a
           v == IF mine /\ (C.direct[j] \/ t > 0) THEN e.f * Sgn(st.pos[other] - st.pos[n]) ELSE 0
       IN v + Pull(I, C, st, t, n, j + 1)

Touches(I, C, st, t, n) ==   \* a deviation edge of zero length takes part
  \E j \in DOMAIN I.dev : LET e == I.dev[j] IN
     /\ (e.a = n \/ e.b = n) /\ (C.direct[j] \/ t > 0)
     /\ e.f # 0 /\ st.pos[e.a] = st.pos[e.b]

Visit(I, C, st, t, n) ==
  LET out == st.res[n] - I.q[n] - Pull(I, C, st, t, n, 1)
      deg == st.deg \/ Touches(I, C, st, t, n)
  IN IF C.sup[n] \/ C.k[n] = I.kmax
       THEN [st EXCEPT !.rea[n] = out, !.hasrea = @ \cup {n}, !.deg = deg, !.big = @ \/ Abs(out) > 48]
     ELSE
       LET m == C.next[n]
           plen == IF I.pl[n] # <<>> /\ I.pl[n][1] = "at" /\ out # 0
                     THEN (I.pl[n][2] - st.pos[n]) * Sgn(out) ELSE 0
           L == IF plen # 0 THEN plen ELSE I.len[n]
           d == \/ out = 0
                \/ (I.pl[n] # <<>> /\ I.pl[n][1] = "at" /\ I.pl[n][2] = st.pos[n])
       IN [st EXCEPT !.pos[m] = st.pos[n] + L * Sgn(out),
                     !.res[m] = out,
                     !.frc[n] = IF L < 0 THEN -Abs(out) ELSE Abs(out),
                     !.set = @ \cup {n},
                     !.deg = deg \/ d,
                     !.big = @ \/ Abs(out) > 48 \/ Abs(st.pos[n]) > 24 \/ Abs(st.pos[n] + L * Sgn(out)) > 24]

Start(I) == [pos |-> I.x, res |-> [n \in NodesOf(I) |-> 0], frc |-> [n \in NodesOf(I) |-> 0],
             rea |-> [n \in NodesOf(I) |-> 0], hasrea |-> {}, set |-> {}, deg |-> FALSE, big |-> FALSE]

-----------------------------------------------------------------------------
(* A run as a function: what form finding must give *)

RECURSIVE PassFrom(_, _, _, _, _, _)
PassFrom(I, C, order, st, t, i) ==
  IF i > Len(order) THEN st ELSE PassFrom(I, C, order, Visit(I, C, st, t, order[i]), t, i + 1)

RECURSIVE SumDist(_, _, _)
SumDist(a, b, n) == IF n = 0 THEN 0 ELSE Abs(a[n] - b[n]) + SumDist(a, b, n - 1)

RECURSIVE RunFrom(_, _, _, _, _, _)
RunFrom(I, C, order, st, t, dist) ==
  IF t = I.tmax
    THEN [st |-> st, passes |-> t, dist |-> dist, ok |-> t <= 1 \/ 2 * dist <= I.eta2]
  ELSE LET s == PassFrom(I, C, order, st, t, 1)
           dd == SumDist(st.pos, s.pos, Len(I.x))
       IN IF t > 0 /\ 2 * dd < I.eta2
            THEN [st |-> s, passes |-> t + 1, dist |-> dd, ok |-> TRUE]
          ELSE RunFrom(I, C, order, s, t + 1, IF t = 0 THEN 0 ELSE dd)

Run(I) == RunFrom(I, Static(I), Order(I), Start(I), 0, 0)

-----------------------------------------------------------------------------
(* Properties of a state with positions pos, trail forces frc, reactions rea *)

RECURSIVE DevSum(_, _, _, _)
DevSum(I, pos, n, j) ==
  IF j > Len(I.dev) THEN 0
  ELSE LET e == I.dev[j]
           v == IF e.a = n THEN e.f * Sgn(pos[e.b] - pos[n])
                ELSE IF e.b = n THEN e.f * Sgn(pos[e.a] - pos[n]) ELSE 0
       IN v + DevSum(I, pos, n, j + 1)

\* sum of all forces at n: trail edges, deviation edges, load, reaction
Balance(I, pos, frc, rea, n) ==
  LET tr == I.trails[TrailIdx(I, n)].n
      i == PosIn(I, n)
      back == IF i = 1 THEN 0 ELSE frc[tr[i-1]] * Sgn(pos[tr[i-1]] - pos[n])
      ahead == IF i = Len(tr) THEN 0 ELSE frc[n] * Sgn(pos[tr[i+1]] - pos[n])
  IN back + ahead + DevSum(I, pos, n, 1) + I.q[n] + rea[n]

\* prescribed quantities of a finished run
Honoured(I, pos, frc) ==
  \A n \in NodesOf(I) :
    /\ (IsOrigin(I, n) => pos[n] = I.x[n])
    /\ (SeqOf(I, n) < KEnd(I) /\ ~IsSupport(I, n)) =>
         LET d == pos[NextOf(I, n)] - pos[n] IN
         \/ frc[n] = 0 /\ d = 0
         \/ I.pl[n] # <<>> /\ I.pl[n][1] = "at" /\ pos[NextOf(I, n)] = I.pl[n][2]
         \/ /\ I.pl[n] = <<>> \/ I.pl[n][1] = "never" \/ I.pl[n][2] = pos[n]
            /\ Abs(d) = Abs(I.len[n]) /\ Sgn(frc[n]) = Sgn(I.len[n])
=============================================================================
