------------------------------ MODULE Cem1DMC ------------------------------
(***************************************************************************)
(* Form finding on a line as a state machine that visits one node per step,*)
(* explored exhaustively for families of small instances.                  *)
(***************************************************************************)
EXTENDS Cem1D, Json

CONSTANTS FAMILY, EMIT

VARIABLES I, C, order, st, last, t, i, status
vars == <<I, C, order, st, last, t, i, status>>

Pl(x) == x
Two == <<[n |-> <<1, 2>>, s |-> 0], [n |-> <<3, 4>>, s |-> 0]>>
TwoShifted == <<[n |-> <<1, 2>>, s |-> 0], [n |-> <<3, 4>>, s |-> 1]>>
Long == <<[n |-> <<1, 2, 3>>, s |-> 0], [n |-> <<4, 5>>, s |-> 0]>>

\* two trails of two nodes with direct and indirect deviation edges
Pairs ==
  {[x |-> <<0, 3, x3, x4>>, q |-> <<q1, 0, q3, q4>>, trails |-> tr,
    len |-> <<l1, 0, l3, 0>>, pl |-> <<<<>>, <<>>, <<>>, <<>>>>,
    dev |-> <<[a |-> 1, b |-> 3, f |-> f1], [a |-> 2, b |-> 3, f |-> f2], [a |-> 4, b |-> 1, f |-> f3]>>,
    kmax |-> -1, tmax |-> 6, eta2 |-> 1] :
    x3 \in {0, 2}, x4 \in {-1, 3}, q1 \in {-1, 1}, q3 \in {0, 1}, q4 \in {0, 2}, tr \in {Two, TwoShifted},
    l1 \in {-1, 2}, l3 \in {-2, 1}, f1 \in {-1, 0, 1}, f2 \in {-2, 0, 1}, f3 \in {-1, 0, 2}}

\* a trail with planes, limited sequences, limits and thresholds
Planes ==
  {[x |-> <<0, 1, 2, x4, 5>>, q |-> <<q1, q2, 0, 0, 0>>, trails |-> Long,
    len |-> <<l1, -2, 0, 1, 0>>, pl |-> <<p1, p2, <<>>, <<>>, <<>>>>,
    dev |-> <<[a |-> 1, b |-> 4, f |-> 1], [a |-> 2, b |-> 5, f |-> f2], [a |-> 3, b |-> 5, f |-> f3]>>,
    kmax |-> km, tmax |-> tm, eta2 |-> e2] :
    x4 \in {0, 3}, q1 \in {-1, 2}, q2 \in {0, 1}, l1 \in {-1, 2},
    p1 \in {<<>>, <<"at", 0>>, <<"at", 4>>}, p2 \in {<<>>, <<"at", -2>>, <<"never", 0>>},
    f2 \in {-1, 0}, f3 \in {0, 2}, km \in {-1, 0, 1, 2}, tm \in {1, 2, 5}, e2 \in {1, 5}}

Instances == CASE FAMILY = "pairs" -> Pairs [] FAMILY = "planes" -> Planes

Init == /\ I \in Instances
        /\ C = Static(I) /\ order = Order(I)
        /\ st = Start(I) /\ last = I.x /\ t = 0 /\ i = 1 /\ status = "run"

VisitNode == /\ status = "run" /\ i <= Len(order)
             /\ st' = Visit(I, C, st, t, order[i]) /\ i' = i + 1
             /\ UNCHANGED <<I, C, order, last, t, status>>

Dist == SumDist(last, st.pos, Len(I.x))

EndPass ==
  /\ status = "run" /\ i > Len(order)
  /\ t' = t + 1 /\ i' = 1 /\ last' = st.pos
  /\ status' = IF t > 0 /\ 2 * Dist < I.eta2 THEN "returned"
               ELSE IF t + 1 = I.tmax THEN (IF t > 0 /\ 2 * Dist > I.eta2 THEN "rejected" ELSE "returned")
               ELSE "run"
  /\ UNCHANGED <<I, C, order, st>>
  /\ (EMIT /\ status' # "run" => PrintT(ToJson([inst |-> I])))

Next == VisitNode \/ EndPass
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

-----------------------------------------------------------------------------
\* the function and the machine agree
SameAsRun == status # "run" =>
  LET r == Run(I) IN /\ r.st = st /\ r.passes = t /\ r.ok = (status = "returned")

WithinLimit == t <= I.tmax
Stops == <>(status # "run")

\* all nodes that are placed are in equilibrium when the last pass changed nothing
Settled == t > 1 /\ status = "returned" /\ I.eta2 = 1   \* integers: the last pass moved nothing
Equilibrium == Settled =>
  \A n \in NodesOf(I) : SeqOf(I, n) <= KEnd(I) => Balance(I, st.pos, st.frc, st.rea, n) = 0
\* first pass without indirect deviation edges
FirstPass == (status = "returned" /\ \A j \in DOMAIN I.dev : C.direct[j] \/ I.dev[j].f = 0) =>
  \A n \in NodesOf(I) : SeqOf(I, n) <= KEnd(I) => Balance(I, st.pos, st.frc, st.rea, n) = 0
Prescribed == status = "returned" => Honoured(I, st.pos, st.frc)
\* reactions: only at supports, or at the last sequence of a partial run
ReactionsOK == status = "returned" =>
  st.hasrea = {n \in NodesOf(I) : (IsSupport(I, n) /\ SeqOf(I, n) <= KEnd(I)) \/ SeqOf(I, n) = I.kmax}
\* nodes after the last sequence stay where they are
Partial == status # "run" => \A n \in NodesOf(I) :
  SeqOf(I, n) > KEnd(I) => st.pos[n] = I.x[n] /\ st.frc[n] = 0 /\ st.rea[n] = 0
\* beyond the last sequence, the limit has no effect
NoLimit == (status # "run" /\ I.kmax >= KLast(I)) => Run([I EXCEPT !.kmax = -1]).st.pos = st.pos
=============================================================================
