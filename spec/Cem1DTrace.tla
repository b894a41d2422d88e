----------------------------- MODULE Cem1DTrace -----------------------------
(***************************************************************************)
(* Runs of the real form-finding functions on instances of Cem1D that were *)
(* embedded in space, compared with the exact prediction. A line is an     *)
(* instance and a sequence of runs                                         *)
(*   [name, ok, exact, pos, frc, len, rea, devf, devl, calls]              *)
(* with values in units of 1e-6. Runs that are not exact (the line is not  *)
(* parallel to an axis) are only judged if nothing degenerate happens.     *)
(***************************************************************************)
EXTENDS Cem1D, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES at, done
vars == <<at, done>>

U == 1000000
TOL == 5
Near(a, b) == Abs(a - b) <= TOL
If(cond, name) == IF cond THEN {} ELSE {name}
Whole(v) == \E w \in {(v + U \div 2) \div U} : Near(v, w * U)
ToInt(v) == (v + U \div 2) \div U

Predicted(I, R, r) ==
  LET s == R.st
      N == NodesOf(I)
      devdist(j) == Abs(s.pos[I.dev[j].a] - s.pos[I.dev[j].b])
  IN IF r.ok # R.ok THEN {IF r.ok THEN "accepted" ELSE "refused"}
     ELSE IF ~r.ok THEN {}
     ELSE
       If(\A n \in N : Near(r.pos[n], U * s.pos[n]), "positions") \cup
       If(\A n \in N : IsSupport(I, n) \/ Near(r.frc[n], U * s.frc[n]), "forces") \cup
       If(\A n \in N : Near(r.rea[n], U * s.rea[n]), "reactions") \cup
       If(\A n \in N : IsSupport(I, n) \/
            LET d == Abs(s.pos[NextOf(I, n)] - s.pos[n]) IN
            IF s.frc[n] # 0 THEN Near(r.len[n], U * d * Sgn(s.frc[n])) ELSE Near(Abs(r.len[n]), U * d), "lengths") \cup
       If(\A j \in DOMAIN I.dev : Near(r.devf[j], U * I.dev[j].f), "deviation.forces") \cup
       If(\A j \in DOMAIN I.dev :
            IF I.dev[j].f # 0 THEN Near(r.devl[j], U * devdist(j) * Sgn(I.dev[j].f))
            ELSE Near(Abs(r.devl[j]), U * devdist(j)), "deviation.lengths")

\* a callback is called whenever a node is placed: it counts the passes
Placing(I) == {n \in NodesOf(I) : ~IsSupport(I, n) /\ SeqOf(I, n) <= KEnd(I) /\ SeqOf(I, n) # I.kmax}
Passes(I, R, r) == If(r.calls = -1 \/ r.calls = R.passes * Cardinality(Placing(I)), "passes")

\* properties of what was returned, independent of the prediction
Properties(I, R, r) ==
  IF ~r.ok THEN {}
  ELSE IF ~\A n \in NodesOf(I) : Whole(r.pos[n]) /\ Whole(r.frc[n]) /\ Whole(r.rea[n]) THEN {"values"}
  ELSE LET pos == [n \in NodesOf(I) |-> ToInt(r.pos[n])]
           frc == [n \in NodesOf(I) |-> ToInt(r.frc[n])]
           rea == [n \in NodesOf(I) |-> ToInt(r.rea[n])]
           settled == \/ R.passes > 1 /\ R.dist = 0
                      \/ \A j \in DOMAIN I.dev : IsDirect(I, I.dev[j])
       IN
       If(~settled \/ I.tmax = 0 \/ \A n \in NodesOf(I) : SeqOf(I, n) <= KEnd(I) => Balance(I, pos, frc, rea, n) = 0, "balance") \cup
       If(I.tmax = 0 \/ Honoured(I, pos, frc), "honoured") \cup
       If(\A n \in NodesOf(I) : rea[n] # 0 => (IsSupport(I, n) \/ SeqOf(I, n) = I.kmax), "reaction.place") \cup
       If(\A n \in NodesOf(I) : SeqOf(I, n) > KEnd(I) => pos[n] = I.x[n] /\ frc[n] = 0 /\ rea[n] = 0, "beyond")

Verdict(x) ==
  LET e == Trace[x]
      I == e.inst
      R == Run(I)
  IN IF R.st.big THEN {"big"}
     ELSE UNION {LET r == e.runs[j] IN
            IF r.crash # "" THEN {r.name \o ".crash"}
            ELSE IF R.st.deg /\ ~r.exact THEN {}
            ELSE {r.name \o "." \o c : c \in Predicted(I, R, r) \cup Passes(I, R, r) \cup Properties(I, R, r)} : j \in DOMAIN e.runs}
          \cup {e.runs[j].name \o "." \o e.runs[j].extra[y].name : <<j, y>> \in
                 {p \in UNION {{<<j, y>> : y \in DOMAIN e.runs[j].extra} : j \in DOMAIN e.runs} :
                    e.runs[p[1]].extra[p[2]].got # e.runs[p[1]].extra[p[2]].want}}

Init == at \in 1..Len(Trace) /\ done = FALSE
Next == /\ ~done /\ done' = TRUE /\ UNCHANGED at
        /\ LET v == Verdict(at) IN v = {} \/ PrintT(ToJson([at |-> at, bad |-> v]))
Spec == Init /\ [][Next]_vars
Judged == TLCGet("distinct") = 2 * Len(Trace)
=============================================================================
