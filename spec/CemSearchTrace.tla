-------------------------- MODULE CemSearchTrace ---------------------------
(***************************************************************************)
(* Judges recorded optimizations: is the sequence of evaluations, with the *)
(* topology before and after and the report at the end, a behaviour of the *)
(* search machine? A line has                                              *)
(*   P       : the problem (see CemSearch), with slack: how many more      *)
(*             evaluations the algorithm may need to finish its line       *)
(*             search, late: how many after the threshold is hit, and      *)
(*             calm: is every change of the objective below kappa?         *)
(*   code    : the result code of nlopt                                    *)
(*   before, after : slot -> value;  rest : <<before, after>>: all else    *)
(*   tried   : sequence of [x, f, hit]: the evaluations                    *)
(*   ended   : "reported", "failed" (the algorithm gave up) or "noform"    *)
(*             (a point without a form was tried)                          *)
(*   report  : [x, f, evals, hit, status]                                  *)
(*   goals   : sequence of [w2, a, b]: achieved quantity and the nearest   *)
(*             target in the returned form, in a unit u of its own         *)
(*   fform   : objective in units of 100 u^2 for the sum over the goals    *)
(*   same    : comparisons                                                 *)
(*   twin    : (optional) the same problem, solved with objects that were  *)
(*             used before: [ended, tried, report, after]                  *)
(***************************************************************************)
EXTENDS CemSearch, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES at, done
vars == <<at, done>>

NearTo(a, b, tol) == Abs(a - b) <= tol
Agrees(x) ==
  IF "tol" \in DOMAIN x
    THEN /\ Len(x.got) = Len(x.want)
         /\ \A y \in DOMAIN x.want : NearTo(x.got[y], x.want[y], x.tol)
    ELSE x.got = x.want

\* values written by the code are those that were tried, up to rounding
SameX(x, y) == Len(x) = Len(y) /\ \A j \in DOMAIN x : NearTo(x[j], y[j], 1)

\* sum of the weighted squared errors, units 100 u^2
RECURSIVE SqrSum(_, _, _)
SqrSum(a, b, c) == IF c > Len(a) THEN 0 ELSE (a[c] - b[c]) * (a[c] - b[c]) + SqrSum(a, b, c + 1)
RECURSIVE AbsSum(_, _, _)
AbsSum(a, b, c) == IF c > Len(a) THEN 0 ELSE Abs(a[c] - b[c]) + AbsSum(a, b, c + 1)
RECURSIVE Total(_, _)
Total(goals, j) == IF j > Len(goals) THEN 0 ELSE ((SqrSum(goals[j].a, goals[j].b, 1) \div 100) * goals[j].w2) \div 2 + Total(goals, j + 1)
\* error of the total for an error of two units in every component
RECURSIVE Margin(_, _)
Margin(goals, j) == IF j > Len(goals) THEN 20 ELSE ((AbsSum(goals[j].a, goals[j].b, 1) * 4) \div 100 + 2) * goals[j].w2 + Margin(goals, j + 1)

\* what the result codes of nlopt are called; a code of zero is unknown
Status(code) ==
  CASE code = 1 -> "NLOPT_SUCCESS" [] code = 2 -> "NLOPT_EPSVAL_REACHED" [] code = 3 -> "NLOPT_FTOL_REACHED" [] code = 4 -> "NLOPT_XTOL_REACHED"
    [] code = 5 -> "NLOPT_ITERSMAX_REACHED" [] code = 6 -> "NLOPT_MAXTIME_REACHED" [] code = -4 -> "NLOPT_ROUNDOFF_LIMITED" [] OTHER -> "none"
\* evaluations after which a search ends whose changes are all negligible
Patience == 40

\* the search is a function of the problem, whatever was solved before
SameRun(e, t) ==
  If(t.ended = e.ended, "reuse.ended") \cup
  (IF t.ended # e.ended THEN {} ELSE
     If(Len(t.tried) = Len(e.tried) /\ \A j \in DOMAIN e.tried : SameX(t.tried[j].x, e.tried[j].x) /\ NearTo(t.tried[j].f, e.tried[j].f, 200), "reuse.tried") \cup
     If(DOMAIN t.after = DOMAIN e.after /\ \A s \in DOMAIN e.after : NearTo(t.after[s], e.after[s], 1), "reuse.left") \cup
     (IF e.ended # "reported" THEN {} ELSE
        If(SameX(t.report.x, e.report.x) /\ NearTo(t.report.f, e.report.f, 200) /\ t.report.evals = e.report.evals
           /\ t.report.status = e.report.status, "reuse.report")))

Verdict(e) ==
  LET P == e.P
      n == Len(e.tried)
      first == StartOf(P, e.before)
  IN
  IF e.crash # "" THEN {"crash"} ELSE
  If(DOMAIN e.after = DOMAIN e.before /\ e.rest[1] = e.rest[2]
     /\ \A s \in DOMAIN e.before \cap DOMAIN e.after : s \in Slots(P) \/ e.after[s] = e.before[s], "frame") \cup
  If(\A j \in 1..n : InBox(P, e.before, e.tried[j].x, 2), "box.tried") \cup
  If(DOMAIN e.after # DOMAIN e.before \/ InBox(P, e.before, StartOf(P, e.after), 2), "box.left") \cup
  If(n > 0 /\ SameX(e.tried[1].x, first), "start") \cup
  If(n <= P.iters + P.slack, "limit") \cup
  If(P.calm => n <= Patience, "calm") \cup
  If(\A j \in 1..n : e.tried[j].hit => j >= n - P.late, "threshold") \cup
  (IF e.ended # "reported" THEN {} ELSE
     If(SameX(e.report.x, StartOf(P, e.after)), "left") \cup
     If(\E j \in 1..n : SameX(e.tried[j].x, e.report.x) /\ NearTo(e.tried[j].f, e.report.f, 2), "reported") \cup
     If(e.report.f <= e.tried[1].f + 1, "worse") \cup
     If((\E j \in 1..n : e.tried[j].hit) => e.report.hit, "hit") \cup
     If(e.report.evals = n, "evals") \cup
     If(e.report.status = "NLOPT_EPSVAL_REACHED" => e.report.hit, "status.threshold") \cup
     If(e.report.status = "NLOPT_ITERSMAX_REACHED" => n >= P.iters, "status.limit") \cup
     If(e.code = 0 \/ e.report.status = Status(e.code), "status.name") \cup
     If(e.goals = <<>> \/ NearTo(Total(e.goals, 1), e.fform, Margin(e.goals, 1)), "goals")) \cup
  (IF "twin" \in DOMAIN e THEN SameRun(e, e.twin) ELSE {}) \cup
  {e.same[j].name : j \in {k \in DOMAIN e.same : ~Agrees(e.same[k])}}

Init == at \in 1..Len(Trace) /\ done = FALSE
Next == /\ ~done /\ done' = TRUE /\ UNCHANGED at
        /\ LET v == Verdict(Trace[at]) IN v = {} \/ PrintT(ToJson([at |-> at, bad |-> v]))
Spec == Init /\ [][Next]_vars
Judged == TLCGet("distinct") = 2 * Len(Trace)
=============================================================================
