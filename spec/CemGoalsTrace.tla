-------------------------- MODULE CemGoalsTrace ---------------------------
(***************************************************************************)
(* Judges objectives, starting values and gradients of the real optimizer  *)
(* on lattice instances, and goals and parameters after serialization.     *)
(* A line has                                                              *)
(*   inst  : an instance (see CemGoals)                                    *)
(*   seen  : sequence of [name, f, x, g, before, after]: what solving with *)
(*           one evaluation gave: objective, parameters, gradient (maybe   *)
(*           <<>>), and the topology before and after                      *)
(*   smooth: TRUE iff Derivative is the derivative of the objective        *)
(*   pairs : sequence of [name, got, want]: descriptions of an original    *)
(*           object and of its restored version                            *)
(***************************************************************************)
EXTENDS CemGoals, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES at, done
vars == <<at, done>>

Near(a, b) == Abs(a - b) <= 20 + Abs(b) \div 100000

Verdict(e) ==
  LET I == e.inst IN
  IF ~OnLattice(I) \/ ~(\A j \in DOMAIN I.goals : GoalFits(I, I.goals[j])) THEN {"machinery"}
  ELSE
  LET want == Objective(I)
      grad == IF e.smooth THEN [j \in DOMAIN I.pars |-> Derivative(I, I.pars[j])] ELSE <<>>
  IN UNION {LET s == e.seen[j] IN
       IF s.crash # "" THEN {s.name \o ".crash"} ELSE
       If(Near(s.f, want), s.name \o ".objective") \cup
       If(Len(s.x) = Len(I.pars) /\ \A k \in DOMAIN I.pars : s.x[k] = Value(I, I.pars[k]) * Unit, s.name \o ".parameters") \cup
       If(~e.smooth \/ (Len(s.g) = Len(grad) /\ \A k \in DOMAIN grad : Near(s.g[k], grad[k])), s.name \o ".gradient") \cup
       If(s.before = s.after, s.name \o ".topology") : j \in DOMAIN e.seen}
     \cup {e.pairs[j].name : j \in {k \in DOMAIN e.pairs : e.pairs[k].got # e.pairs[k].want}}

Init == at \in 1..Len(Trace) /\ done = FALSE
Next == /\ ~done /\ done' = TRUE /\ UNCHANGED at
        /\ LET v == Verdict(Trace[at]) IN v = {} \/ PrintT(ToJson([at |-> at, bad |-> v]))
Spec == Init /\ [][Next]_vars
Judged == TLCGet("distinct") = 2 * Len(Trace)
=============================================================================
