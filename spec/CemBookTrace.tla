----------------------------- MODULE CemBookTrace ----------------------------
(***************************************************************************)
(* Judges recorded histories of real optimizers. A line has                *)
(*   op, ok, crash ; post: [pars, goals, np, ng, x, low, up, val, rest]    *)
(*   key: the key handed out (additions), pused, gused: before the step    *)
(*   solved: [x, f] the first evaluation of a successful solve             *)
(***************************************************************************)
EXTENDS CemBook, Json, IOUtils, TLC

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES at, done
vars == <<at, done>>
If(c, name) == IF c THEN {} ELSE {name}
SetOf(s) == {s[j] : j \in DOMAIN s}

Book(e, p) == [pars |-> p.pars, goals |-> p.goals, pused |-> SetOf(e.pused), gused |-> SetOf(e.gused), val |-> p.val]

\* the vectors are those of the parameters in their order
Vectors(e) ==
  LET p == e.post
  IN If(p.np = Len(p.pars) /\ p.ng = Len(p.goals), "count") \cup
     If(p.x = [j \in DOMAIN p.pars |-> p.val[p.pars[j].s + 1]], "vector.start") \cup
     If(p.low = [j \in DOMAIN p.pars |-> p.val[p.pars[j].s + 1] - e.lows[p.pars[j].s + 1]], "vector.low") \cup
     If(p.up = [j \in DOMAIN p.pars |-> p.val[p.pars[j].s + 1] + e.ups[p.pars[j].s + 1]], "vector.up")

Step(e, prev) ==
  LET A == Book(e, prev.post)
      op == e.op
      ok == Succeeds(A, op)
      want == Apply(A, op, e.key)
      p == e.post
  IN If(ok = e.ok, IF ok THEN op.op \o ".fails" ELSE op.op \o ".accepted") \cup
     If(p.pars = want.pars, op.op \o ".parameters") \cup
     If(p.goals = want.goals, op.op \o ".constraints") \cup
     If(op.op # "addP" \/ e.key \notin A.pused, "addP.reused") \cup
     If(op.op # "addC" \/ e.key \notin A.gused, "addC.reused") \cup
     If(p.val = prev.post.val /\ p.rest = prev.post.rest, op.op \o ".topology") \cup
     (IF op.op = "solve" /\ ok /\ e.ok
        THEN If(e.solved.x = [j \in DOMAIN A.pars |-> A.val[A.pars[j].s + 1]], "solve.vector") \cup
             If(e.solved.f = Objective(A) * 1000, "solve.objective")
        ELSE {})

Verdict(x) ==
  LET e == Trace[x]
  IN IF e.crash # "" THEN {"crash"}
     ELSE (IF e.op.op = "init" THEN {} ELSE Step(e, Trace[x - 1])) \cup Vectors(e)

Init == at \in 1..Len(Trace) /\ done = FALSE
Next == /\ ~done /\ done' = TRUE /\ UNCHANGED at
        /\ LET v == Verdict(at) IN v = {} \/ PrintT(ToJson([at |-> at, bad |-> v]))
Spec == Init /\ [][Next]_vars
Judged == TLCGet("distinct") = 2 * Len(Trace)
=============================================================================
