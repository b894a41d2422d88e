-------------------------- MODULE CemStaticsTrace --------------------------
(***************************************************************************)
(* Judges forms found by the real code with CemStatics. A line has         *)
(*   runs : sequence of [name, crash, ok, form, topo] and                  *)
(*   same : sequence of [name, got, want] (strings) or                     *)
(*          [name, got, want, tol] (fixed-point sequences)                 *)
(***************************************************************************)
EXTENDS CemStatics, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES at, done
vars == <<at, done>>

Agrees(x) ==
  IF "tol" \in DOMAIN x
    THEN /\ Len(x.got) = Len(x.want)
         /\ \A y \in DOMAIN x.want : NearTo(x.got[y], x.want[y], x.tol)
    ELSE x.got = x.want

Verdict(x) ==
  LET e == Trace[x]
  IN UNION {LET r == e.runs[j] IN
       IF r.crash # "" THEN {r.name \o ".crash"}
       ELSE IF ~r.ok THEN {}
       ELSE {r.name \o "." \o c : c \in Equilibrium(r.form) \cup Prescribed(r.form, r.topo)} : j \in DOMAIN e.runs}
     \cup {e.same[j].name : j \in {k \in DOMAIN e.same : ~Agrees(e.same[k])}}

Init == at \in 1..Len(Trace) /\ done = FALSE
Next == /\ ~done /\ done' = TRUE /\ UNCHANGED at
        /\ LET v == Verdict(at) IN v = {} \/ PrintT(ToJson([at |-> at, bad |-> v]))
Spec == Init /\ [][Next]_vars
Judged == TLCGet("distinct") = 2 * Len(Trace)
=============================================================================
