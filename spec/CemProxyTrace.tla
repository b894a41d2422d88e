---------------------------- MODULE CemProxyTrace ----------------------------
(***************************************************************************)
(* Judges recorded histories of the real components. A line is the end of  *)
(* history h:                                                              *)
(*   ok: did the last component finish?  running: servers that run then    *)
(*   served: the server that searched, "" if none did                      *)
(*   moved: were servers started or stopped meanwhile?                     *)
(*   result, want: of a search, here and in the library                    *)
(***************************************************************************)
EXTENDS CemProxy, Json, IOUtils, TLC

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES at, done
vars == <<at, done>>
If(c, name) == IF c THEN {} ELSE {name}
SetOf(s) == {s[j] : j \in DOMAIN s}

Verdict(x) ==
  LET e == Trace[x]
      op == e.h[Len(e.h)]
      P == After(SubSeq(e.h, 1, Len(e.h) - 1))
      T == After(e.h)
      searches == op \in {"search", "fail"}
  IN IF e.crash # "" THEN {"crash"} ELSE
     If(e.ok = (op # "fail"), op \o ".ends") \cup
     If(SetOf(e.running) = T.running, op \o ".running") \cup
     If(searches = (e.served # ""), op \o ".searches") \cup
     If(searches /\ P.kept => e.served = Server(P) /\ ~e.moved, op \o ".kept") \cup
     If(op \in {"idle", "unsolved"} => ~e.moved, op \o ".nothing") \cup
     If(e.result = e.want, op \o ".result")

Init == at \in 1..Len(Trace) /\ done = FALSE
Next == /\ ~done /\ done' = TRUE /\ UNCHANGED at
        /\ LET v == Verdict(at) IN v = {} \/ PrintT(ToJson([at |-> at, bad |-> v]))
Spec == Init /\ [][Next]_vars
Judged == TLCGet("distinct") = 2 * Len(Trace)
=============================================================================
