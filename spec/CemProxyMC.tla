----------------------------- MODULE CemProxyMC -----------------------------
(* All short histories of servers and searches. A search takes two steps:   *)
(* it begins, and it ends with a result or without.                         *)
EXTENDS CemProxy, Json, TLC
CONSTANTS DEPTH, EMIT
VARIABLES P, busy, hist
vars == <<P, busy, hist>>

Init == P = Nothing /\ busy = FALSE /\ hist = <<>>
Do(op) ==
  /\ ~busy /\ Len(hist) < DEPTH
  /\ hist' = Append(hist, op)
  /\ IF op \in {"search", "fail"}
     THEN busy' = TRUE /\ P' = [P EXCEPT !.running = Serving(P)]
     ELSE busy' = FALSE /\ P' = Apply(P, op)
Finish ==
  /\ busy /\ busy' = FALSE
  /\ P' = [P EXCEPT !.running = IF P.kept THEN @ ELSE @ \ {"own"}]
  /\ UNCHANGED hist
Next == /\ Finish \/ \E op \in Ops : Do(op)
        /\ (EMIT /\ ~busy' /\ Len(hist') = DEPTH => PrintT(ToJson([h |-> hist'])))
Spec == Init /\ [][Next]_vars /\ WF_vars(Finish)

SaneOK == Sane(P)
NothingLeftOK == ~busy => NothingLeft(P)
ServedOK == busy => Server(P) \in P.running
\* what a history does to the servers does not depend on the searches in it
FoldOK == ~busy => P = After(hist)
IdleOK == ~busy => P = After(SelectSeq(hist, LAMBDA op : op \in {"start", "stop", "both", "forget"}))
StoppedOK == [][\A op \in {"stop", "both"} : hist' = Append(hist, op) => P' = Nothing]_vars
Ends == busy ~> ~busy
=============================================================================
