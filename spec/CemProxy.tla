------------------------------ MODULE CemProxy ------------------------------
(***************************************************************************)
(* The other process that searches run in. Grasshopper cannot run them     *)
(* itself: a Proxy component starts a server, keeps it for later searches  *)
(* and stops it; a search without a kept server starts one of its own.     *)
(*   P.kept    : is a server kept for searches?                            *)
(*   P.running : the servers that run: "main", the one of the Proxy        *)
(*               component, and "own", one of a search                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Nothing == [kept |-> FALSE, running |-> {}]
\* search: one that works, fail: one that is refused in the other process,
\* idle, unsolved: components that are not told to do anything,
\* forget: the session loses what it kept, the processes live on
Ops == {"start", "stop", "both", "idle", "search", "fail", "unsolved", "forget"}

Apply(P, op) ==
  CASE op = "start" -> [kept |-> TRUE, running |-> P.running \cup {"main"}]
    [] op \in {"stop", "both"} -> [kept |-> FALSE, running |-> P.running \ {"main"}]
    [] op = "forget" -> [P EXCEPT !.kept = FALSE]
    [] OTHER -> P
\* during a search
Serving(P) == IF P.kept THEN P.running ELSE P.running \cup {"own"}
Server(P) == IF P.kept THEN "main" ELSE "own"

RECURSIVE After(_)
After(h) == IF h = <<>> THEN Nothing ELSE Apply(After(SubSeq(h, 1, Len(h) - 1)), h[Len(h)])

Sane(P) == P.kept => "main" \in P.running
NothingLeft(P) == "own" \notin P.running
=============================================================================
