----------------------------- MODULE CemDiagram -----------------------------
(***************************************************************************)
(* The topology diagram of COMPAS CEM as a state machine.                  *)
(*                                                                         *)
(* A diagram state S is a record                                           *)
(*   nodes  : node id -> [p: position, t: "none"|"support"|"_origin",      *)
(*                        k: sequence or -1 if unset, q: load, r: reaction]*)
(*   edges  : set of [u, v, t: "trail"|"deviation", len, f, pl]            *)
(*   trails : origin id -> sequence of node ids                            *)
(*   aux    : node id -> <<u, v>>, the auxiliary trails                    *)
(*   al, av : length and direction used for auxiliary trails               *)
(*   tolu   : tolerance of the position registry, in position units        *)
(*   look   : probed positions -> id found there, or "none"                *)
(*                                                                         *)
(* Node ids are strings (the repr of the real key, so that 1 and '1' are   *)
(* different ids). Positions, loads, lengths and forces are fixed-point    *)
(* integers in units of 1/10000.                                           *)
(*                                                                         *)
(* Apply(S, op, res) is the state after the operation op; res carries the  *)
(* choices the specification leaves open (the keys of created nodes).      *)
(* Outcome(S, op) says whether op must succeed or must raise an error.     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Range(f) == {f[x] : x \in DOMAIN f}
Abs(x) == IF x < 0 THEN -x ELSE x

-----------------------------------------------------------------------------
(* Positions and the geometric registry *)

GKey(S, p) == [i \in 1..3 |-> (p[i] + S.tolu \div 2) \div S.tolu]
SamePlace(S, p, q) == GKey(S, p) = GKey(S, q)
NodesAt(S, p) == {n \in DOMAIN S.nodes : SamePlace(S, S.nodes[n].p, p)}

\* what a lookup at p must give after node m has been placed at position mp
LookAfterPlacing(S, T, p, m, mp) ==
  IF SamePlace(S, p, mp) THEN {m}
  ELSE LET n == S.look[p] IN
       IF n = "none" THEN {"none"}
       ELSE IF n \in DOMAIN T.nodes /\ SamePlace(S, T.nodes[n].p, p) THEN {n}
       ELSE {"none"} \cup NodesAt(T, p)

\* ... after node m has been deleted, or after its coordinates were overwritten
\* without placing it: nothing is found where it was, unless another node is there
LookAfterChange(S, T, p, m) ==
  LET n == S.look[p] IN
  IF n \in DOMAIN T.nodes /\ SamePlace(S, T.nodes[n].p, p) THEN {n}
  ELSE IF m \in NodesAt(T, p) \/ n = m THEN {"none"} \cup NodesAt(T, p)
  ELSE {"none"}

-----------------------------------------------------------------------------
(* Graph *)

EdgesOf(S, t) == {e \in S.edges : e.t = t}
TrailPairs(S) == {{e.u, e.v} : e \in EdgesOf(S, "trail")}
TrailNbrs(S, n) == ({e.v : e \in {x \in S.edges : x.t = "trail" /\ x.u = n}}
                    \cup {e.u : e \in {x \in S.edges : x.t = "trail" /\ x.v = n}}) \ {n}
Degree(S, n) == Cardinality(TrailNbrs(S, n))
Supports(S) == {n \in DOMAIN S.nodes : S.nodes[n].t = "support"}
Origins(S) == {n \in DOMAIN S.nodes : S.nodes[n].t = "_origin"}
HasEdge(S, u, v) == \E e \in S.edges : e.u = u /\ e.v = v
EdgeAt(S, u, v) == CHOOSE e \in S.edges : e.u = u /\ e.v = v

\* path that starts at a node of degree one and always moves on
RECURSIVE WalkFrom(_, _)
WalkFrom(S, path) ==
  LET last == path[Len(path)]
      next == TrailNbrs(S, last) \ Range(path)
  IN IF next = {} THEN path
     ELSE WalkFrom(S, Append(path, CHOOSE m \in next : TRUE))

Reverse(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]

\* the trail of a support, from its origin to the support
TrailOf(S, s) == Reverse(WalkFrom(S, <<s>>))

\* N: the nodes that take part in trails
PathsOverSupports(S, N) ==
  /\ N # {}
  /\ \A n \in N : Degree(S, n) \in {1, 2}
  /\ \A s \in Supports(S) : s \in N /\ Degree(S, s) = 1
  /\ LET walk == [s \in Supports(S) |-> TrailOf(S, s)] IN
       /\ \A s \in Supports(S) : S.nodes[walk[s][1]].t # "support"
       /\ N = UNION {Range(walk[s]) : s \in Supports(S)}

ValidPlain(S) == PathsOverSupports(S, DOMAIN S.nodes)

Loose(S) == {n \in DOMAIN S.nodes : Degree(S, n) = 0}
ValidAux(S) ==
  /\ DOMAIN S.nodes # {}
  /\ \A n \in Loose(S) : S.nodes[n].t # "support"
  /\ LET N == DOMAIN S.nodes \ Loose(S) IN N = {} \/ PathsOverSupports(S, N)
  /\ (DOMAIN S.nodes \ Loose(S) = {} => Supports(S) = {})

BuiltTrails(S) ==
  LET walk == [s \in Supports(S) |-> TrailOf(S, s)]
  IN [o \in {walk[s][1] : s \in Supports(S)} |->
        walk[CHOOSE s \in Supports(S) : walk[s][1] = o]]

IndexIn(seq, x) == CHOOSE i \in 1..Len(seq) : seq[i] = x
TrailWith(trails, n) == CHOOSE o \in DOMAIN trails : n \in Range(trails[o])

BuildPlain(S) ==
  LET trails == BuiltTrails(S)
  IN [S EXCEPT
       !.trails = trails,
       !.nodes = [n \in DOMAIN S.nodes |->
          [S.nodes[n] EXCEPT
             !.t = IF n \in DOMAIN trails THEN "_origin"
                   ELSE IF S.nodes[n].t = "_origin" THEN "none" ELSE S.nodes[n].t,
             !.k = IndexIn(trails[TrailWith(trails, n)], n) - 1]]]

\* auxkey : loose node -> key of the new support; auxpos : its position
BuildAux(S, auxkey, auxpos) ==
  LET L == Loose(S)
      new == {auxkey[n] : n \in L}
      owner(m) == CHOOSE n \in L : auxkey[n] = m
      T == [S EXCEPT
        !.nodes = [n \in DOMAIN S.nodes \cup new |->
            IF n \in new THEN [p |-> auxpos[owner(n)], t |-> "support", k |-> -1,
                               q |-> <<0, 0, 0>>, r |-> <<0, 0, 0>>]
            ELSE S.nodes[n]],
        !.edges = @ \cup {[u |-> n, v |-> auxkey[n], t |-> "trail",
                           len |-> S.al, f |-> 0, pl |-> <<>>] : n \in L},
        !.aux = [n \in DOMAIN S.aux \cup L |->
            IF n \in L THEN <<n, auxkey[n]>> ELSE S.aux[n]]]
  IN BuildPlain(T)

-----------------------------------------------------------------------------
(* Operations *)

\* a reference is [k |-> id] or [p |-> position]
Resolve(S, ref) ==
  IF "k" \in DOMAIN ref THEN (IF ref.k \in DOMAIN S.nodes THEN ref.k ELSE "none")
  ELSE IF ref.p \in DOMAIN S.look THEN S.look[ref.p] ELSE "none"

NewNode(p) == [p |-> p, t |-> "none", k |-> -1, q |-> <<0, 0, 0>>, r |-> <<0, 0, 0>>]

PutNode(S, n, p) ==
  [S EXCEPT !.nodes = IF n \in DOMAIN @ THEN [@ EXCEPT ![n].p = p] ELSE @ @@ (n :> NewNode(p))]

PutEdge(S, u, v, t, val, pl) ==
  LET old == IF HasEdge(S, u, v) THEN EdgeAt(S, u, v)
             ELSE [u |-> u, v |-> v, t |-> t, len |-> 0, f |-> 0, pl |-> <<>>]
      new == IF t = "trail" THEN [old EXCEPT !.t = t, !.len = val, !.pl = pl]
             ELSE [old EXCEPT !.t = t, !.f = val]
  IN [S EXCEPT !.edges = (@ \ {old}) \cup {new}]

\* TRUE iff op must succeed
Succeeds(S, op) ==
  CASE op.op \in {"addNode", "move", "optimize", "delNode", "copy", "json", "setaux", "nop"} -> TRUE
    [] op.op = "addEdge"  -> \A r \in {op.a, op.b} :
                               "p" \in DOMAIN r \/ Resolve(S, r) # "none"
    [] op.op \in {"addSupport", "addLoad"} -> Resolve(S, op.ref) # "none"
    [] op.op = "delEdge"  -> HasEdge(S, op.u, op.v)
    [] op.op = "raw" -> op.key \in DOMAIN S.nodes
    [] op.op = "build"    -> IF op.aux THEN ValidAux(S) ELSE ValidPlain(S)
    [] op.op = "shift"    -> op.key \in Origins(S)
    [] op.op = "solve"    -> DOMAIN S.trails # {}
    [] OTHER -> TRUE

\* State after a successful op. res.new : sequence of ids of created nodes in
\* creation order (addNode, addEdge) ; res.auxkey/res.auxpos for builds.
\* The look component is not computed here (see LookOK).
Apply(S, op, res) ==
  CASE op.op = "addNode" ->
         PutNode(S, IF op.key = "none" THEN res.new[1] ELSE op.key, op.p)
    [] op.op \in {"move", "optimize", "raw"} -> PutNode(S, op.key, op.p)
    [] op.op = "delNode" ->
         [S EXCEPT !.nodes = [n \in DOMAIN @ \ {op.key} |-> @[n]],
                   !.edges = {e \in @ : e.u # op.key /\ e.v # op.key}]
    [] op.op = "addEdge" -> PutEdge(
         LET S1 == IF Resolve(S, op.a) = "none" THEN PutNode(S, res.u, op.a.p) ELSE S
         IN IF Resolve(S, op.b) = "none" THEN PutNode(S1, res.v, op.b.p) ELSE S1,
         res.u, res.v, op.t, op.val, op.pl)
    [] op.op = "addSupport" -> [S EXCEPT !.nodes[Resolve(S, op.ref)].t = "support"]
    [] op.op = "addLoad" -> [S EXCEPT !.nodes[Resolve(S, op.ref)].q = op.q]
    [] op.op = "delEdge" -> [S EXCEPT !.edges = @ \ {EdgeAt(S, op.u, op.v)}]
    [] op.op = "build" -> IF op.aux THEN BuildAux(S, res.auxkey, res.auxpos) ELSE BuildPlain(S)
    [] op.op = "shift" ->
         LET trail == S.trails[op.key]
         IN [S EXCEPT !.nodes = [n \in DOMAIN @ |->
               IF n \in Range(trail) THEN [@[n] EXCEPT !.k = op.s + IndexIn(trail, n) - 1]
               ELSE @[n]]]
    [] op.op = "setaux" -> [S EXCEPT !.al = op.al, !.av = op.av]
    [] OTHER -> S

\* the node that op places, as <<id, position>>, or <<>>
Placed(S, op, res) ==
  CASE op.op = "addNode" -> <<<<IF op.key = "none" THEN res.new[1] ELSE op.key, op.p>>>>
    [] op.op \in {"move", "optimize"} -> <<<<op.key, op.p>>>>
    [] op.op = "addEdge" ->
         (IF Resolve(S, op.a) = "none" THEN <<<<res.u, op.a.p>>>> ELSE <<>>)
         \o (IF Resolve(S, op.b) = "none" THEN <<<<res.v, op.b.p>>>> ELSE <<>>)
    [] OTHER -> <<>>

-----------------------------------------------------------------------------
(* Properties of states, evaluated both on the model and on real diagrams *)

HasTrails(S) == DOMAIN S.trails # {}

\* trails as found after a successful build: partition into paths
Partition(S) ==
  /\ HasTrails(S)
  /\ \A o \in DOMAIN S.trails :
       LET tr == S.trails[o] IN
       /\ Len(tr) >= 2
       /\ tr[1] = o
       /\ S.nodes[tr[Len(tr)]].t = "support"
       /\ \A i \in 1..Len(tr) - 1 : S.nodes[tr[i]].t # "support"
       /\ \A i, j \in 1..Len(tr) : tr[i] = tr[j] => i = j
       /\ \A i \in 1..Len(tr) - 1 : {tr[i], tr[i+1]} \in TrailPairs(S)
  /\ \A n \in DOMAIN S.nodes : \E o \in DOMAIN S.trails :
        /\ n \in Range(S.trails[o])
        /\ \A o2 \in DOMAIN S.trails \ {o} : n \notin Range(S.trails[o2])
  /\ \A pr \in TrailPairs(S) : \E o \in DOMAIN S.trails :
        \E i \in 1..Len(S.trails[o]) - 1 : pr = {S.trails[o][i], S.trails[o][i+1]}
  /\ Origins(S) = DOMAIN S.trails

Numbered(S) ==
  \A o \in DOMAIN S.trails : \A i \in 1..Len(S.trails[o]) :
     S.nodes[S.trails[o][i]].k = S.nodes[o].k + i - 1

StartsAtZero(S) == \A o \in DOMAIN S.trails : S.nodes[o].k = 0

\* an auxiliary trail is a two-node trail of its own
AuxOK(S) ==
  \A n \in DOMAIN S.aux :
     /\ HasEdge(S, S.aux[n][1], S.aux[n][2])
     /\ n \in DOMAIN S.trails => S.trails[n] = <<S.aux[n][1], S.aux[n][2]>>

\* the registry never points to a place where the node is not
LookSound(S) ==
  \A p \in DOMAIN S.look : S.look[p] = "none" \/ S.look[p] \in NodesAt(S, p)

\* every probed place where there is a node is known to the registry
LookComplete(S) ==
  \A p \in DOMAIN S.look : S.look[p] = "none" => NodesAt(S, p) = {}

\* with trails built and numbered, each deviation edge is direct or indirect
Direct(S, e) == e.t = "deviation" /\ S.nodes[e.u].k = S.nodes[e.v].k
Indirect(S, e) == e.t = "deviation" /\ S.nodes[e.u].k # S.nodes[e.v].k
AllNumbered(S) == \A n \in DOMAIN S.nodes : S.nodes[n].k >= 0
LastK(S) == CHOOSE k \in {S.nodes[n].k : n \in DOMAIN S.nodes} :
               \A n \in DOMAIN S.nodes : S.nodes[n].k <= k
=============================================================================
