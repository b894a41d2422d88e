------------------------------ MODULE CemFront ------------------------------
(***************************************************************************)
(* The Grasshopper front end: a canvas of components connected by wires.   *)
(*                                                                         *)
(* A wire holds a topology diagram (a state of CemDiagram). A component    *)
(* reads wires and puts its result on a new wire; what is on the other     *)
(* wires never changes. Artists show a diagram; they change nothing.       *)
(*                                                                         *)
(* Components c:                                                           *)
(*   [c |-> "assemble", trail, dev : sequences of [a, b, val, pl],         *)
(*          loads : sequence of [p, q], supports : sequence of positions,  *)
(*          aux]                                                           *)
(*   [c |-> "shift", w, keys, seqs]   [c |-> "moveOrigins", w, keys, ps]   *)
(*   [c |-> "json", w]  exported and imported                              *)
(*   anything else leaves all wires alone and adds none                    *)
(***************************************************************************)
EXTENDS CemDiagram

\* the value for the i-th receiver: the last one is used again
Given(vals, i) == vals[IF i <= Len(vals) THEN i ELSE Len(vals)]

RECURSIVE ShiftFrom(_, _, _, _)
ShiftFrom(S, keys, seqs, i) ==
  IF i > Len(keys) THEN S
  ELSE ShiftFrom(Apply(S, [op |-> "shift", key |-> keys[i], s |-> Given(seqs, i)], <<>>), keys, seqs, i + 1)

RECURSIVE MoveFrom(_, _, _, _)
MoveFrom(S, keys, ps, i) ==
  IF i > Len(keys) THEN S ELSE MoveFrom(PutNode(S, keys[i], Given(ps, i)), keys, ps, i + 1)

-----------------------------------------------------------------------------
(* Assembling: the nodes are where the edges end; key tells their names *)

EmptyDiagram(S) == [S EXCEPT !.nodes = [n \in {} |-> 0], !.edges = {}, !.trails = [n \in {} |-> 0], !.aux = [n \in {} |-> 0]]
At(S, p) == CHOOSE n \in NodesAt(S, p) : TRUE
Reach(S, p, key) == IF NodesAt(S, p) = {} THEN PutNode(S, key[p], p) ELSE S

RECURSIVE AddEdges(_, _, _, _, _)
AddEdges(S, t, edges, key, i) ==
  IF i > Len(edges) THEN S
  ELSE LET e == edges[i]
           S2 == Reach(Reach(S, e.a, key), e.b, key)
       IN AddEdges(PutEdge(S2, At(S2, e.a), At(S2, e.b), t, e.val, e.pl), t, edges, key, i + 1)
RECURSIVE AddLoads(_, _, _)
AddLoads(S, loads, i) ==
  IF i > Len(loads) THEN S
  ELSE AddLoads([S EXCEPT !.nodes[At(S, loads[i].p)].q = loads[i].q], loads, i + 1)
Hold(S, ps) == [S EXCEPT !.nodes = [n \in DOMAIN @ |->
  IF \E i \in DOMAIN ps : n = At(S, ps[i]) THEN [@[n] EXCEPT !.t = "support"] ELSE @[n]]]

Framed(E, c, key) == AddEdges(AddEdges(E, "trail", c.trail, key, 1), "deviation", c.dev, key, 1)
Placeable(S, c) == /\ \A i \in DOMAIN c.loads : NodesAt(S, c.loads[i].p) # {}
                   /\ \A i \in DOMAIN c.supports : NodesAt(S, c.supports[i]) # {}
Unbuilt(E, c, key) == Hold(AddLoads(Framed(E, c, key), c.loads, 1), c.supports)
Builds(c) == (c.trail # <<>> /\ c.supports # <<>>) \/ (c.dev # <<>> /\ c.aux)
CanAssemble(E, c, key) ==
  /\ Placeable(Framed(E, c, key), c)
  /\ (Builds(c) => LET S == Unbuilt(E, c, key) IN IF c.aux THEN ValidAux(S) ELSE ValidPlain(S))

-----------------------------------------------------------------------------
\* does a component that reads diagram S deliver?
Delivers(S, c) ==
  CASE c.c = "shift" -> \A i \in DOMAIN c.keys : c.keys[i] \in Origins(S)
    [] OTHER -> TRUE
\* what it puts on its wire
Delivered(S, c) ==
  CASE c.c = "shift" -> ShiftFrom(S, c.keys, c.seqs, 1)
    [] c.c = "moveOrigins" -> MoveFrom(S, c.keys, c.ps, 1)
    [] OTHER -> S

-----------------------------------------------------------------------------
(* Artists. sel: the selected keys, all: is there no selection? *)
Picked(set, all, sel) == IF all THEN set ELSE set \cap sel
Pairs(E) == {<<e.u, e.v>> : e \in E}
Drawn(S, layer, all, sel) ==
  CASE layer = "nodes" -> Picked(DOMAIN S.nodes, all, sel)
    [] layer = "supports" -> Picked(Supports(S), all, sel)
    [] layer = "origins" -> Picked(Origins(S), all, sel)
    [] layer = "edges" -> Picked(Pairs(S.edges), all, sel)
    [] layer = "trailedges" -> Picked(Pairs(EdgesOf(S, "trail")), all, sel)
    [] layer = "deviationedges" -> Picked(Pairs(EdgesOf(S, "deviation")), all, sel)
=============================================================================
