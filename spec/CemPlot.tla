------------------------------- MODULE CemPlot -------------------------------
(***************************************************************************)
(* Drawings of topology and form diagrams.                                 *)
(*                                                                         *)
(*   D.nodes : function from nodes to records with at least                *)
(*               t    : "support", "_origin" or "none"                     *)
(*               k    : sequence (-1: none), load: is it loaded?           *)
(*               push : loads and reactions that are long enough to show   *)
(*   D.edges : set of records with at least u, v, t ("trail", "deviation"),*)
(*               aux  : belongs to an auxiliary trail?                     *)
(*               sgn  : sign of what is prescribed (topology) or of the    *)
(*                      force (form)                                       *)
(*   D.built : are there trails?                                           *)
(*   O       : options of the drawing                                      *)
(*               what : "topology" or "form"                               *)
(*               nc, ec : "type" or "sequence", "state" or "type"          *)
(*               nsel, esel : selected nodes and edges                     *)
(*               nodes, edges, loads, reactions, ntext, etext: shown?      *)
(*   canvas  : what has been drawn                                         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

NodeColour(D, O, n) ==
  IF D.nodes[n].t = "support" THEN "node_support"
  ELSE IF O.what = "topology" /\ D.nodes[n].t = "_origin" THEN "node_origin"
  ELSE "node"

StateColour(sgn) == IF sgn > 0 THEN "tension" ELSE IF sgn < 0 THEN "compression" ELSE "edge"

EdgeColour(D, O, e) ==
  IF O.what = "form" THEN StateColour(e.sgn)
  ELSE IF e.aux THEN "auxiliary_trail"
  ELSE IF O.ec = "state" THEN StateColour(e.sgn)
  ELSE IF e.t = "trail" THEN "edge_trail"
  ELSE IF D.built /\ D.nodes[e.u].k # D.nodes[e.v].k THEN "edge_deviation_indirect"
  ELSE "edge_deviation"

EdgeStyle(O, e) == IF O.what = "topology" /\ e.t = "deviation" THEN "dashed" ELSE "solid"

Blank == [circles |-> {}, lines |-> {}, marks |-> {}, arrows |-> {}, ntext |-> {}, etext |-> {}]

Circles(D, O) == {[n |-> n, c |-> IF O.nc = "type" \/ O.what = "form" THEN NodeColour(D, O, n) ELSE "sequence"] : n \in O.nsel}
Lines(D, O) == {[u |-> e.u, v |-> e.v, c |-> EdgeColour(D, O, e), s |-> EdgeStyle(O, e)] : e \in {x \in D.edges : <<x.u, x.v>> \in O.esel}}
Marks(D, O) == {n \in O.nsel : D.nodes[n].load}
Arrows(D, O, kind) == {[n |-> n, kind |-> kind] : n \in {m \in O.nsel : kind \in D.nodes[m].push}}

\* one layer after the other
Layers(what) == IF what = "topology" THEN <<"nodes", "edges", "loads", "ntext", "etext">>
                ELSE <<"nodes", "edges", "loads", "reactions", "ntext", "etext">>
Add(D, O, canvas, layer) ==
  IF ~O.show[layer] THEN canvas
  ELSE CASE layer = "nodes" -> [canvas EXCEPT !.circles = Circles(D, O)]
         [] layer = "edges" -> [canvas EXCEPT !.lines = Lines(D, O)]
         [] layer = "loads" -> IF O.what = "topology" THEN [canvas EXCEPT !.marks = Marks(D, O)]
                               ELSE [canvas EXCEPT !.arrows = @ \cup Arrows(D, O, "load")]
         [] layer = "reactions" -> [canvas EXCEPT !.arrows = @ \cup Arrows(D, O, "reaction")]
         [] layer = "ntext" -> [canvas EXCEPT !.ntext = O.nsel]
         [] layer = "etext" -> [canvas EXCEPT !.etext = O.esel]

\* the finished drawing, declaratively
Shown(D, O) ==
  [circles |-> IF O.show["nodes"] THEN Circles(D, O) ELSE {},
   lines |-> IF O.show["edges"] THEN Lines(D, O) ELSE {},
   marks |-> IF O.what = "topology" /\ O.show["loads"] THEN Marks(D, O) ELSE {},
   arrows |-> IF O.what = "form" THEN (IF O.show["loads"] THEN Arrows(D, O, "load") ELSE {}) \cup
                                      (IF O.show["reactions"] THEN Arrows(D, O, "reaction") ELSE {}) ELSE {},
   ntext |-> IF O.show["ntext"] THEN O.nsel ELSE {},
   etext |-> IF O.show["etext"] THEN O.esel ELSE {}]
=============================================================================
