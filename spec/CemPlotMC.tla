------------------------------ MODULE CemPlotMC ------------------------------
(* All drawings of a family of small diagrams: two trails 1 - 2 and 3 - 4   *)
(* (supports 2 and 4), one deviation edge, possibly a free node 5 with an   *)
(* auxiliary trail to 6, all states, loads and options. The drawing is made *)
(* layer by layer; the finished one is what it should be.                   *)
EXTENDS CemPlot, Json, TLC
CONSTANTS EMIT
VARIABLES I, layer, canvas
vars == <<I, layer, canvas>>

Instances == [dev : {<<1, 3>>, <<3, 1>>, <<1, 4>>, <<4, 2>>}, sgn : {-1, 0, 1}, t1 : {-1, 1}, t2 : {-1, 1},
              loads : {{}, {1}, {2, 3}, {1, 2, 3, 4}}, shift : {0, 1}, aux : BOOLEAN, built : BOOLEAN]
Flags == {[nodes |-> TRUE, edges |-> TRUE, loads |-> TRUE, reactions |-> TRUE, ntext |-> TRUE, etext |-> TRUE],
          [nodes |-> FALSE, edges |-> TRUE, loads |-> FALSE, reactions |-> TRUE, ntext |-> FALSE, etext |-> TRUE],
          [nodes |-> TRUE, edges |-> FALSE, loads |-> TRUE, reactions |-> FALSE, ntext |-> TRUE, etext |-> FALSE]}
Options == [what : {"topology"}, nc : {"type", "sequence"}, ec : {"state", "type"}, part : BOOLEAN, show : Flags]
           \cup [what : {"form"}, nc : {"type"}, ec : {"state"}, part : BOOLEAN, show : Flags]

Nodes(J) == IF J.aux /\ J.built THEN 1..6 ELSE IF J.aux THEN 1..5 ELSE 1..4
Type(J, n) == IF n \in {2, 4, 6} THEN "support" ELSE IF J.built THEN "_origin" ELSE "none"
Seq0(J, n) == IF ~J.built THEN -1 ELSE IF n = 1 THEN J.shift ELSE IF n = 2 THEN 1 + J.shift ELSE IF n \in {3, 5} THEN 0 ELSE 1
\* trail forces have the signs of the signed lengths; the solver is not modelled here
Diagram(J) ==
  [built |-> J.built,
   nodes |-> [n \in Nodes(J) |-> [t |-> Type(J, n), k |-> Seq0(J, n), load |-> n \in J.loads,
                                  push |-> (IF n \in J.loads THEN {"load"} ELSE {}) \cup (IF n \in {2, 4} THEN {"reaction"} ELSE {})]],
   edges |-> {[u |-> 1, v |-> 2, t |-> "trail", aux |-> FALSE, sgn |-> J.t1], [u |-> 3, v |-> 4, t |-> "trail", aux |-> FALSE, sgn |-> J.t2],
              [u |-> J.dev[1], v |-> J.dev[2], t |-> "deviation", aux |-> FALSE, sgn |-> J.sgn]} \cup
             (IF J.aux /\ J.built THEN {[u |-> 5, v |-> 6, t |-> "trail", aux |-> TRUE, sgn |-> -1]} ELSE {})]
Selected(J, o) ==
  LET D == Diagram(J)
      edges == {<<e.u, e.v>> : e \in D.edges}
  IN [what |-> o.what, nc |-> o.nc, ec |-> o.ec, show |-> o.show,
      nsel |-> IF o.part THEN {1, 2, 3} ELSE DOMAIN D.nodes,
      esel |-> IF o.part THEN edges \ {<<1, 2>>} ELSE edges]

Init == /\ I \in [j : Instances, o : Options] /\ layer = 0 /\ canvas = Blank
        /\ ((I.o.what = "form" \/ I.o.nc = "sequence") => I.j.built)
        /\ (I.j.shift = 1 => I.j.built)
Next == LET D == Diagram(I.j)
            O == Selected(I.j, I.o)
            L == Layers(O.what)
        IN /\ layer < Len(L) /\ layer' = layer + 1 /\ canvas' = Add(D, O, canvas, L[layer']) /\ UNCHANGED I
           /\ (EMIT /\ layer' = Len(L) => PrintT(ToJson(I)))
Spec == Init /\ [][Next]_vars

Finished == layer = Len(Layers(I.o.what))
\* the layers amount to the drawing as it should be
Done == Finished => canvas = Shown(Diagram(I.j), Selected(I.j, I.o))
\* nothing is drawn that is not selected, nothing is drawn twice
Sound == LET D == Diagram(I.j)  O == Selected(I.j, I.o) IN
  /\ {c.n : c \in canvas.circles} \subseteq O.nsel /\ Cardinality(canvas.circles) <= Cardinality(O.nsel)
  /\ {<<l.u, l.v>> : l \in canvas.lines} \subseteq O.esel /\ Cardinality(canvas.lines) <= Cardinality(O.esel)
  /\ canvas.marks \subseteq O.nsel /\ {a.n : a \in canvas.arrows} \subseteq O.nsel
  /\ canvas.ntext \subseteq O.nsel /\ canvas.etext \subseteq O.esel
\* colours tell what an edge is: of two edges in the same colour by type, both are of that type
Telling == \A a, b \in canvas.lines : a.c = b.c /\ I.o.what = "topology" /\ I.o.ec = "type" => a.s = b.s
=============================================================================
