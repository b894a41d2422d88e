----------------------------- MODULE CemFrontMC -----------------------------
(* All short canvases: a topology with two trails 1 - 2 - 3 and 4 - 5, one   *)
(* deviation edge, and components that shift, move, export and show.        *)
EXTENDS CemFront, Json
CONSTANTS EMIT, MAXSTEPS
VARIABLES wires, hist
vars == <<wires, hist>>

P(x, y) == <<10000 * x, 10000 * y, 0>>
Edge(a, b, val) == [a |-> a, b |-> b, val |-> val, pl |-> <<>>]
Plan == [c |-> "assemble",
         trail |-> <<Edge(P(0, 1), P(0, 2), -10000), Edge(P(0, 3), P(0, 2), -10000), Edge(P(1, 1), P(1, 2), 15000)>>,
         dev |-> <<Edge(P(0, 1), P(1, 1), 5000)>>,
         loads |-> <<[p |-> P(0, 1), q |-> <<0, -10000, 0>>]>>,
         supports |-> <<P(0, 3), P(1, 2)>>, aux |-> FALSE]
Key == [p \in {P(0, 1), P(0, 2), P(0, 3), P(1, 1), P(1, 2)} |->
  CASE p = P(0, 1) -> "0" [] p = P(0, 2) -> "1" [] p = P(0, 3) -> "2" [] p = P(1, 1) -> "3" [] p = P(1, 2) -> "4"]
Blank == [nodes |-> [n \in {} |-> 0], edges |-> {}, trails |-> [n \in {} |-> 0], aux |-> [n \in {} |-> 0],
          al |-> -10000, av |-> <<0, 0, 10>>, tolu |-> 10, look |-> [n \in {} |-> 0]]
Base == BuildPlain(Unbuilt(Blank, Plan, Key))

KeyLists == {<<"0">>, <<"3">>, <<"0", "3">>, <<"3", "0">>, <<"1">>, <<"0", "2">>}
Steps(w) == [c : {"shift"}, w : {w}, keys : KeyLists, seqs : {<<1>>, <<0, 2>>, <<2, 1>>}]
       \cup [c : {"moveOrigins"}, w : {w}, keys : {<<"0">>, <<"0", "3">>}, ps : {<<P(3, 1)>>, <<P(3, 1), P(2, 0)>>, <<P(0, 5), P(0, 1)>>}]
       \cup [c : {"json", "show", "solve"}, w : {w}]
\* moving two origins to one place makes a diagram of another shape: left out
Sane(s) == s.c = "moveOrigins" => Len(s.ps) >= Len(s.keys)

Init == wires = <<Base>> /\ hist = <<>>
Next == /\ Len(hist) < MAXSTEPS
        /\ \E w \in 1..Len(wires) : \E s \in Steps(w) :
             /\ Sane(s)
             /\ hist' = Append(hist, s)
             /\ wires' = IF s.c \in {"show", "solve"} \/ ~Delivers(wires[w], s) THEN wires ELSE Append(wires, Delivered(wires[w], s))
             /\ (EMIT /\ Len(hist') = MAXSTEPS => PrintT(ToJson([plan |-> Plan, steps |-> hist'])))
Spec == Init /\ [][Next]_vars

CanBase == CanAssemble(Blank, Plan, Key)
Valid == CanBase /\ \A w \in 1..Len(wires) : Partition(wires[w]) /\ Numbered(wires[w])
\* components do not touch the graph, only sequences and places
Alike == \A w \in 1..Len(wires) :
           /\ wires[w].edges = Base.edges /\ wires[w].trails = Base.trails
           /\ \A n \in DOMAIN Base.nodes : wires[w].nodes[n].t = Base.nodes[n].t /\ wires[w].nodes[n].q = Base.nodes[n].q
           /\ \A n \in DOMAIN Base.nodes \ Origins(Base) : wires[w].nodes[n].p = Base.nodes[n].p
\* the wires that exist keep what they hold
Kept == [][\A w \in 1..Len(wires) : wires'[w] = wires[w]]_vars
=============================================================================
