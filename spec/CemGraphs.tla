----------------------------- MODULE CemGraphs -----------------------------
(***************************************************************************)
(* All topologies with N nodes: every pair of nodes is unconnected, or     *)
(* connected by a trail edge or a deviation edge, and any subset of the    *)
(* nodes are supports. Checks that the walk-based definitions of valid     *)
(* topologies in CemDiagram coincide with a declarative one, that building *)
(* gives a partition, and emits every topology for replay in the real code.*)
(***************************************************************************)
EXTENDS CemDiagram, Json

CONSTANTS N, KINDS, EMIT

VARIABLES G, phase
vars == <<G, phase>>

Nodes == 0..N-1
Pairs == {<<a, b>> \in Nodes \X Nodes : a < b}

\* the topologies up to renaming of supports are not reduced: labels matter to the code
Init == /\ phase = 0
        /\ \E kind \in [Pairs -> KINDS], sup \in SUBSET Nodes : G = [kind |-> kind, sup |-> sup]

StateOf(g) ==
  [nodes |-> [n \in {ToString(i) : i \in Nodes} |->
       [NewNode(<<0, 0, 0>>) EXCEPT !.t = IF \E i \in g.sup : ToString(i) = n THEN "support" ELSE "none"]],
   edges |-> {[u |-> ToString(p[1]), v |-> ToString(p[2]), t |-> g.kind[p], len |-> 0, f |-> 0, pl |-> <<>>] :
                 p \in {x \in Pairs : g.kind[x] # "none"}},
   trails |-> <<>>, aux |-> <<>>, al |-> -1, av |-> <<0, 0, 1>>, tolu |-> 10, look |-> <<>>]

S == StateOf(G)

RECURSIVE Closure(_, _)
Closure(T, set) ==
  LET more == set \cup UNION {TrailNbrs(T, n) : n \in set}
  IN IF more = set THEN set ELSE Closure(T, more)

\* component C of the trail graph is a path with one support, at an end
GoodComponent(T, C) ==
  /\ Cardinality(C) >= 2
  /\ Cardinality({p \in TrailPairs(T) : p \subseteq C}) = Cardinality(C) - 1
  /\ \A n \in C : Degree(T, n) <= 2
  /\ \E s \in C : Degree(T, s) = 1 /\ Supports(T) \cap C = {s}

Components(T) == {Closure(T, {n}) : n \in DOMAIN T.nodes}

DeclPlain(T) == \A C \in Components(T) : GoodComponent(T, C)
DeclAux(T) == \A C \in Components(T) :
   GoodComponent(T, C) \/ (Cardinality(C) = 1 /\ C \cap Supports(T) = {})

Valid == phase = 1 \/ (ValidPlain(S) <=> DeclPlain(S))
ValidWithAux == phase = 1 \/ (ValidAux(S) <=> DeclAux(S))
Built == (phase = 0 /\ ValidPlain(S)) => LET T == BuildPlain(S) IN Partition(T) /\ Numbered(T) /\ StartsAtZero(T)
BuiltAux == (phase = 0 /\ ValidAux(S)) =>
   LET L == Loose(S)
       key == [n \in L |-> "aux" \o n]
       T == BuildAux(S, key, [n \in L |-> <<0, 0, 0>>])
   IN Partition(T) /\ Numbered(T) /\ StartsAtZero(T) /\ AuxOK(T) /\ DOMAIN T.aux = L

Next == /\ phase = 0 /\ phase' = 1 /\ UNCHANGED G
        /\ (EMIT => PrintT(ToJson(
              [t |-> {p \in Pairs : G.kind[p] = "trail"},
               d |-> {p \in Pairs : G.kind[p] = "deviation"},
               s |-> G.sup])))
Spec == Init /\ [][Next]_vars
=============================================================================
