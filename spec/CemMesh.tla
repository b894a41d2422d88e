------------------------------- MODULE CemMesh -------------------------------
(***************************************************************************)
(* Conversion of a quad mesh, given by its polyedges, into a topology.     *)
(*   I.n    : number of vertices (named 1..n), I.poly: sequence of         *)
(*            polyedges (sequences of vertices; closed if first = last)    *)
(*   I.sup  : the supports                                                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Pair(u, v) == {u, v}
Links(p, from, to) == {Pair(p[j], p[j + 1]) : j \in from..(to - 1)}
All(p) == Links(p, 1, Len(p))

Closed(p) == p[1] = p[Len(p)]
Ends(p, sup) == Cardinality({j \in {1, Len(p)} : p[j] \in sup})
\* both ends are supports, and so is the neighbour of the first one
Along(p, sup) == ~Closed(p) /\ Ends(p, sup) = 2 /\ p[2] \in sup
\* the deviation edge between two trails joins vertices m and m + 1
Mid(p) == Len(p) \div 2

DevOf(p, sup) ==
  IF Closed(p) THEN All(p)
  ELSE IF Ends(p, sup) = 0 THEN All(p)
  ELSE IF Ends(p, sup) = 1 THEN {}
  ELSE IF Along(p, sup) THEN {}
  ELSE Links(p, Mid(p), Mid(p) + 1)
TrailOf(p, sup) ==
  IF Closed(p) \/ Ends(p, sup) = 0 THEN {}
  ELSE IF Ends(p, sup) = 1 THEN All(p)
  ELSE IF Along(p, sup) THEN {}
  ELSE Links(p, 1, Mid(p)) \cup Links(p, Mid(p) + 1, Len(p))

Deviations(I) == UNION {DevOf(I.poly[j], I.sup) : j \in DOMAIN I.poly}
Trails(I) == UNION {TrailOf(I.poly[j], I.sup) : j \in DOMAIN I.poly}
=============================================================================
