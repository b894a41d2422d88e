------------------------------ MODULE CemMeshMC ------------------------------
(* All grids and rings up to a size, with all sets of supports.             *)
EXTENDS CemMesh, Json, TLC
CONSTANTS SIZES, EMIT         \* set of numbers 1000 kind + 10 rows + columns; kind: 1 grid, 2 ring, 3 grid supported at its rim
VARIABLES I, done
vars == <<I, done>>

Mod(a, b) == a - (a \div b) * b
At(c, i, j) == (i - 1) * c + j
Grid(r, c) == [i \in 1..r |-> [j \in 1..c |-> At(c, i, j)]] \o [j \in 1..c |-> [i \in 1..r |-> At(c, i, j)]]
\* r concentric closed rings with c vertices each, and c radii
Ring(r, c) == [i \in 1..r |-> [j \in 1..(c + 1) |-> At(c, i, IF j > c THEN 1 ELSE j)]] \o [j \in 1..c |-> [i \in 1..r |-> At(c, i, j)]]
Poly(kind, r, c) == IF kind = "grid" THEN Grid(r, c) ELSE Ring(r, c)
Rim(kind, r, c) == {v \in 1..(r * c) : LET i == (v - 1) \div c + 1  j == Mod(v - 1, c) + 1
                                       IN i \in {1, r} \/ (kind = "grid" /\ j \in {1, c})}

Instances == UNION {LET k == s \div 1000  r == Mod(s, 1000) \div 10  c == Mod(s, 10)
                        kind == IF k = 2 THEN "ring" ELSE "grid"
                    IN {[n |-> r * c, poly |-> Poly(kind, r, c), sup |-> x] :
                          x \in SUBSET (IF k = 3 THEN Rim(kind, r, c) ELSE 1..(r * c))} : s \in SIZES}

Init == I \in Instances /\ done = FALSE
Next == /\ ~done /\ done' = TRUE /\ UNCHANGED I /\ (EMIT => PrintT(ToJson(I)))
Spec == Init /\ [][Next]_vars

\* every link of the mesh is a trail edge, a deviation edge or skipped, never two of these
Disjoint == Deviations(I) \cap Trails(I) = {}
Complete == \A j \in DOMAIN I.poly : LET p == I.poly[j] IN
              IF Along(p, I.sup) THEN All(p) \cap (Deviations(I) \cup Trails(I)) = {}
              ELSE All(p) \subseteq Deviations(I) \cup Trails(I)
\* the trail edges of an open polyedge form one path from the support, or two
Paths == \A j \in DOMAIN I.poly : LET p == I.poly[j]  T == TrailOf(p, I.sup)  D == DevOf(p, I.sup) IN
           /\ (T # {} /\ D # {}) => Cardinality(D) = 1 /\ Ends(p, I.sup) = 2
           /\ (Len(p) = 4 /\ T # {} /\ D # {}) => Cardinality(T) = 2
           /\ (~Along(p, I.sup)) => Cardinality(T) + Cardinality(D) = Len(p) - 1
=============================================================================
