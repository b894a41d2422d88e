---------------------------- MODULE CemDiagramMC ----------------------------
(***************************************************************************)
(* Exhaustive exploration of the diagram state machine within small        *)
(* bounds. Checks the invariants of the design and, when EMIT is set,      *)
(* prints every explored transition (a history and its last operation) for *)
(* replay in the real code.                                                *)
(***************************************************************************)
EXTENDS CemDiagram, Json, IOUtils

CONSTANTS PROFILE,   \* which alphabet of operations is explored
          DEPTH,     \* number of operations
          EMIT       \* print the transitions

VARIABLES S, hist, last
vars == <<S, hist, last>>

-----------------------------------------------------------------------------
(* Alphabets *)

P0 == <<0, 0, 0>>
P1 == <<10000, 0, -5000>>
P2 == <<0, 20000, 0>>
P0near == <<3, -2, 1>>           \* same place as P0 for a tolerance of 3 digits
P1far == <<10000, 0, -5010>>     \* one unit of the tolerance away from P1
Points == {P0, P1, P2, P0near, P1far}

Ids == {ToString(i) : i \in 0..9}
FreshId(T) == ToString(CHOOSE i \in 0..20 : ToString(i) \notin DOMAIN T.nodes
                          /\ \A j \in 0..20 : ToString(j) \notin DOMAIN T.nodes => i <= j)

ByPoint(p) == [p |-> p]
ByKey(k) == [k |-> k]

LookupOps(T) ==
  {[op |-> "addNode", key |-> k, p |-> p] : k \in {"none", "1", "7"}, p \in {P0, P1, P0near}}
  \cup {[op |-> "move", key |-> k, p |-> p] : k \in DOMAIN T.nodes, p \in {P0, P1, P1far}}
  \cup {[op |-> "addEdge", a |-> ByPoint(a), b |-> ByPoint(b), t |-> "trail", val |-> -10000, pl |-> <<>>] :
           a \in {P0, P0near}, b \in {P1, P2}}
  \cup {[op |-> "delNode", key |-> k] : k \in DOMAIN T.nodes \cap {"1", "7"}}
  \cup {[op |-> "raw", key |-> k, p |-> p] : k \in DOMAIN T.nodes \cap {"0", "7"}, p \in {P0, P1}}
  \cup {[op |-> "addSupport", ref |-> ByPoint(p)] : p \in {P0near, P1far}}
  \cup {[op |-> "addLoad", ref |-> r, q |-> <<0, 0, 10000>>] : r \in {ByPoint(P0), ByKey("7")}}

LoadOps(T) ==
  {[op |-> "addNode", key |-> k, p |-> p] : k \in {"none", "5"}, p \in {P0, P1}}
  \cup {[op |-> "move", key |-> "5", p |-> P2] : x \in (IF "5" \in DOMAIN T.nodes THEN {1} ELSE {})}
  \cup {[op |-> "addSupport", ref |-> r] : r \in {ByPoint(P0), ByPoint(P1far), ByKey("5"), ByKey("0")}}
  \cup {[op |-> "addLoad", ref |-> r, q |-> q] :
          r \in {ByPoint(P0near), ByPoint(P2), ByKey("5"), ByKey("0")},
          q \in {<<0, 0, 10000>>, <<-5000, 0, 0>>}}

Quad == {"0", "1", "2", "3"}
QuadPos == ("0" :> P0) @@ ("1" :> P1) @@ ("2" :> P2) @@ ("3" :> <<0, 0, 30000>>)

TrailOps(T) ==
  {[op |-> "addEdge", a |-> ByKey(a), b |-> ByKey(b), t |-> t, val |-> -10000, pl |-> <<>>] :
     <<a, b, t>> \in {<<"0", "1", "trail">>, <<"1", "2", "trail">>, <<"3", "2", "trail">>,
                      <<"2", "0", "trail">>, <<"1", "3", "deviation">>, <<"1", "2", "deviation">>}}
  \cup {[op |-> "addSupport", ref |-> ByKey(k)] : k \in {"0", "2", "3"}}
  \cup {[op |-> "delEdge", u |-> e.u, v |-> e.v] : e \in {x \in T.edges : x.u \in Quad /\ x.v \in Quad}}
  \cup {[op |-> "build", aux |-> b] : b \in BOOLEAN}
  \cup {[op |-> "shift", key |-> k, s |-> s] : k \in {"0", "1"}, s \in {0, 2}}
  \cup {[op |-> "json"]}

Ops(T) == CASE PROFILE = "lookup" -> LookupOps(T)
            [] PROFILE = "load" -> LoadOps(T)
            [] PROFILE = "trail" -> TrailOps(T)

-----------------------------------------------------------------------------
EmptyState ==
  [nodes |-> <<>>, edges |-> {}, trails |-> <<>>, aux |-> <<>>, al |-> -10000,
   av |-> <<0, 0, 10000>>, tolu |-> 10, look |-> [p \in Points |-> "none"]]

QuadState == [EmptyState EXCEPT
   !.nodes = [n \in Quad |-> NewNode(QuadPos[n])],
   !.look = [p \in Points |-> IF p = P0near THEN "0"
                              ELSE IF \E n \in Quad : QuadPos[n] = p
                              THEN CHOOSE n \in Quad : QuadPos[n] = p ELSE "none"]]

Init == /\ S = IF PROFILE = "trail" THEN QuadState ELSE EmptyState
        /\ hist = <<>> /\ last = [op |-> "init"]

\* the model resolves open choices with the smallest free keys
AuxKeys(T) ==
  LET L == Loose(T)
      rank(n) == Cardinality({m \in L : \E i, j \in 0..20 : m = ToString(i) /\ n = ToString(j) /\ i < j})
      free == {i \in 0..20 : ToString(i) \notin DOMAIN T.nodes}
      nth(r) == CHOOSE i \in free : Cardinality({j \in free : j < i}) = r
  IN [n \in L |-> ToString(nth(rank(n)))]

Res(T, op) ==
  CASE op.op = "addNode" -> [new |-> <<FreshId(T)>>]
    [] op.op = "addEdge" ->
         LET u == Resolve(T, op.a)
             u1 == IF u = "none" THEN FreshId(T) ELSE u
             T1 == IF u = "none" THEN PutNode(T, u1, op.a.p) ELSE T
             v == Resolve(T, op.b)
         IN [u |-> u1, v |-> IF v = "none" THEN FreshId(T1) ELSE v]
    [] op.op = "build" -> [auxkey |-> AuxKeys(T),
                           auxpos |-> [n \in Loose(T) |-> [i \in 1..3 |-> T.nodes[n].p[i] - (IF i = 3 THEN 10000 ELSE 0)]]]
    [] OTHER -> [none |-> 0]

LookAfter(A, B, op, res) ==
  LET pl == Placed(A, op, res)
  IN [p \in DOMAIN A.look |->
        IF op.op \in {"delNode", "raw"} THEN
          LET c == LookAfterChange(A, B, p, op.key)
          IN IF "none" \in c THEN "none" ELSE CHOOSE x \in c : TRUE
        ELSE IF pl = <<>> THEN A.look[p]
        ELSE IF Len(pl) = 1 THEN
          LET c == LookAfterPlacing(A, B, p, pl[1][1], pl[1][2])
          IN IF "none" \in c THEN "none" ELSE CHOOSE x \in c : TRUE
        ELSE IF SamePlace(A, p, pl[2][2]) THEN pl[2][1]
        ELSE IF SamePlace(A, p, pl[1][2]) THEN pl[1][1] ELSE A.look[p]]

Do(op) ==
  LET ok == Succeeds(S, op)
      res == Res(S, op)
      T == Apply(S, op, res)
      U == IF ok THEN [T EXCEPT !.look = LookAfter(S, T, op, res)] ELSE S
  IN /\ S' = U
     /\ hist' = Append(hist, op)
     /\ last' = [op |-> op.op, ok |-> ok]
     /\ (EMIT => PrintT(ToJson([h |-> hist'])))

Next == Len(hist) < DEPTH /\ \E op \in Ops(S) : Do(op)
Spec == Init /\ [][Next]_vars

View == <<S, last>>

-----------------------------------------------------------------------------
(* Design properties *)

BuildOK == (last.op = "build" /\ last.ok) => Partition(S) /\ Numbered(S) /\ StartsAtZero(S)
RegistryOK == LookSound(S) /\ (\A n \in DOMAIN S.nodes : NodesAt(S, S.nodes[n].p) # {})
AuxiliaryOK == AuxOK(S)
Idempotent == ValidPlain(S) => LET T == BuildPlain(S) IN ValidPlain(T) /\ BuildPlain(T) = T
HistoryFree ==      \* building forgets old trails, origins and sequences
  ValidPlain(S) =>
    LET clean == [S EXCEPT !.trails = <<>>,
                    !.nodes = [n \in DOMAIN @ |-> [@[n] EXCEPT !.k = -1,
                        !.t = IF @ = "_origin" THEN "none" ELSE @]]]
    IN BuildPlain(clean) = BuildPlain(S)
\* a failed operation changes nothing; a build changes neither positions nor edges of old nodes
BuildFrame ==
  [][ \A op \in {"build", "shift", "json"} : last'.op = op =>
        /\ (~last'.ok => S' = S)
        /\ \A n \in DOMAIN S.nodes : S'.nodes[n].p = S.nodes[n].p /\ S'.nodes[n].q = S.nodes[n].q
        /\ S.edges \subseteq S'.edges ]_vars
=============================================================================
