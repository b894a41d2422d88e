-------------------------- MODULE CemDiagramTrace --------------------------
(***************************************************************************)
(* Conformance of recorded histories of real diagrams with CemDiagram.     *)
(*                                                                         *)
(* Every line of the trace is one call on a real diagram: the operation,   *)
(* whether it succeeded, what it returned, and the projected state after   *)
(* it. The pre-state is the post-state of the previous line of the same    *)
(* history, so that each step is judged on its own and a first divergence  *)
(* does not hide later ones. The verdict of a step is the set of names of  *)
(* the violated clauses; it is printed when it is not empty.               *)
(***************************************************************************)
EXTENDS CemDiagram, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES i, done
vars == <<i, done>>

-----------------------------------------------------------------------------
State(j) ==
  [nodes |-> j.nodes,
   edges |-> {j.edges[x] : x \in DOMAIN j.edges},
   trails |-> j.trails, aux |-> j.aux, al |-> j.al, av |-> j.av, tolu |-> j.tolu,
   look |-> [p \in {j.look[x].p : x \in DOMAIN j.look} |->
               j.look[CHOOSE x \in DOMAIN j.look : j.look[x].p = p].r]]

If(cond, name) == IF cond THEN {} ELSE {name}

-----------------------------------------------------------------------------
(* Auxiliary supports: along the direction av, at the signed length al *)

AuxPosOK(S, n, m, T) ==
  LET d == [x \in 1..3 |-> T.nodes[m].p[x] - S.nodes[n].p[x]]
      small == \A x \in 1..3 : Abs(d[x]) <= 32000
      a == S.av
      al == S.al
      cross(x, y) == Abs(d[x] * a[y] - d[y] * a[x])
      amax == Abs(a[1]) + Abs(a[2]) + Abs(a[3])
      dot == d[1] * a[1] + d[2] * a[2] + d[3] * a[3]
      sq == d[1]*d[1] + d[2]*d[2] + d[3]*d[3]
  IN /\ small
     /\ sq <= 1200000000
     /\ Abs(sq - al*al) <= 4 * Abs(al) + 10
     /\ cross(1, 2) <= 2 * amax /\ cross(2, 3) <= 2 * amax /\ cross(1, 3) <= 2 * amax
     /\ (IF al > 0 THEN dot > 0 ELSE dot < 0)

AuxShapeOK(S, T) ==
  LET new == DOMAIN T.nodes \ DOMAIN S.nodes
  IN /\ DOMAIN S.nodes \subseteq DOMAIN T.nodes
     /\ DOMAIN T.aux = DOMAIN S.aux \cup Loose(S)
     /\ \A n \in Loose(S) : Len(T.aux[n]) = 2 /\ T.aux[n][1] = n /\ T.aux[n][2] \in new
     /\ \A n, m \in Loose(S) : T.aux[n] = T.aux[m] => n = m
     /\ new = {T.aux[n][2] : n \in Loose(S)}

-----------------------------------------------------------------------------
(* Component-wise comparison of an expected state E with the observed T *)

Compare(name, E, T) ==
  If(DOMAIN E.nodes = DOMAIN T.nodes, name \o ".nodes") \cup
  (IF DOMAIN E.nodes # DOMAIN T.nodes THEN {} ELSE
     If(\A n \in DOMAIN E.nodes : E.nodes[n].p = T.nodes[n].p, name \o ".positions") \cup
     If(\A n \in DOMAIN E.nodes : E.nodes[n].t = T.nodes[n].t, name \o ".types") \cup
     If(\A n \in DOMAIN E.nodes : E.nodes[n].k = T.nodes[n].k, name \o ".sequences") \cup
     If(\A n \in DOMAIN E.nodes : E.nodes[n].q = T.nodes[n].q, name \o ".loads") \cup
     If(\A n \in DOMAIN E.nodes : E.nodes[n].r = T.nodes[n].r, name \o ".reactions")) \cup
  If(E.edges = T.edges, name \o ".edges") \cup
  If(DOMAIN E.trails = DOMAIN T.trails /\ E.trails = T.trails, name \o ".trails") \cup
  If(DOMAIN E.aux = DOMAIN T.aux /\ E.aux = T.aux, name \o ".auxiliary") \cup
  If(E.al = T.al /\ E.av = T.av /\ E.tolu = T.tolu, name \o ".settings")

\* lookups after the operation
LookOK(S, T, op, res) ==
  LET pl == Placed(S, op, res)
  IN \A p \in DOMAIN T.look :
      LET r == T.look[p] IN
      IF op.op = "build" /\ DOMAIN T.nodes # DOMAIN S.nodes
        THEN r = "none" \/ r \in NodesAt(T, p)
      ELSE IF op.op \in {"delNode", "raw"} THEN p \in DOMAIN S.look => r \in LookAfterChange(S, T, p, op.key)
      ELSE IF pl = <<>> THEN p \in DOMAIN S.look => r = S.look[p]
      ELSE IF Len(pl) = 1 THEN
        IF p \in DOMAIN S.look THEN r \in LookAfterPlacing(S, T, p, pl[1][1], pl[1][2])
        ELSE IF SamePlace(S, p, pl[1][2]) THEN r = pl[1][1]
        ELSE r = "none" \/ r \in NodesAt(T, p)
      ELSE IF SamePlace(S, p, pl[2][2]) THEN r = pl[2][1]
      ELSE IF SamePlace(S, p, pl[1][2]) THEN r = pl[1][1]
      ELSE p \in DOMAIN S.look => r = S.look[p]

-----------------------------------------------------------------------------
(* Are the values returned by a successful call admissible? *)

ResultOK(S, op, res) ==
  CASE op.op = "addNode" ->
         IF op.key = "none" THEN res.new[1] \notin DOMAIN S.nodes ELSE res.new[1] = op.key
    [] op.op = "addEdge" ->
         /\ (Resolve(S, op.a) # "none" => res.u = Resolve(S, op.a))
         /\ (Resolve(S, op.b) # "none" => res.v = Resolve(S, op.b))
         /\ (Resolve(S, op.a) = "none" => res.u \notin DOMAIN S.nodes)
         /\ (Resolve(S, op.b) = "none" => res.v \notin DOMAIN S.nodes)
         /\ res.u # res.v
    [] OTHER -> TRUE

\* name of the operation in clause names: builds with and without auxiliary trails differ
OpName(op) == IF op.op = "build" /\ op.aux THEN "buildaux" ELSE op.op

Step(S, e, T) ==
  LET op == e.op
      must == Succeeds(S, op)
      name == OpName(op)
  IN IF e.ok # must
       THEN {name \o (IF must THEN ".refused" ELSE ".accepted")}
     ELSE IF ~must
       THEN LET c == Compare(name \o ".failed", S, T) \cup
                     If(\A p \in DOMAIN S.look \cap DOMAIN T.look : T.look[p] = S.look[p], name \o ".failed.lookup")
            IN c
     ELSE IF ~ResultOK(S, op, e.res) THEN {name \o ".result"}
     ELSE IF op.op = "build" /\ op.aux THEN
            IF ~AuxShapeOK(S, T) THEN {name \o ".registry"}
            ELSE LET key == [n \in Loose(S) |-> T.aux[n][2]]
                     pos == [n \in Loose(S) |-> T.nodes[key[n]].p]
                 IN Compare(name, BuildAux(S, key, pos), T) \cup
                    If(\A n \in Loose(S) : AuxPosOK(S, n, key[n], T), name \o ".placement") \cup
                    If(LookOK(S, T, op, e.res), name \o ".lookup") \cup
                    If(Partition(T) /\ Numbered(T) /\ StartsAtZero(T), name \o ".partition") \cup
                    If(AuxOK(T), name \o ".auxiliary")
     ELSE Compare(name, Apply(S, op, e.res), T) \cup
          If(LookOK(S, T, op, e.res), name \o ".lookup") \cup
          (IF op.op = "build"
             THEN If(Partition(T) /\ Numbered(T) /\ StartsAtZero(T), name \o ".partition")
             ELSE {})

-----------------------------------------------------------------------------
(* Queries: what the public methods report about state T *)

SetOf(s) == {s[x] : x \in DOMAIN s}
NoDup(s) == Cardinality(SetOf(s)) = Len(s)
Listing(s, set) == NoDup(s) /\ SetOf(s) = set
KeysOf(E) == {<<e.u, e.v>> : e \in E}
Touching(E, n) == {e \in E : e.u = n \/ e.v = n}
\* loaded by more than m + 1/2 units (components beyond 25000 units are left aside)
Norm2(q) == q[1] * q[1] + q[2] * q[2] + q[3] * q[3]
Heavy(T, m) == {n \in DOMAIN T.nodes : Norm2(T.nodes[n].q) > m * m + m}
Weighable(T) == \A n \in DOMAIN T.nodes : \A c \in 1..3 : Abs(T.nodes[n].q[c]) <= 25000
\* a listing of edges together with their data
Rows(rows, E) == /\ Len(rows) = Cardinality(E)
                 /\ SetOf(rows) = {[u |-> e.u, v |-> e.v, t |-> e.t, f |-> e.f, len |-> e.len, pl |-> e.pl] : e \in E}
Loaded(T) == {n \in DOMAIN T.nodes : T.nodes[n].q # <<0, 0, 0>>}

BasicQueries(T, q) ==
  LET trail == EdgesOf(T, "trail")
      dev == EdgesOf(T, "deviation")
  IN
  If(Listing(q.trail_edges, KeysOf(trail)), "q.trail_edges") \cup
  If(Listing(q.deviation_edges, KeysOf(dev)), "q.deviation_edges") \cup
  If(Listing(q.supports, Supports(T)), "q.supports") \cup
  If(Listing(q.origins, Origins(T)), "q.origins") \cup
  If(Listing(q.loaded, Loaded(T)), "q.loaded") \cup
  If(Weighable(T) => Listing(q.heavy.list, Heavy(T, q.heavy.m)) /\ Listing(q.heavy.is, Heavy(T, q.heavy.m)), "q.heavy") \cup
  If(/\ Rows(q.data.trail, trail) /\ Rows(q.data.deviation, dev)
     /\ Rows(q.data.aux, {e \in T.edges : \E n \in DOMAIN T.aux : T.aux[n] = <<e.u, e.v>>}), "q.edge_data") \cup
  If(Listing(q.aux_edges, {<<e.u, e.v>> : e \in {x \in T.edges :
        \E n \in DOMAIN T.aux : T.aux[n] = <<x.u, x.v>>}}), "q.aux_edges") \cup
  If(/\ q.n_trails = Cardinality(DOMAIN T.trails)
     /\ q.n_aux = Cardinality(DOMAIN T.aux)
     /\ q.n_trail_edges = Cardinality(trail)
     /\ q.n_deviation_edges = Cardinality(dev)
     /\ q.n_supports = Cardinality(Supports(T))
     /\ q.n_loaded = Cardinality(Loaded(T))
     /\ q.has_trails = HasTrails(T), "q.counters") \cup
  If(\A n \in DOMAIN T.nodes : Listing(q.conn_trail[n], KeysOf(Touching(trail, n))), "q.connected_trail_edges") \cup
  If(\A n \in DOMAIN T.nodes : Listing(q.conn_dev[n], KeysOf(Touching(dev, n))), "q.connected_deviation_edges") \cup
  If(Listing(q.is_trail, KeysOf(trail)) /\ Listing(q.is_dev, KeysOf(dev)), "q.edge_predicates") \cup
  If(Listing(q.is_support, Supports(T)) /\ Listing(q.is_origin, Origins(T)) /\ Listing(q.is_loaded, Loaded(T)), "q.node_predicates") \cup
  If(Listing(q.is_aux, {<<e.u, e.v>> : e \in {x \in T.edges :
        \E n \in DOMAIN T.aux : T.aux[n] = <<x.u, x.v>>}}), "q.is_auxiliary") \cup
  If(Listing(q.supported_edges, KeysOf({e \in T.edges : e.u \in Supports(T) \/ e.v \in Supports(T)})), "q.supported_edges") \cup
  If(\A x \in DOMAIN q.values : LET e == q.values[x] IN
        \E d \in T.edges : d.u = e.u /\ d.v = e.v /\ d.f = e.f /\ d.len = e.len /\ d.pl = e.pl, "q.edge_values") \cup
  If(\A x \in DOMAIN q.loads : q.loads[x].q = T.nodes[q.loads[x].n].q /\ q.loads[x].r = T.nodes[q.loads[x].n].r
                                /\ q.loads[x].p = T.nodes[q.loads[x].n].p, "q.node_values") \cup
  If(\A o \in DOMAIN T.trails : q.trail[o] = T.trails[o], "q.trail") \cup
  If(NoDup(q.trail_list) /\ SetOf(q.trail_list) = Range(T.trails), "q.trails")

SequenceQueries(T, q) ==
  LET dev == EdgesOf(T, "deviation")
      dir == {e \in dev : Direct(T, e)}
      ind == {e \in dev : Indirect(T, e)}
  IN
  If(Listing(q.direct, KeysOf(dir)), "q.direct_deviation_edges") \cup
  If(Listing(q.indirect, KeysOf(ind)), "q.indirect_deviation_edges") \cup
  If(Rows(q.data_direct, dir) /\ Rows(q.data_indirect, ind), "q.deviation_data") \cup
  If(Listing(q.is_direct, KeysOf(dir)) /\ Listing(q.is_indirect, KeysOf(ind)), "q.deviation_predicates") \cup
  If(\A n \in DOMAIN T.nodes : Listing(q.conn_direct[n], KeysOf(Touching(dir, n))), "q.connected_direct") \cup
  If(\A n \in DOMAIN T.nodes : Listing(q.conn_indirect[n], KeysOf(Touching(ind, n))), "q.connected_indirect") \cup
  If(q.n_direct = Cardinality(dir) /\ q.n_indirect = Cardinality(ind), "q.deviation_counters") \cup
  If(q.k_last = LastK(T) /\ q.n_sequences = LastK(T) + 1, "q.sequence_last") \cup
  If(/\ Len(q.sequences) = LastK(T) + 1
     /\ \A x \in DOMAIN q.sequences : /\ q.sequences[x].k = x - 1
            /\ Listing(q.sequences[x].n, {n \in DOMAIN T.nodes : T.nodes[n].k = x - 1})
     /\ q.sequences_plain = [x \in DOMAIN q.sequences |-> q.sequences[x].n], "q.sequences") \cup
  If(\A n \in DOMAIN T.nodes : q.node_sequence[n] = T.nodes[n].k, "q.node_sequence") \cup
  If(\A x \in DOMAIN q.edge_sequence : LET e == q.edge_sequence[x] IN
        e.k = <<T.nodes[e.u].k, T.nodes[e.v].k>>, "q.edge_sequence") \cup
  If(\A o \in DOMAIN T.trails :
        /\ Len(q.trail_sequences[o]) = Len(T.trails[o])
        /\ SetOf(q.trail_sequences[o]) = {<<T.nodes[n].k, n>> : n \in Range(T.trails[o])}, "q.trail_sequences")

Queries(T, q) == BasicQueries(T, q) \cup
   (IF AllNumbered(T) /\ DOMAIN T.nodes # {} /\ "direct" \in DOMAIN q THEN SequenceQueries(T, q)
    ELSE IF AllNumbered(T) /\ DOMAIN T.nodes # {} THEN {"q.sequence_queries_failed"} ELSE {})

-----------------------------------------------------------------------------
(* Side conditions attached to a line: two observations that must agree,   *)
(* exactly or, for sequences of fixed-point numbers, up to tol             *)
Agrees(x) ==
  IF "tol" \in DOMAIN x
    THEN /\ Len(x.got) = Len(x.want)
         /\ \A y \in DOMAIN x.want : Abs(x.got[y] - x.want[y]) <= x.tol
    ELSE x.got = x.want

Verdict(x) ==
  LET e == Trace[x]
  IN IF e.crash # "" THEN {"crash"}
     ELSE LET T == State(e.post)
          IN (IF e.op.op \in {"init", "form"} THEN {} ELSE Step(State(Trace[x - 1].post), e, T))
             \cup If(LookSound(T), e.op.op \o ".lookup.stale")
             \cup (IF e.op.op = "form" THEN If(LookComplete(T), "form.lookup.missing") ELSE {})
             \cup (IF "q" \in DOMAIN e THEN Queries(T, e.q) ELSE {})
             \cup (IF "extra" \in DOMAIN e
                     THEN {e.extra[y].name : y \in {z \in DOMAIN e.extra : ~Agrees(e.extra[z])}}
                     ELSE {})

Init == i \in 1..Len(Trace) /\ done = FALSE
Next == /\ ~done /\ done' = TRUE /\ UNCHANGED i
        /\ LET v == Verdict(i) IN v = {} \/ PrintT(ToJson([at |-> i, bad |-> v]))
Spec == Init /\ [][Next]_vars
\* one state per line before and one after judging it
Judged == TLCGet("distinct") = 2 * Len(Trace)
=============================================================================
