----------------------------- MODULE CemMeshTrace ----------------------------
(***************************************************************************)
(* Judges topologies converted from meshes by the real code. A line has    *)
(*   inst : [n, poly, sup], pos: fixed-point positions of 1..n             *)
(*   length: given length or 0, tstate; force, dstate (in units of 1/1000) *)
(*   nodes: sequence of [v, p, sup]   (v: vertex or 0 if unknown)          *)
(*   edges: sequence of [u, v, t, length, force]                           *)
(***************************************************************************)
EXTENDS CemMesh, Json, IOUtils, TLC

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES at, done
vars == <<at, done>>
If(c, name) == IF c THEN {} ELSE {name}
SetOf(s) == {s[j] : j \in DOMAIN s}
Abs(x) == IF x < 0 THEN -x ELSE x
Sqr(x) == x * x
Dist2(p, q) == Sqr(p[1] - q[1]) + Sqr(p[2] - q[2]) + Sqr(p[3] - q[3])

LengthOK(e, x) ==
  IF e.length # 0 THEN x.length = e.length * e.tstate
  ELSE /\ Abs(Sqr(x.length) - Dist2(e.pos[x.u], e.pos[x.v])) <= 3 * Abs(x.length) + 3
       /\ x.length * e.tstate > 0

Verdict(e) ==
  IF e.crash # "" THEN {"crash"} ELSE
  LET I == [e.inst EXCEPT !.sup = SetOf(@)]
      seen(t) == {Pair(x.u, x.v) : x \in {y \in SetOf(e.edges) : y.t = t}}
  IN If(Len(e.nodes) = I.n /\ {e.nodes[j].v : j \in DOMAIN e.nodes} = 1..I.n, "nodes") \cup
     If(\A j \in DOMAIN e.nodes : e.nodes[j].v \in 1..I.n => e.nodes[j].p = e.pos[e.nodes[j].v], "positions") \cup
     If({e.nodes[j].v : j \in {k \in DOMAIN e.nodes : e.nodes[k].sup}} = I.sup, "supports") \cup
     If(Len(e.edges) = Cardinality({Pair(x.u, x.v) : x \in SetOf(e.edges)}), "repeated") \cup
     If(seen("trail") = Trails(I), "trails") \cup
     If(seen("deviation") = Deviations(I), "deviations") \cup
     If(\A j \in DOMAIN e.edges : e.edges[j].t = "trail" => LengthOK(e, e.edges[j]), "lengths") \cup
     If(\A j \in DOMAIN e.edges : e.edges[j].t = "deviation" => e.edges[j].force = e.force * e.dstate, "forces")

Init == at \in 1..Len(Trace) /\ done = FALSE
Next == /\ ~done /\ done' = TRUE /\ UNCHANGED at
        /\ LET v == Verdict(Trace[at]) IN v = {} \/ PrintT(ToJson([at |-> at, bad |-> v]))
Spec == Init /\ [][Next]_vars
Judged == TLCGet("distinct") = 2 * Len(Trace)
=============================================================================
