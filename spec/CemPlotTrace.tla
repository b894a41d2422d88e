----------------------------- MODULE CemPlotTrace ----------------------------
(***************************************************************************)
(* Judges drawings made by the real artists, as found on the canvas.       *)
(* All numbers are thousandths. A line has                                 *)
(*   D     : the diagram: nodes (id -> [t, k, p, q, ql, r, rl, size,       *)
(*           strong]), edges (sequence of [u, v, t, aux, sgn, force, len]),*)
(*           built. ql and rl are the lengths of load q and reaction r,    *)
(*           strong is the sign of the largest force at the node           *)
(*   O     : the options; palette: name -> colour; width: <<low, high>>;   *)
(*           ltol, rtol, lscale, rscale; ntag, etag: what labels tell      *)
(*   plot  : circles, lines, marks, arrows, ntext, etext, strays           *)
(*   same  : is the diagram what it was before?                            *)
(***************************************************************************)
EXTENDS CemPlot, Json, IOUtils, TLC

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES at, done
vars == <<at, done>>
If(c, name) == IF c THEN {} ELSE {name}
SetOf(s) == {s[j] : j \in DOMAIN s}
Abs(x) == IF x < 0 THEN -x ELSE x
Sqr(x) == x * x
Near(x, y, tol) == Abs(x - y) <= tol
XY(p) == <<p[1], p[2]>>

\* the witnesses for the lengths of vectors are right
LengthOK(f, l) == l >= 0 /\ Near(Sqr(f[1]) + Sqr(f[2]) + Sqr(f[3]), Sqr(l), 4 * l + 4)

Push(x, o) == (IF x.ql >= o.ltol THEN {"load"} ELSE {}) \cup (IF x.rl >= o.rtol THEN {"reaction"} ELSE {})
DiagramOf(e) ==
  [built |-> e.D.built, edges |-> SetOf(e.D.edges),
   nodes |-> [n \in DOMAIN e.D.nodes |-> LET x == e.D.nodes[n] IN
     [t |-> x.t, k |-> x.k, load |-> x.q # <<0, 0, 0>>, push |-> Push(x, e.O)]]]
OptionsOf(e) == [e.O EXCEPT !.nsel = SetOf(@), !.esel = SetOf(@)]

-----------------------------------------------------------------------------
Colour(e, name) == e.O.palette[name]

NodesVerdict(e, S) ==
  LET seen == e.plot.circles
      want == S.circles
      place(c) == XY(e.D.nodes[c.n].p)
  IN If(Len(seen) = Cardinality(want) /\ {x.p : x \in SetOf(seen)} = {place(c) : c \in want}, "nodes.places") \cup
     (IF e.O.nc = "type" \/ e.O.what = "form"
      THEN If(SetOf(seen) = {[p |-> place(c), c |-> Colour(e, c.c)] : c \in want}, "nodes.colours")
      ELSE LET col(n) == {x.c : x \in {y \in SetOf(seen) : y.p = XY(e.D.nodes[n].p)}}
           IN If(\A c, d \in want : (col(c.n) = col(d.n)) <=> (e.D.nodes[c.n].k = e.D.nodes[d.n].k), "nodes.sequences"))

EdgeOf(e, u, v) == CHOOSE x \in SetOf(e.D.edges) : x.u = u /\ x.v = v
\* widths grow with the magnitude of the force, from the lowest to the highest
WidthOK(e, S, l, w) ==
  LET lo == e.O.width[1]  hi == e.O.width[2]
      mags == {Abs(EdgeOf(e, m.u, m.v).force) : m \in S.lines}
      fmin == CHOOSE x \in mags : \A y \in mags : x <= y
      fmax == CHOOSE x \in mags : \A y \in mags : x >= y
      f == Abs(EdgeOf(e, l.u, l.v).force)
  IN IF lo = hi \/ e.O.what = "topology" THEN w = lo
     ELSE IF fmax - fmin < 50 THEN w \in lo..hi \/ w \in hi..lo
     ELSE Near((w - lo) * (fmax - fmin), (hi - lo) * (f - fmin), 2 * (fmax - fmin) + 2 * Abs(hi - lo))
EdgesVerdict(e, S) ==
  LET seen == SetOf(e.plot.lines)
      ends(l) == {XY(e.D.nodes[l.u].p), XY(e.D.nodes[l.v].p)}
      of(l) == {x \in seen : {x.a, x.b} = ends(l)}
  IN If(Len(e.plot.lines) = Cardinality(S.lines) /\ {{x.a, x.b} : x \in seen} = {ends(l) : l \in S.lines}, "edges.places") \cup
     If(\A l \in S.lines : \A x \in of(l) : x.c = Colour(e, l.c), "edges.colours") \cup
     If(\A l \in S.lines : \A x \in of(l) : x.s = l.s, "edges.styles") \cup
     If(\A l \in S.lines : \A x \in of(l) : WidthOK(e, S, l, x.w), "edges.widths")

\* a cross on each loaded node: two segments with their middle at the node
MarksVerdict(e, S) ==
  LET on(n) == {j \in DOMAIN e.plot.marks : LET m == e.plot.marks[j]  p == e.D.nodes[n].p IN
                  \A x \in 1..2 : Near(m.a[x] + m.b[x], 2 * p[x], 3)}
  IN If(Len(e.plot.marks) = 2 * Cardinality(S.marks) /\ \A n \in S.marks : Cardinality(on(n)) = 2, "loads.marks")

\* arrows: parallel to the force, in scale, attached to the node by their start or by their tip
ArrowOK(e, a, w) ==
  LET x == e.D.nodes[a.n]
      f == IF a.kind = "load" THEN x.q ELSE x.r
      l == IF a.kind = "load" THEN x.ql ELSE x.rl
      s == IF a.kind = "load" THEN e.O.lscale ELSE e.O.rscale
      tol == 2 * l + 2 * x.size + 2000
      starts == \A i \in 1..2 : Near((w.a[i] - x.p[i]) * l, x.size * f[i], tol)
      ends == \A i \in 1..2 : Near((w.a[i] + w.v[i] - x.p[i]) * l, -x.size * f[i], tol)
  IN /\ \A i \in 1..2 : Near(w.v[i] * 1000, s * f[i], 2000 + s)
     /\ w.c = Colour(e, IF a.kind = "load" THEN "load" ELSE "support_force")
     /\ (IF a.kind = "load" \/ x.strong > 0 THEN starts ELSE IF x.strong < 0 THEN ends ELSE starts \/ ends)
ArrowsVerdict(e, S) ==
  If(Len(e.plot.arrows) = Cardinality(S.arrows), "arrows.number") \cup
  If(\A a \in S.arrows : \E j \in DOMAIN e.plot.arrows : ArrowOK(e, a, e.plot.arrows[j]), "arrows.shown")

-----------------------------------------------------------------------------
\* numbers in labels have two decimals
Tells(x, want) == Len(x.nums) = Len(want) /\ \A j \in DOMAIN want : Near(x.nums[j], want[j], 6)
NodeLabelOK(e, x) ==
  LET n == e.D.nodes[x.n]  tag == e.O.ntag IN
  CASE tag = "key" -> x.s = x.n
    [] tag = "type" -> x.s = IF n.t = "none" THEN "None" ELSE n.t
    [] tag = "sequence" -> Tells(x, <<1000 * n.k>>)
    [] tag = "keysequence" -> Tells(x, <<1000 * n.key, 1000 * n.k>>)
    [] tag = "xyz" -> Tells(x, n.p)
    [] tag = "keyxyz" -> Tells(x, <<1000 * n.key>> \o n.p)
EdgeLabelOK(e, x) ==
  LET d == EdgeOf(e, x.u, x.v)  tag == e.O.etag
      f == IF e.O.what = "topology" THEN Abs(d.force) ELSE d.force
      st == IF d.sgn = 0 /\ Len(x.nums) > 0 THEN x.nums[Len(x.nums)] ELSE 1000 * d.sgn
  IN CASE tag = "key" -> x.s = x.u \o "-" \o x.v
       [] tag = "type" -> x.s = d.t
       [] tag = "force" -> Tells(x, <<f>>)
       [] tag = "length" -> Tells(x, <<d.len>>)
       [] tag = "state" -> Tells(x, <<st>>)
       [] tag = "forcelength" -> Tells(x, <<f, d.len>>)
       [] tag = "forcelengthstate" -> Tells(x, <<f, d.len, st>>)
LabelsVerdict(e, S) ==
  If(e.plot.strays = 0 /\ Len(e.plot.ntext) = Cardinality(S.ntext) /\ {x.n : x \in SetOf(e.plot.ntext)} = S.ntext, "labels.nodes.places") \cup
  If(Len(e.plot.etext) = Cardinality(S.etext) /\ {<<x.u, x.v>> : x \in SetOf(e.plot.etext)} = S.etext, "labels.edges.places") \cup
  If(\A x \in SetOf(e.plot.ntext) : NodeLabelOK(e, x), "labels.nodes") \cup
  If(\A x \in SetOf(e.plot.etext) : EdgeLabelOK(e, x), "labels.edges")

Verdict(e) ==
  IF e.crash # "" THEN {"crash"} ELSE
  LET S == Shown(DiagramOf(e), OptionsOf(e))
  IN If(e.same, "unchanged") \cup NodesVerdict(e, S) \cup EdgesVerdict(e, S) \cup MarksVerdict(e, S)
     \cup ArrowsVerdict(e, S) \cup LabelsVerdict(e, S)
     \cup If(\A n \in DOMAIN e.D.nodes : LengthOK(e.D.nodes[n].q, e.D.nodes[n].ql) /\ LengthOK(e.D.nodes[n].r, e.D.nodes[n].rl), "witness")

Init == at \in 1..Len(Trace) /\ done = FALSE
Next == /\ ~done /\ done' = TRUE /\ UNCHANGED at
        /\ LET v == Verdict(Trace[at]) IN v = {} \/ PrintT(ToJson([at |-> at, bad |-> v]))
Spec == Init /\ [][Next]_vars
Judged == TLCGet("distinct") = 2 * Len(Trace)
=============================================================================
