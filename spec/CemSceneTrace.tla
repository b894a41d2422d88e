---------------------------- MODULE CemSceneTrace ----------------------------
(***************************************************************************)
(* Judges scenes made by the objects of the viewer, run with a stand-in    *)
(* for the viewer's library. Scenes follow CemPlot, in space:              *)
(* nodes are points, edges cylinders, forces arrows. Numbers are           *)
(* thousandths. A line has                                                 *)
(*   D, O  : diagram and options as in CemPlotTrace                        *)
(*   scene : points [p, c], tubes [a, b, c, w], arrows [a, v, c],          *)
(*           texts [p, s, nums], shown: what the object says it shows      *)
(***************************************************************************)
EXTENDS CemPlot, Json, IOUtils, TLC

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES at, done
vars == <<at, done>>
If(c, name) == IF c THEN {} ELSE {name}
SetOf(s) == {s[j] : j \in DOMAIN s}
Abs(x) == IF x < 0 THEN -x ELSE x
Near(x, y, tol) == Abs(x - y) <= tol
Near3(p, q, tol) == \A i \in 1..3 : Near(p[i], q[i], tol)

Push(x, o) == (IF x.ql >= o.ltol THEN {"load"} ELSE {}) \cup (IF x.rl >= o.rtol THEN {"reaction"} ELSE {})
DiagramOf(e) ==
  [built |-> e.D.built, edges |-> SetOf(e.D.edges),
   nodes |-> [n \in DOMAIN e.D.nodes |-> LET x == e.D.nodes[n] IN
     [t |-> x.t, k |-> x.k, load |-> x.q # <<0, 0, 0>>, push |-> Push(x, e.O)]]]
OptionsOf(e) == [e.O EXCEPT !.nsel = SetOf(@), !.esel = SetOf(@)]
EdgeOf(e, u, v) == CHOOSE x \in SetOf(e.D.edges) : x.u = u /\ x.v = v

-----------------------------------------------------------------------------
PointsVerdict(e, D, O) ==
  LET seen == e.scene.points
      colour(n) == e.O.palette[IF NodeColour(D, O, n) = "node" THEN "node_black" ELSE NodeColour(D, O, n)]
  IN If(/\ Len(seen) = Cardinality(O.nsel)
        /\ \A n \in O.nsel : \E x \in SetOf(seen) : Near3(x.p, e.D.nodes[n].p, 1), "points.places") \cup
     If(\A n \in O.nsel : \A x \in SetOf(seen) : Near3(x.p, e.D.nodes[n].p, 1) => x.c = colour(n), "points.colours")

\* an edge without force may have either colour
Colours(e, D, O, l) ==
  LET d == EdgeOf(e, l.u, l.v) IN
  IF O.what = "form" /\ Abs(d.force) <= 1 THEN {e.O.palette[x] : x \in {"tension", "compression", "edge"}}
  ELSE {e.O.palette[EdgeColour(D, O, d)]}
WidthOK(e, O, l, w) ==
  LET lo == e.O.width[1]  hi == e.O.width[2]
      mags == {Abs(EdgeOf(e, m[1], m[2]).force) : m \in O.esel}
      fmin == CHOOSE x \in mags : \A y \in mags : x <= y
      fmax == CHOOSE x \in mags : \A y \in mags : x >= y
      f == Abs(EdgeOf(e, l.u, l.v).force)
  IN IF lo = hi THEN Near(w, lo, 1)
     ELSE IF fmax - fmin < 50 THEN w \in lo..hi \/ w \in hi..lo
     ELSE Near((w - lo) * (fmax - fmin), (hi - lo) * (f - fmin), 3 * (fmax - fmin) + 2 * Abs(hi - lo))
TubesVerdict(e, D, O, S) ==
  LET seen == SetOf(e.scene.tubes)
      place(n) == e.D.nodes[n].p
      is(x, l) == \/ Near3(x.a, place(l.u), 2) /\ Near3(x.b, place(l.v), 2)
                  \/ Near3(x.b, place(l.u), 2) /\ Near3(x.a, place(l.v), 2)
      of(l) == {x \in seen : is(x, l)}
  IN If(Len(e.scene.tubes) = Cardinality(S.lines) /\ \A l \in S.lines : of(l) # {}, "tubes.places") \cup
     If(\A l \in S.lines : \A x \in of(l) : x.c \in Colours(e, D, O, l), "tubes.colours") \cup
     If(\A l \in S.lines : \A x \in of(l) : WidthOK(e, O, l, x.w), "tubes.widths")

ArrowOK(e, a, w) ==
  LET x == e.D.nodes[a.n]
      f == IF a.kind = "load" THEN x.q ELSE x.r
      s == IF a.kind = "load" THEN e.O.lscale ELSE e.O.rscale
      starts == Near3(w.a, x.p, 2)
      ends == \A i \in 1..3 : Near(w.a[i] + w.v[i], x.p[i], 3)
  IN /\ \A i \in 1..3 : Near(w.v[i] * 1000, s * f[i], 2000 + s)
     /\ w.c = e.O.palette[IF a.kind = "load" THEN "load" ELSE "support_force"]
     /\ (IF a.kind = "load" \/ x.strong > 0 THEN starts ELSE IF x.strong < 0 THEN ends ELSE starts \/ ends)
ArrowsVerdict(e, S) ==
  LET want == IF e.O.what = "form" THEN S.arrows ELSE {a \in Arrows(DiagramOf(e), OptionsOf(e), "load") : e.O.show["loads"]}
  IN If(Len(e.scene.arrows) = Cardinality(want), "arrows.number") \cup
     If(\A a \in want : \E j \in DOMAIN e.scene.arrows : ArrowOK(e, a, e.scene.arrows[j]), "arrows.shown")

-----------------------------------------------------------------------------
Tells(x, want) == Len(x.nums) = Len(want) /\ \A j \in DOMAIN want : Near(x.nums[j], want[j], 6)
NodeLabelOK(e, n, x) ==
  LET d == e.D.nodes[n]  tag == e.O.ntag IN
  CASE tag = "key" -> x.s = n
    [] tag = "type" -> x.s = IF d.t = "none" THEN "None" ELSE d.t
    [] tag = "xyz" -> Tells(x, d.p)
    [] tag = "keyxyz" -> Tells(x, <<1000 * d.key>> \o d.p)
EdgeLabelOK(e, l, x) ==
  LET d == EdgeOf(e, l[1], l[2])  tag == e.O.etag
      f == Abs(d.force)
      st == IF d.sgn = 0 /\ Len(x.nums) > 0 THEN x.nums[Len(x.nums)] ELSE 1000 * d.sgn
  IN CASE tag = "key" -> x.s = l[1] \o "-" \o l[2]
       [] tag = "type" -> x.s = d.t
       [] tag = "force" -> Tells(x, <<f>>)
       [] tag = "length" -> Tells(x, <<d.len>>)
       [] tag = "state" -> Tells(x, <<st>>)
       [] tag = "forcelength" -> Tells(x, <<f, d.len>>)
       [] tag = "forcelengthstate" -> Tells(x, <<f, d.len, st>>)
TextsVerdict(e, S) ==
  LET seen == SetOf(e.scene.texts)
      mid(l) == [i \in 1..3 |-> (e.D.nodes[l[1]].p[i] + e.D.nodes[l[2]].p[i]) \div 2]
      onnode(n) == {x \in seen : Near3(x.p, e.D.nodes[n].p, 1)}
      onedge(l) == {x \in seen : Near3(x.p, mid(l), 2)}
  IN If(Len(e.scene.texts) = Cardinality(S.ntext) + Cardinality(S.etext), "texts.number") \cup
     If(\A n \in S.ntext : \E x \in onnode(n) : NodeLabelOK(e, n, x), "texts.nodes") \cup
     If(\A l \in S.etext : \E x \in onedge(l) : EdgeLabelOK(e, l, x), "texts.edges")

Verdict(e) ==
  IF e.crash # "" THEN {"crash"} ELSE
  LET D == DiagramOf(e)
      O == OptionsOf(e)
      S == Shown(D, O)
  IN If(e.same, "unchanged") \cup If(e.scene.shown = <<e.O.show["nodes"], e.O.show["edges"]>>, "switches")
     \cup PointsVerdict(e, D, O) \cup TubesVerdict(e, D, O, S) \cup ArrowsVerdict(e, S) \cup TextsVerdict(e, S)

Init == at \in 1..Len(Trace) /\ done = FALSE
Next == /\ ~done /\ done' = TRUE /\ UNCHANGED at
        /\ LET v == Verdict(Trace[at]) IN v = {} \/ PrintT(ToJson([at |-> at, bad |-> v]))
Spec == Init /\ [][Next]_vars
Judged == TLCGet("distinct") = 2 * Len(Trace)
=============================================================================
