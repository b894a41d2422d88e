---------------------------- MODULE CemFrontTrace ----------------------------
(***************************************************************************)
(* Judges canvases of real components and artists, run with stand-ins for  *)
(* Rhino. A line is one of                                                 *)
(*   kind "step": component c, ok: did it deliver?, wires: what is on all  *)
(*        the wires afterwards (the pre-state is in the line before)       *)
(*   kind "draw": what an artist drew of a diagram: S, the projected       *)
(*        diagram; F: node -> [q, ql, r, rl, strong] in thousandths;       *)
(*        all, nsel, esel; scale, gap, least in thousandths; out: layers   *)
(*   kind "agree": nothing but pairs                                       *)
(* and may carry pairs that must agree (extra).                            *)
(***************************************************************************)
EXTENDS CemFront, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES at, done
vars == <<at, done>>
If(c, name) == IF c THEN {} ELSE {name}
SetOf(s) == {s[j] : j \in DOMAIN s}
Near(x, y, tol) == Abs(x - y) <= tol

State(j) ==
  [nodes |-> j.nodes, edges |-> SetOf(j.edges), trails |-> j.trails, aux |-> j.aux, al |-> j.al, av |-> j.av, tolu |-> j.tolu,
   look |-> [p \in {x.p : x \in SetOf(j.look)} |-> (CHOOSE x \in SetOf(j.look) : x.p = p).r]]
\* all but what the lookups gave
Body(S) == [S EXCEPT !.look = <<>>]
Found(S) == LookSound(S) /\ LookComplete(S)

-----------------------------------------------------------------------------
Places(c) == {c.trail[i].a : i \in DOMAIN c.trail} \cup {c.trail[i].b : i \in DOMAIN c.trail}
        \cup {c.dev[i].a : i \in DOMAIN c.dev} \cup {c.dev[i].b : i \in DOMAIN c.dev}
AuxNamed(S, T, E) ==
  /\ DOMAIN T.aux = Loose(S)
  /\ \A n \in Loose(S) : Len(T.aux[n]) = 2 /\ T.aux[n][1] = n /\ T.aux[n][2] \in DOMAIN T.nodes \ DOMAIN S.nodes
AssembleVerdict(e) ==
  LET c == e.c
      E == EmptyDiagram(State(e.blank))
      dummy == [p \in Places(c) |-> p]       \* names do not matter for whether it works
      can == CanAssemble(E, c, dummy)
  IN IF e.ok # can THEN {IF can THEN "assemble.refused" ELSE "assemble.accepted"}
     ELSE IF ~can THEN {}
     ELSE LET T == State(e.wires[Len(e.wires)])
              unique == \A p \in Places(c) : Cardinality(NodesAt(T, p)) = 1
          IN IF ~unique THEN {"assemble.nodes"}
             ELSE LET key == [p \in Places(c) |-> At(T, p)]
                      S == Unbuilt(E, c, key)
                  IN (IF ~Builds(c) THEN If(Body(T) = Body(S), "assemble.unbuilt")
                      ELSE IF ~c.aux THEN If(Body(T) = Body(BuildPlain(S)), "assemble.built")
                      ELSE IF ~AuxNamed(S, T, E) THEN {"assemble.auxiliary"}
                      ELSE LET ak == [n \in Loose(S) |-> T.aux[n][2]]
                               ap == [n \in Loose(S) |-> T.nodes[ak[n]].p]
                           IN If(Body(T) = Body(BuildAux(S, ak, ap)), "assemble.built"))
                     \cup If(Found(T), "assemble.lookup")

StepVerdict(e, prev) ==
  LET c == e.c
      before == prev.wires
      after == e.wires
      kept == Len(after) >= Len(before) /\ \A w \in 1..Len(before) : after[w] = before[w]
  IN If(kept, c.c \o ".wires") \cup
     (IF ~kept THEN {}
      ELSE IF c.c \in {"show", "solve"} THEN If(e.ok /\ Len(after) = Len(before), c.c \o ".delivers")
      ELSE LET S == State(before[c.w])
               must == Delivers(S, c)
           IN IF e.ok # must THEN {c.c \o (IF must THEN ".refused" ELSE ".accepted")}
              ELSE IF ~must THEN If(Len(after) = Len(before), c.c \o ".refused.effect")
              ELSE IF Len(after) # Len(before) + 1 THEN {c.c \o ".delivers"}
              ELSE LET T == State(after[Len(after)])
                       W == Delivered(S, c)
                   IN If(Body(T) = Body(W), c.c \o ".result") \cup If(Found(T), c.c \o ".lookup"))

-----------------------------------------------------------------------------
\* lines for loads and reactions
ArrowOK(e, n, kind, l) ==
  LET p == [i \in 1..3 |-> e.S.nodes[n].p[i] \div 10]
      x == e.F[n]
      f == IF kind = "load" THEN x.q ELSE x.r
      len == IF kind = "load" THEN x.ql ELSE x.rl
      tol == 3 * len + 3 * e.gap + 3000
      scaled == \A i \in 1..3 : Near((l.b[i] - l.a[i]) * 1000, e.scale * f[i], 3000 + 2 * e.scale)
      out == \A i \in 1..3 : Near((l.a[i] - p[i]) * len, e.gap * f[i], tol)
      in == \A i \in 1..3 : Near((l.b[i] - p[i]) * len, -e.gap * f[i], tol)
  IN scaled /\ (IF kind = "load" \/ x.strong > 0 THEN out ELSE IF x.strong < 0 THEN in ELSE out \/ in)
Arrows(e, kind, lines) ==
  LET want == {n \in (IF e.all THEN DOMAIN e.F ELSE SetOf(e.nsel)) :
                 (IF kind = "load" THEN e.F[n].ql ELSE e.F[n].rl) >= e.least}
  IN Len(lines) = Cardinality(want) /\ \A n \in want : \E j \in DOMAIN lines : ArrowOK(e, n, kind, lines[j])

\* points and lines where nodes and edges are, each once
PointsOK(e, S, layer) ==
  LET want == Drawn(S, layer, e.all, SetOf(e.nsel))
      got == e.out[layer]
  IN Len(got) = Cardinality(want) /\ SetOf(got) = {S.nodes[n].p : n \in want}
LinesOK(e, S, layer) ==
  LET want == Drawn(S, layer, e.eall, SetOf(e.esel))
      got == e.out[layer]
  IN Len(got) = Cardinality(want) /\ SetOf(got) = {<<S.nodes[x[1]].p, S.nodes[x[2]].p>> : x \in want}
DrawVerdict(e) ==
  LET S == State(e.S) IN
  UNION {If(PointsOK(e, S, l), "draw." \o l) : l \in DOMAIN e.out \cap {"nodes", "supports", "origins"}} \cup
  UNION {If(LinesOK(e, S, l), "draw." \o l) : l \in DOMAIN e.out \cap {"edges", "trailedges", "deviationedges"}} \cup
  (IF "trails" \in DOMAIN e.out
   THEN If(/\ Len(e.out.trails) = Cardinality(DOMAIN S.trails)
           /\ SetOf(e.out.trails) = {[i \in 1..Len(S.trails[o]) |-> S.nodes[S.trails[o][i]].p] : o \in DOMAIN S.trails}, "draw.trails") ELSE {}) \cup
  If(Arrows(e, "load", e.out.loads), "draw.loads") \cup
  (IF "reactions" \in DOMAIN e.out THEN If(Arrows(e, "reaction", e.out.reactions), "draw.reactions") ELSE {}) \cup
  If(e.same, "draw.unchanged")

-----------------------------------------------------------------------------
Agrees(x) ==
  IF "tol" \in DOMAIN x THEN Len(x.got) = Len(x.want) /\ \A y \in DOMAIN x.want : Near(x.got[y], x.want[y], x.tol)
  ELSE x.got = x.want
Verdict(x) ==
  LET e == Trace[x] IN
  IF e.crash # "" THEN {"crash"} ELSE
    (IF e.kind = "agree" THEN {}
     ELSE IF e.kind = "draw" THEN DrawVerdict(e)
     ELSE IF e.c.c = "assemble" THEN AssembleVerdict(e)
     ELSE StepVerdict(e, Trace[x - 1]))
    \cup {e.extra[y].name : y \in {z \in DOMAIN e.extra : ~Agrees(e.extra[z])}}

Init == at \in 1..Len(Trace) /\ done = FALSE
Next == /\ ~done /\ done' = TRUE /\ UNCHANGED at
        /\ LET v == Verdict(at) IN v = {} \/ PrintT(ToJson([at |-> at, bad |-> v]))
Spec == Init /\ [][Next]_vars
Judged == TLCGet("distinct") = 2 * Len(Trace)
=============================================================================
