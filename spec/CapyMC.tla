-------------------------------- MODULE CapyMC ---------------------------------
(* Exhaustive exploration: every sequence over a finite alphabet of concrete  *)
(* calls, up to a depth, modulo equality of the specification's states.  The  *)
(* invariants are checked in every state; for every transition explored, one  *)
(* history that ends with it (and then closes and writes everything) is       *)
(* emitted for replay on the real library.                                    *)
EXTENDS CapyRun

VARIABLES s, hist, d, own
vars == <<s, hist, d, own>>

\* ids that do not exist (yet) are passed as numbers no object has
FixId(gen, x) == IF x = "null" \/ x \in DOMAIN gen.obj THEN x ELSE
                 IF Ch(x, Len(x)) \in {"9"} THEN x ELSE Join(<<SubSeq(x, 1, FindCh(x, ":", 1) - 1), "#9999">>, ":")
Resolve(t, c, g) ==
  IF g = "" \/ g \notin DOMAIN t.h THEN c ELSE
  [c EXCEPT !.i = [k \in DOMAIN @ |-> FixId(t.h[g], @[k])],
            !.ia = [k \in DOMAIN @ |-> [j \in DOMAIN @[k] |-> FixId(t.h[g], @[k][j])]]]

\* a call makes sense when the handles it names exist with a usable kind
Usable(t, c) == /\ c.o = "" \/ (c.o \in DOMAIN t.h /\ t.h[c.o].k # "gone")
                /\ \A k \in DOMAIN c.h : c.h[k] = "null" \/ (c.h[k] \in DOMAIN t.h /\ t.h[c.h[k]].k # "gone")
                /\ \A k \in DOMAIN c.hh : \A j \in DOMAIN c.hh[k] : c.hh[k][j] \in DOMAIN t.h
                /\ c.out = "" \/ c.out \notin DOMAIN t.h
                /\ Documented(t, c)

Rec(t, h, w, c0, g0) ==         \* one more event
  LET gg == IF c0.o \in DOMAIN t.h THEN GenOf(t, c0, w) ELSE g0
      c == Resolve(t, c0, IF gg = "" THEN g0 ELSE gg)
      r == Step(t, c)
      g == LET x == GenOf(t, c, w) IN IF x = "" THEN g0 ELSE x IN
  [s |-> r.s, h |-> Append(h, Event(t, c, g, r)), w |-> IF c.out = "" THEN w ELSE Upd(w, c.out, g)]
RECURSIVE RecAll(_, _, _)
RecAll(st, cs, k) == IF k > Len(cs) THEN st ELSE RecAll(Rec(st.s, st.h, st.w, cs[k], "g"), cs, k + 1)
RECURSIVE RecTail(_, _)
RecTail(st, k) == IF k > Len(Prof.mc.tail) THEN st ELSE
                  RecTail(IF Usable(st.s, Prof.mc.tail[k]) THEN Rec(st.s, st.h, st.w, Prof.mc.tail[k], "g") ELSE st, k + 1)
RECURSIVE Finish(_, _, _)
Finish(st, tried, fuel) ==
  LET w == FinCall(st.s, tried) IN
  IF w.c.f = "" \/ fuel = 0 THEN st.h
  ELSE Finish(Rec(st.s, st.h, st.w, w.c, ""), IF w.x = "" THEN tried ELSE tried \cup {w.x}, fuel - 1)

Start == RecAll([s |-> S0, h |-> <<>>, w |-> [x \in {} |-> ""]], Prof.prelude, 1)

Init == LET st == Start IN s = st.s /\ hist = st.h /\ own = st.w /\ d = 0

Go(k) ==
  LET c == Prof.mc.calls[k] IN
  /\ Usable(s, c)
  /\ LET st == Rec(s, hist, own, c, "g") IN
     /\ s' = st.s /\ hist' = st.h /\ own' = st.w /\ d' = d + 1
     /\ Emit(Finish(RecTail(st, 1), {}, 60))

\* mc.tail: calls to end every history with (that make use of what was built); mc.part: the
\* share [n, m] of this run, of m runs that divide the first calls among them
First == {k \in DOMAIN Prof.mc.calls : d > 0 \/ k % Prof.mc.part[2] = Prof.mc.part[1]}
Next == d < Prof.mc.depth /\ \E k \in First : Go(k)
Spec == Init /\ [][Next]_vars

\* States are compared without the history.  In the abstract view a context's operators count
\* only by what later calls can depend on.
AbsH(x) == IF x.k = "dc" THEN [x EXCEPT !.ops = IF @ = <<>> THEN <<>> ELSE <<"some">>]
          ELSE IF x.k = "gen" THEN [x EXCEPT !.fx = {}] ELSE x
View == IF Prof.mc.view = "abs" THEN <<[x \in DOMAIN s.h |-> AbsH(s.h[x])], d>> ELSE <<s, d>>
Inv == AllInv(s) /\ IsolationInv(s, hist)
================================================================================
