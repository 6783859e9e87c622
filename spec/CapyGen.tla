-------------------------------- MODULE CapyGen --------------------------------
(* Random histories of the specification.  Run by TLC in simulation mode: a   *)
(* profile gives the opening calls, the alphabet with its weights and the     *)
(* argument pools; the specification gives every expected outcome.            *)
EXTENDS CapyRun

VARIABLES s, hist, ph, left, nh, own, born, tried
vars == <<s, hist, ph, left, nh, own, born, tried>>

Pick(q) == q[RandomElement(1..Len(q))]          \* q: a sequence
PickS(S) == RandomElement(S)
Chance(p) == RandomElement(1..100) <= p
Sig == Prof.sig
Pools == Prof.pools

\* handles of a kind ("dc" may be narrowed to "dc:page"), for document g
KindOk(x, kind) == IF IsPre("dc:", kind) THEN s.h[x].k = "dc" /\ s.h[x].typ = SubSeq(kind, 4, Len(kind)) ELSE s.h[x].k = kind
HGen(x) == IF s.h[x].k = "gen" THEN x ELSE IF s.h[x].k = "dc" THEN s.h[x].g
           ELSE IF s.h[x].k = "text" THEN (IF s.h[x].dc \in DOMAIN s.h THEN s.h[s.h[x].dc].g ELSE "?")
           ELSE IF x \in DOMAIN own THEN own[x] ELSE ""
Handles(kind, g) == {x \in DOMAIN s.h : KindOk(x, kind) /\ (g = "" \/ HGen(x) \in {"", g})}
\* mostly the newest one
PickH(S) == IF Chance(65) THEN (CHOOSE x \in S : \A y \in S : born[x] >= born[y]) ELSE PickS(S)
AnyGen == {x \in DOMAIN s.h : s.h[x].k = "gen"}

NoCall == "none"
\* argument choices.  w: working record [c, ok, need]
ChooseId(kind, g) ==
  LET ids == IF g = "" \/ g \notin DOMAIN s.h THEN {} ELSE {x \in DOMAIN s.h[g].obj : s.h[g].obj[x].kind = kind}
      fam == IF kind \in {"form", "tg"} THEN "xf" ELSE kind IN
  IF ids = {} \/ Chance(Prof.badid) THEN kind \o Pick(<<":#-1", ":#9999", ":#9999", ":#70000">>)
  ELSE PickS(ids)
RECURSIVE RandSeq(_, _)
RandSeq(n, pool) == IF n <= 0 THEN <<>> ELSE <<Pick(pool)>> \o RandSeq(n - 1, pool)
RECURSIVE RandIds(_, _, _)
RandIds(n, kind, g) == IF n <= 0 THEN <<>> ELSE <<ChooseId(kind, g)>> \o RandIds(n - 1, kind, g)
RECURSIVE RandHs(_, _)
RandHs(n, S) == IF n <= 0 THEN <<>> ELSE <<PickH(S)>> \o RandHs(n - 1, S)

\* Add argument a to call c (for document g); need names a missing kind of handle
Arg(w, a, g) ==
  LET c == w.c IN
  CASE a.t = "n"  -> [w EXCEPT !.c.n = Append(@, Pick(Pools[a.p]))]
    [] a.t = "gt" -> LET e == CHOOSE x \in {Pick(Pools[a.p])} : TRUE IN
                     [w EXCEPT !.c.n = @ \o e.n, !.c.s = @ \o e.s, !.c.z = @ \o [k \in DOMAIN e.s |-> -1]]
    [] a.t = "nt" -> [w EXCEPT !.c.n = @ \o Pick(Pools[a.p])]
    [] a.t = "on" -> [w EXCEPT !.c.n = Append(@, IF Chance(30) THEN NULLI ELSE Pick(Pools[a.p]))]
    [] a.t = "s"  -> LET x == CHOOSE x \in {<<Pick(Pools[a.p]), Pick(Pools["z"])>>} : TRUE IN      \* never a size beyond the text
                     [w EXCEPT !.c.s = Append(@, x[1]), !.c.z = Append(@, IF x[1] # "null" /\ x[2] > Len(Bytes(x[1])) THEN -1 ELSE x[2])]
    [] a.t = "s0" -> [w EXCEPT !.c.s = Append(@, Pick(Pools[a.p]))]
    [] a.t = "d"  -> [w EXCEPT !.c.d = Append(@, RandSeq(RandomElement(a.lo..a.hi), Pools[a.p]))]
    [] a.t = "i"  -> [w EXCEPT !.c.i = Append(@, ChooseId(a.p, g))]
    [] a.t = "in" -> [w EXCEPT !.c.i = Append(@, IF Chance(35) THEN "null" ELSE ChooseId(a.p, g))]
    [] a.t = "ia" -> [w EXCEPT !.c.ia = Append(@, RandIds(RandomElement(a.lo..a.hi), a.p, g))]
    [] a.t = "hn" -> LET S == Handles(a.p, g) IN
                     [w EXCEPT !.c.h = Append(@, IF S = {} \/ Chance(50) THEN "null" ELSE PickH(S))]
    [] a.t = "null" -> [w EXCEPT !.c.h = Append(@, "null")]
    [] a.t = "h"  -> LET S == IF Chance(Prof.badh) /\ IsPre("dc:", a.p) THEN Handles("dc", "") ELSE Handles(a.p, g) IN
                     IF S = {} THEN [w EXCEPT !.need = a.p] ELSE [w EXCEPT !.c.h = Append(@, PickH(S))]
    [] a.t = "hh" -> LET S == Handles(a.p, g) IN
                     IF S = {} THEN [w EXCEPT !.need = a.p] ELSE [w EXCEPT !.c.hh = Append(@, RandHs(a.lo, S))]
RECURSIVE Args(_, _, _, _)
Args(w, as, k, g) == IF k > Len(as) \/ w.need # "" THEN w ELSE
   LET w2 == CHOOSE x \in {Arg(w, as[k], g)} : TRUE IN Args(w2, as, k + 1, g)

\* a call of function f for document g0; need # "" when some handle has to be made first
MkCall(f, g0) ==
  LET sg == Sig[f]
      S == IF sg.self = "" THEN {} ELSE Handles(sg.self, IF Chance(80) THEN g0 ELSE "") IN
  IF sg.self # "" /\ S = {} THEN [c |-> EmptyCall, need |-> sg.self, g |-> g0] ELSE
  LET w0 == [C(f, IF sg.self = "" THEN "" ELSE PickH(S)) EXCEPT !.out = IF sg.out = "" THEN "" ELSE sg.out \o ToString(nh)]
      hg == IF w0.o = "" THEN "" ELSE HGen(w0.o)
      g == IF hg = "" THEN g0 ELSE hg
      w == Args([c |-> w0, need |-> ""], sg.args, 1, g) IN
  [c |-> w.c, need |-> w.need, g |-> g]

RECURSIVE Attempt(_, _, _)
Attempt(f, g0, depth) ==
  LET w == MkCall(f, g0) IN
  IF w.need = "" \/ depth = 0 THEN w
  ELSE IF w.need \in DOMAIN Prof.make THEN Attempt(Pick(Prof.make[w.need]), g0, depth - 1) ELSE w
\* Mostly prefer calls the specification accepts (and texts that can still be rendered), so
\* that histories get somewhere; refused calls keep the share 100 - Prof.bias leaves them.
TextAlive(t, o) ==
  LET x == t.h[o] IN
  x.dc \notin DOMAIN t.h \/
  FoldText(t.h[t.h[x.dc].g], [t.h[x.dc] EXCEPT !.st = Append(@, "text")], NoFont, x.ev, 1).ok
Promising(c) ==
  LET r == Step(s, c) IN
  r.rc = 0 /\ (c.o \in DOMAIN r.s.h /\ r.s.h[c.o].k = "text" => TextAlive(r.s, c.o))
RECURSIVE RandCall(_, _)
RandCall(tries, bias) ==
  LET w == CHOOSE x \in {Attempt(Pick(Prof.fns), IF AnyGen = {} THEN "" ELSE PickS(AnyGen), 4)} : TRUE IN
  IF tries = 0 THEN (IF w.need = "" /\ ~Documented(s, w.c) THEN [w EXCEPT !.need = NoCall] ELSE w)
  ELSE IF w.need # "" THEN RandCall(tries - 1, bias)
  ELSE IF ~Documented(s, w.c) THEN RandCall(tries - 1, bias)
  ELSE IF bias /\ ~Promising(w.c) THEN RandCall(tries - 1, bias) ELSE w

Do(c, g0) ==
  LET r == Step(s, c)
      g1 == GenOf(s, c, own)
      g == IF g1 = "" THEN g0 ELSE g1 IN
  /\ s' = r.s
  /\ hist' = Append(hist, Event(s, c, g, r))
  /\ nh' = nh + 1
  /\ own' = IF c.out = "" THEN own ELSE Upd(own, c.out, g)
  /\ born' = IF c.out = "" THEN born ELSE Upd(born, c.out, nh)

Init == /\ s = S0 /\ hist = <<>> /\ ph = "pre" /\ left = 1 /\ nh = 1 /\ tried = {}
        /\ own = [x \in {} |-> ""] /\ born = [x \in {} |-> 0]

Pre == /\ ph = "pre"
       /\ IF left > Len(Prof.prelude)
          THEN /\ ph' = "rand" /\ left' = RandomElement((Prof.len \div 2)..Prof.len) /\ UNCHANGED <<s, hist, nh, own, born, tried>>
          ELSE /\ Do(Prof.prelude[left], "") /\ left' = left + 1 /\ UNCHANGED <<ph, tried>>

Rand == /\ ph = "rand"
        /\ IF left <= 0 THEN ph' = "fin" /\ UNCHANGED <<s, hist, left, nh, own, born, tried>>
           ELSE \E w \in {RandCall(6, Chance(Prof.bias))} :
             /\ IF w.need # "" THEN UNCHANGED <<s, hist, nh, own, born>> ELSE Do(w.c, w.g)
             /\ left' = left - 1 /\ UNCHANGED <<ph, tried>>

Fin == /\ ph = "fin"
       /\ LET w == FinCall(s, tried) IN
          IF w.c.f = "" THEN ph' = "done" /\ Assert(AllInv(s) /\ IsolationInv(s, hist), "specification invariant broken") /\ Emit(hist)
                             /\ UNCHANGED <<s, hist, left, nh, own, born, tried>>
          ELSE Do(w.c, "") /\ tried' = (IF w.x = "" THEN tried ELSE tried \cup {w.x}) /\ UNCHANGED <<ph, left>>

Next == Pre \/ Rand \/ Fin
Spec == Init /\ [][Next]_vars
================================================================================
