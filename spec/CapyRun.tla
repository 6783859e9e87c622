-------------------------------- MODULE CapyRun --------------------------------
(* Histories: what was called and what the specification says must come back. *)
(* Shared by the random generator (CapyGen) and the exhaustive one (CapyMC).  *)
EXTENDS CapyInv, Json, IOUtils

Env == JsonDeserialize(IOEnv.CAPY_ENV)
Prof == JsonDeserialize(IOEnv.CAPY_PROFILE)
EnvFonts == [x \in DOMAIN Env.fonts |-> [Env.fonts[x] EXCEPT !.cps = Range1(@), !.axes = Range1(@)]]
EnvIcc == Env.icc
EnvImages == Env.images
EnvFiles == Range1(Env.files)
EnvScrape == "scrape" \in DOMAIN Prof

\* one history event: the call, its document, and the expected outcome
TopicSet == Range1(Prof.topics)
Want(s, c, r) == IF c.f = "generator_write" /\ r.rc = 0
                 THEN SetToSeq({f \in Facts(s.h[c.o]) : f[1] \in TopicSet}) ELSE <<>>
Event(s, c, g, r) == [c |-> c, g |-> g, rc |-> r.rc, id |-> r.id, val |-> r.val, xf |-> Want(s, c, r)]

\* the document a call concerns
GenOf(s, c, own) ==
  IF c.o = "" \/ c.o \notin DOMAIN s.h THEN (IF c.out \in DOMAIN own THEN own[c.out] ELSE "") ELSE
  IF s.h[c.o].k = "gen" THEN c.o ELSE IF s.h[c.o].k = "dc" THEN s.h[c.o].g ELSE
  IF s.h[c.o].k = "text" THEN (IF s.h[c.o].dc \in DOMAIN s.h THEN s.h[s.h[c.o].dc].g ELSE "")
  ELSE IF c.o \in DOMAIN own THEN own[c.o] ELSE ""

\* Closing calls: end what is open, commit the contexts, write the documents.
Keep(s, x) == s.h[x].k = "dc" /\ (s.h[x].ops # <<>> \/ s.h[x].ann # {} \/ s.h[x].pp # <<>> \/ s.h[x].trans # <<>> \/ s.h[x].vps # <<>>
                                  \/ s.h[x].navs # <<>> \/ s.h[x].gm # <<>> \/ s.h[x].tgp # <<>>)
AddFn == ("page" :> "generator_add_page") @@ ("form" :> "generator_add_form_xobject")
         @@ ("tg" :> "generator_add_transparency_group") @@ ("tiling" :> "generator_add_tiling_pattern")
\* tried: contexts whose commit has been attempted, documents already written
FinCall(s, tried) ==
  LET open == {x \in DOMAIN s.h : Keep(s, x) /\ x \notin tried}
      gens == {x \in DOMAIN s.h : s.h[x].k = "gen" /\ x \notin tried} IN
  IF open # {} THEN LET x == CHOOSE x \in open : TRUE  dc == s.h[x]  t == Top(dc.st) IN
       [x |-> IF t = "" THEN x ELSE "",
        c |-> IF t = "mc" THEN CN("dc_cmd_EMC", x, <<>>) ELSE IF t = "q" THEN CN("dc_cmd_Q", x, <<>>)
              ELSE CH(AddFn[dc.typ], dc.g, <<x>>)]
  ELSE IF gens # {} THEN LET x == CHOOSE x \in gens : TRUE  o == "fin" \o x IN
       IF s.h[x].pages # <<>> \/ o \in tried THEN [x |-> x, c |-> CN("generator_write", x, <<>>)]
       ELSE IF o \in DOMAIN s.h THEN [x |-> o, c |-> CH("generator_add_page", x, <<o>>)]
       ELSE [x |-> "", c |-> CO("page_draw_context_new", x, o)]
  ELSE [x |-> "", c |-> EmptyCall]

\* P23: a document depends on the calls about it alone (and those on objects that are not part of
\* any document).  Alone(h, g): the state after only these; others' calls, and refused calls that
\* name others' objects, are left out.
Mentions(c) == (IF c.o = "" THEN {} ELSE {c.o}) \cup Range1(c.h) \cup UNION {Range1(c.hh[k]) : k \in DOMAIN c.hh}
Concerns(e, g, sh) == IF e.c.f = "generator_new" THEN e.c.out = g ELSE \/ e.g \in {g, ""} \/ (e.c.i = <<>> /\ e.c.ia = <<>> /\ (e.c.o = "" \/ e.c.o \in sh))
Alone(h, g) == FoldLeft(LAMBDA w, e :
   IF Concerns(e, g, w.sh) /\ Mentions(e.c) \subseteq (DOMAIN w.t.h) \cup {"null"}
   THEN [t |-> Step(w.t, e.c).s, sh |-> IF e.c.o = "" /\ e.c.f # "generator_new" THEN w.sh \cup {e.c.out} ELSE w.sh] ELSE w, [t |-> S0, sh |-> {}], h).t
IsolationInv(s, hist) == "iso" \in DOMAIN Prof => \A x \in Gens(s) : LET t == Alone(hist, x) IN x \in DOMAIN t.h /\ t.h[x] = s.h[x]

Emit(hist) == PrintT("@@" \o ToJson(hist))
================================================================================
