-------------------------------- MODULE CapyInv --------------------------------
(* The listed properties as statements about the specification's own states:  *)
(* checked by TLC on every state it visits, independently of the definitions  *)
(* that compute the states and the facts.                                     *)
EXTENDS Capy

Dcs(s) == {x \in DOMAIN s.h : s.h[x].k = "dc"}
Gens(s) == {x \in DOMAIN s.h : s.h[x].k = "gen"}
\* the operators that would close what is still open
Closers(st) == [k \in 1..Len(st) |-> Op("", IF st[Len(st) + 1 - k] = "q" THEN "Q" ELSE IF st[Len(st) + 1 - k] = "mc" THEN "EMC" ELSE "ET")]

\* P01: a context is at every moment a prefix of a well-nested stream
NestInv(s) == \A x \in Dcs(s) : WellNested(s.h[x].ops \o Closers(s.h[x].st))

\* the text of a reference is followed by a label: collect the labels a fact refers to
RECURSIVE Upto(_, _)
Upto(v, k) == IF k > Len(v) \/ Ch(v, k) \in {" ", "]", ")"} THEN k - 1 ELSE Upto(v, k + 1)
RefsIn(v) == {SubSeq(v, k + 2, Upto(v, k + 2)) : k \in {k \in 1..(Len(v) - 2) : Ch(v, k) = "-" /\ Ch(v, k + 1) = ">"}}
RefTopics == {"form", "pat", "sm", "gs", "fn", "sh", "cs", "img", "page", "annotlist", "annot", "struct", "outline", "ocg", "ef", "oi", "nav", "pagetree"}
Known(gen) == (DOMAIN gen.obj) \cup {PageLab(k) : k \in DOMAIN gen.pages}
\* P03/P04: nothing refers to an object that is not in the document
RefInv(s) == \A x \in Gens(s) : CanWrite(s.h[x]) =>
   \A f \in Facts(s.h[x]) : f[1] \in RefTopics => RefsIn(f[3]) \subseteq Known(s.h[x])
\* P03: an operator's references are in the resources of the same stream
OpResInv(s) == \A x \in Dcs(s) : LET dc == s.h[x] IN
   \A k \in DOMAIN dc.ops : dc.ops[k].w \in {"gs", "sh", "Do", "Tf", "cs", "CS", "scn", "SCN", "BDC"} =>
      \A r \in RefsIn(dc.ops[k].t) : \E q \in dc.res : r \in RefsIn(q)
ResOpInv(s) == \A x \in Dcs(s) : LET dc == s.h[x] IN
   \A q \in dc.res : \E k \in DOMAIN dc.ops : RefsIn(q) \subseteq RefsIn(dc.ops[k].t)
\* P07: an annotation is on at most one page and knows it
AnnotInv(s) == \A x \in Gens(s) : LET gen == s.h[x] IN
   /\ \A i, j \in DOMAIN gen.pages : i # j => gen.pages[i].ann \cap gen.pages[j].ann = {}
   /\ \A a \in DOMAIN gen.useA : a \in gen.pages[gen.useA[a]].ann
   /\ \A k \in DOMAIN gen.pages : \A a \in gen.pages[k].ann : gen.useA[a] = k
\* P08: parents come before children (so the tree has no cycles); marked content is owned once
StructInv(s) == \A x \in Gens(s) : LET gen == s.h[x] IN
   /\ \A k \in 1..gen.n["si"] : LET p == gen.obj[Nth("si", k)].par IN
        p = "null" \/ (\E j \in 1..(k - 1) : p = Nth("si", j))
   /\ \A a \in DOMAIN gen.useS : gen.pages[gen.useS[a][1]].sis[gen.useS[a][2] + 1] = a
   /\ \A i, j \in DOMAIN gen.pages : i # j => Range1(gen.pages[i].sis) \cap Range1(gen.pages[j].sis) = {}
   /\ \A k \in DOMAIN gen.pages : Len(gen.pages[k].sis) = Cardinality(Range1(gen.pages[k].sis))
\* P09: sibling chains are consistent both ways and cover all children of a node
FactVal(F, key) == {f[3] : f \in {f \in F : f[2] = key}}
OutlineInv(s) == \A x \in Gens(s) : LET gen == s.h[x]  F == OutlineFacts(gen) IN
   \A k \in 1..gen.n["outl"] : LET id == Nth("outl", k) IN
      /\ Cardinality(FactVal(F, id \o "/Parent")) = 1
      /\ \A v \in FactVal(F, id \o "/Next") : \E j \in 1..gen.n["outl"] :
            v = RefTo(Nth("outl", j)) /\ FactVal(F, Nth("outl", j) \o "/Prev") = {RefTo(id)}
               /\ FactVal(F, Nth("outl", j) \o "/Parent") = FactVal(F, id \o "/Parent")
      /\ FactVal(F, id \o "/Next") = {} =>
            RefTo(id) \in FactVal(F, "root/Last") \cup UNION {FactVal(F, Nth("outl", j) \o "/Last") : j \in 1..gen.n["outl"]}
      /\ FactVal(F, id \o "/Prev") = {} =>
            RefTo(id) \in FactVal(F, "root/First") \cup UNION {FactVal(F, Nth("outl", j) \o "/First") : j \in 1..gen.n["outl"]}
\* P10: every field is reachable from the root exactly once
FieldInv(s) == \A x \in Gens(s) : LET gen == s.h[x] IN
   \A k \in 1..gen.n["ff"] : LET p == gen.obj[Nth("ff", k)].d.parent IN p = "" \/ (\E j \in 1..(k - 1) : p = Nth("ff", j))
\* a key says one thing
FunctionalInv(s) == \A x \in Gens(s) : CanWrite(s.h[x]) =>
   LET F == {f \in Facts(s.h[x]) : f[1] \notin {"res", "annotlist"}} IN
   Cardinality(F) = Cardinality({<<f[1], f[2]>> : f \in F})
\* identifiers are dense per family
DenseInv(s) == \A x \in Gens(s) : \A k \in Kinds :
   {i \in DOMAIN s.h[x].obj : s.h[x].obj[i].fam = k} = {Nth(k, j) : j \in 1..s.h[x].n[k]}

AllInv(s) == NestInv(s) /\ RefInv(s) /\ OpResInv(s) /\ ResOpInv(s) /\ AnnotInv(s) /\ StructInv(s) /\ OutlineInv(s) /\ FieldInv(s)
             /\ FunctionalInv(s) /\ DenseInv(s)
================================================================================
