------------------------------ MODULE CapyView -------------------------------
(* What a document's file must say: the facts an independent reader finds.    *)
EXTENDS CapyDoc

Ids(gen, fam) == {fam \o ":" \o ToString(k) : k \in 1..gen.n[fam]}
IdNum(gen, fam, id) == CHOOSE k \in 1..gen.n[fam] : id = fam \o ":" \o ToString(k)
Nth(fam, k) == fam \o ":" \o ToString(k)
SeqOfIds(gen, fam, P(_)) == SelectSeq([k \in 1..gen.n[fam] |-> Nth(fam, k)], P)
PageLab(k) == "page:" \o ToString(k)
RefList(q) == "[" \o Join([k \in DOMAIN q |-> RefTo(q[k])], " ") \o "]"

\* a destination can only be written when its page exists
DestOk(gen, d) == d = <<>> \/ d[1].page < Len(gen.pages)
DestKv(d) == IF d = <<>> THEN {} ELSE {<<"Dest", "[" \o RefTo(PageLab(d[1].page + 1)) \o " " \o d[1].loc \o "]">>}

BoxKv(gen, pg) ==
  LET own == IF pg.pp = <<>> THEN NoM ELSE pg.pp  m == own @@ gen.p.pp IN
  {<<b, IF m[b] = "?A4" THEN "A4" ELSE m[b]>> : b \in DOMAIN m}

TransKv(m) == MKv(m)
PageTgp(gen, pg) == IF pg.tgp # <<>> THEN pg.tgp ELSE gen.p.ptg
NfFacts(p, q) == UNION {{<<p \o "/" \o ToString(k - 1) \o "/U", q[k].U>>, <<p \o "/" \o ToString(k - 1) \o "/C", q[k].C>>,
                         <<p \o "/" \o ToString(k - 1) \o "/Type", "/NumberFormat">>} : k \in DOMAIN q}
NfArr(q) == "[" \o Join([k \in DOMAIN q |-> "<<>>"], " ") \o "]"
VpKv(v) ==
  {<<"Type", "/Viewport">>, <<"BBox", Arr(v.bb)>>}
  \cup (IF v.ms = <<>> THEN {} ELSE LET m == v.ms[1] IN
        {<<"Measure", "<<>>">>, <<"Measure/R", "()">>, <<"Measure/X", NfArr(m.X)>>, <<"Measure/D", NfArr(m.D)>>, <<"Measure/A", NfArr(m.A)>>}
        \cup (IF m.Y = <<>> THEN {} ELSE {<<"Measure/Y", NfArr(m.Y)>>})
        \cup NfFacts("Measure/X", m.X) \cup NfFacts("Measure/Y", m.Y) \cup NfFacts("Measure/D", m.D) \cup NfFacts("Measure/A", m.A))

\* sub-page navigation: the root step, one node per layer, and the end node
State(l, on, ids) == {<<l \o "/S", "/SetOCGState">>, <<l \o "/State", "[/" \o on \o " " \o Join([k \in DOMAIN ids |-> RefTo(ids[k])], " ") \o "]">>}
NavFacts(lab, pg) ==
  IF pg.navs = <<>> THEN {} ELSE
  LET n == Len(pg.navs)
      nl(k) == lab \o "/nav/" \o ToString(k)
      trk(k) == IF pg.navtr = <<>> THEN {} ELSE
                {<<nl(k) \o "/NA/Next", "<<>>">>, <<nl(k) \o "/NA/Next/S", "/Trans">>, <<nl(k) \o "/NA/Next/Trans", "<<>>">>}
                \cup {<<nl(k) \o "/NA/Next/Trans/" \o x[1], x[2]>> : x \in MKv(pg.navtr[1])}
      kv(k) ==
        IF k = 0 THEN State(nl(0) \o "/NA", "OFF", pg.navs) \cup State(nl(0) \o "/PA", "ON", pg.navs)
             \cup {<<nl(0) \o "/Next", "nav/1">>, <<nl(0) \o "/Prev", "nav/" \o ToString(n + 1)>>,
                   <<nl(0) \o "/NA", "<<>>">>, <<nl(0) \o "/PA", "<<>>">>}
        ELSE IF k = n + 1 THEN State(nl(k) \o "/PA", "OFF", <<pg.navs[n]>>) \cup {<<nl(k) \o "/Prev", "nav/" \o ToString(n)>>, <<nl(k) \o "/PA", "<<>>">>}
        ELSE State(nl(k) \o "/NA", "ON", <<pg.navs[k]>>) \cup {<<nl(k) \o "/Next", "nav/" \o ToString(k + 1)>>, <<nl(k) \o "/NA", "<<>>">>} \cup trk(k)
             \cup (IF k = 1 THEN {} ELSE State(nl(k) \o "/PA", "OFF", <<pg.navs[k - 1]>>)
                   \cup {<<nl(k) \o "/Prev", "nav/" \o ToString(k - 1)>>, <<nl(k) \o "/PA", "<<>>">>}) IN
  {<<"nav", f[1], f[2]>> : f \in UNION {kv(k) : k \in 0..(n + 1)}}

PageFacts(gen, k) ==
  LET pg == gen.pages[k] lab == PageLab(k) IN
  At(lab, BoxKv(gen, pg) \cup TgpKv(PageTgp(gen, pg)), "page")
  \cup {<<"pagetree", ToString(k), RefTo(lab)>>}
  \cup {<<"annotlist", lab, RefTo(a)>> : a \in pg.ann}
  \cup {<<"struct", lab \o "/mcid/" \o ToString(j - 1), RefTo(pg.sis[j])>> : j \in DOMAIN pg.sis}
  \cup (IF pg.trans = <<>> THEN {} ELSE At(lab \o "/Trans", TransKv(pg.trans[1]), "trans") \cup {<<"trans", lab \o "/Trans", "<<>>">>})
  \cup NavFacts(lab, pg)
  \cup UNION {At(lab \o "/VP/" \o ToString(j - 1), VpKv(pg.vps[j]), "vp") : j \in DOMAIN pg.vps}
  \cup (IF pg.vps = <<>> THEN {} ELSE {<<"vp", lab \o "/VP", NfArr(pg.vps)>>})

---------------------------------------------------------------------------
AnnotFacts(gen, id) ==
  LET a == gen.obj[id].a
      m == IF a.t = "Widget" /\ a.parent = "" THEN NoM ELSE a.m IN
  At(id, MKv(m) \cup {<<"Subtype", PName(a.t)>>, <<"Rect", Arr(a.rect)>>, <<"F", ToString(a.fl)>>}
         \cup DestKv(a.dest)
         \cup (IF id \in DOMAIN gen.useA THEN {<<"P", RefTo(PageLab(gen.useA[id]))>>} ELSE {})
         \cup (IF a.parent = "" THEN {} ELSE {<<"Parent", RefTo(a.parent)>>}), "annot")

StructFacts(gen, id) ==
  LET x == gen.obj[id]
      kids == SeqOfIds(gen, "si", LAMBDA j : gen.obj[j].par = id) IN
  At(id, {<<"S", PName(x.s)>>, <<"P", IF x.par = "null" THEN "root" ELSE RefTo(x.par)>>, <<"kids", RefList(kids)>>}
         \cup MKv(x.x)
         \cup (IF id \in DOMAIN gen.useS
               THEN {<<"content", RefTo(PageLab(gen.useS[id][1])) \o " " \o ToString(gen.useS[id][2])>>} ELSE {}), "struct")
StructTree(gen) ==
  IF gen.n["si"] = 0 THEN {} ELSE
  {<<"struct", "root/kids", RefList(SeqOfIds(gen, "si", LAMBDA j : gen.obj[j].par = "null"))>>}
  \cup {<<"struct", "role/" \o gen.roles[k][1], PName(gen.roles[k][2])>> : k \in DOMAIN gen.roles}
  \cup UNION {StructFacts(gen, id) : id \in Ids(gen, "si")}

OutlineFacts(gen) ==
  IF gen.n["outl"] = 0 THEN {} ELSE
  LET kidsof(p) == SeqOfIds(gen, "outl", LAMBDA j : gen.obj[j].d.parent = p)
      one(id) ==
        LET d == gen.obj[id].d  sib == kidsof(d.parent)  k == CHOOSE k \in DOMAIN sib : sib[k] = id  kids == kidsof(id) IN
        At(id, {<<"Title", PStr(d.title)>>, <<"Parent", IF d.parent = "" THEN "root" ELSE RefTo(d.parent)>>}
           \cup DestKv(d.dest)
           \cup (IF k > 1 THEN {<<"Prev", RefTo(sib[k - 1])>>} ELSE {})
           \cup (IF k < Len(sib) THEN {<<"Next", RefTo(sib[k + 1])>>} ELSE {})
           \cup (IF kids = <<>> THEN {} ELSE {<<"First", RefTo(kids[1])>>, <<"Last", RefTo(kids[Len(kids)])>>, <<"Count", ToString(-Len(kids))>>})
           \cup (IF d.fl = 0 THEN {} ELSE {<<"F", ToString(d.fl)>>})
           \cup (IF d.c = <<>> THEN {} ELSE {<<"C", Arr(d.c)>>}), "outline")
      top == kidsof("") IN
  {<<"outline", "root/First", RefTo(top[1])>>, <<"outline", "root/Last", RefTo(top[Len(top)])>>,
   <<"outline", "root/Count", ToString(Len(top))>>}
  \cup UNION {one(id) : id \in Ids(gen, "outl")}

FieldValueOk(gen, id) ==
  LET d == gen.obj[id].d IN d.v = "" \/ d.vraw = <<>> \/ d.t = 2
    \/ (IF d.t = 0 THEN Len(d.vraw) >= 2 /\ (\A k \in DOMAIN d.vraw : d.vraw[k] # 0)
        ELSE LET u == Utf8Dec(d.vraw, 1, <<>>) IN u.ok /\ \A k \in DOMAIN u.cps : u.cps[k] # 0)
FieldFacts(gen, id) ==
  LET d == gen.obj[id].d
      kids == SeqOfIds(gen, "ff", LAMBDA j : gen.obj[j].d.parent = id)
      wid == SeqOfIds(gen, "annot", LAMBDA j : gen.obj[j].a.parent = id) IN
  At(id, MKv(d.m)
     \cup (IF d.parent = "" THEN {} ELSE {<<"Parent", RefTo(d.parent)>>})
     \cup (IF kids = <<>> /\ wid = <<>> THEN {} ELSE {<<"Kids", RefList(kids \o wid)>>})
     \cup (IF d.t = 2 THEN {<<"Opt", "[" \o Join([k \in DOMAIN d.opt |-> PStr(d.opt[k])], " ") \o "]">>} ELSE {})
     \cup (IF d.v = "" \/ d.vraw = <<>> \/ d.t = 2 THEN {} ELSE
           {<<"V", IF d.t = 0 THEN PName(CanonBytes(IF d.vraw[1] = 47 THEN Tail(d.vraw) ELSE d.vraw))
                   ELSE PStr(CanonText(Utf8Dec(d.vraw, 1, <<>>).cps))>>}), "ff")
FormFacts(gen) ==
  IF gen.n["ff"] = 0 THEN {} ELSE
  {<<"ff", "root/Fields", RefList(SeqOfIds(gen, "ff", LAMBDA j : gen.obj[j].d.parent = ""))>>,
   <<"ff", "root/NeedAppearances", "true">>}
  \cup UNION {FieldFacts(gen, id) : id \in Ids(gen, "ff")}

---------------------------------------------------------------------------
AFLevel(p) == p.sub # <<>> /\ p.sub[1] = "A" /\ p.sub[2] >= 8
LabelStyles == <<"/D", "/R", "/r", "/A", "/a">>
CatFacts(gen) ==
  LET p == gen.p
      kv(t, k, v) == {<<t, k, v>>}
      efs == [k \in 1..gen.n["ef"] |-> Nth("ef", k)] IN
  (IF gen.labels = <<>> THEN {} ELSE
     UNION {LET l == gen.labels[k] key == "PageLabels/" \o UStr(l.p) IN
        {<<"labels", key, ToString(k)>>}
        \cup (IF l.s = NULLI THEN {} ELSE {<<"labels", key \o "/S", LabelStyles[l.s + 1]>>})
        \cup (IF l.pre.none THEN {} ELSE {<<"labels", key \o "/P", PStr(l.pre.t)>>})
        \cup (IF l.st = NULLI THEN {} ELSE {<<"labels", key \o "/St", UStr(l.st)>>}) : k \in DOMAIN gen.labels})
  \cup (IF p.layout = "" THEN {} ELSE kv("cat", "PageLayout", PName(p.layout)))
  \cup (IF p.mode = "" THEN {} ELSE kv("cat", "PageMode", PName(p.mode)))
  \cup (IF p.lang = "" THEN {} ELSE kv("cat", "Lang", PStr(p.lang)))
  \cup (IF p.tagged = 1 THEN kv("cat", "MarkInfo", "<<>>") \cup kv("cat", "MarkInfo/Marked", "true") ELSE {})
  \cup (IF gen.n["ocg"] = 0 THEN {} ELSE
        kv("ocg", "OCGs", RefList([k \in 1..gen.n["ocg"] |-> Nth("ocg", k)])) \cup kv("ocg", "D/BaseState", "/ON"))
  \cup (IF gen.n["ef"] = 0 /\ ~AFLevel(p) THEN {} ELSE
        kv("ef", "AF", ToString(gen.n["ef"])) \cup kv("ef", "Names", ToString(gen.n["ef"]))
        \cup UNION {LET e == gen.obj[efs[k]] IN
             {<<"ef", "Names/" \o e.name, RefTo(efs[k])>>,
              <<"ef", "AF/" \o ToString(k) \o "/F", PStr(e.name)>>, <<"ef", "AF/" \o ToString(k) \o "/UF", PStr(e.name)>>,
              <<"ef", "AF/" \o ToString(k) \o "/file", RefTo(efs[k])>>,
              <<"ef", "AF/" \o ToString(k) \o "/AFRelationship", "/Data">>} : k \in DOMAIN efs})
  \cup (IF gen.coll = <<>> THEN {} ELSE At("coll", MKv(gen.coll[1]), "coll"))
  \cup (IF p.sub = <<>> THEN {} ELSE
        {<<"oi", "S", IF p.sub[1] = "X" THEN "/GTS_PDFX" ELSE "/GTS_PDFA1">>, <<"oi", "Type", "/OutputIntent">>,
         <<"oi", "OutputConditionIdentifier", PStr(p.oi)>>, <<"oi", "DestOutputProfile", "->icc:1">>})

Version(p) == IF p.sub = <<>> THEN "2.0" ELSE IF p.sub[1] = "X" THEN XVersion[p.sub[2] + 1]
              ELSE "2.0"
InfoFacts(gen) ==
  LET p == gen.p
      t(k) == IF k \in DOMAIN p.m THEN {<<"info", k, p.m[k]>>} ELSE {} IN
  IF AFLevel(p) THEN {} ELSE
  t("Title") \cup t("Author") \cup t("Creator") \cup {<<"info", "Producer", "producer">>, <<"info", "CreationDate", "now">>,
                                                       <<"info", "ModDate", "now">>}
  \cup (IF p.sub # <<>> /\ p.sub[1] = "X"
        THEN {<<"info", "GTS_PDFXVersion", PStr(XNames[p.sub[2] + 1])>>, <<"info", "Trapped", "/False">>} ELSE {})
MetaFacts(gen) ==
  LET p == gen.p IN
  IF p.xml # "" THEN {<<"meta", "xml", PStr(p.xml)>>}
  ELSE IF p.sub # <<>> /\ p.sub[1] = "A" THEN
     {<<"meta", "part", APart[p.sub[2] + 1]>>, <<"meta", "producer", "producer">>}
     \cup (IF p.sub[2] = 8 THEN {<<"meta", "rev", "2020">>} ELSE {<<"meta", "conformance", AConf[p.sub[2] + 1]>>})
     \cup (IF "Creator" \in DOMAIN p.m THEN {<<"meta", "creator", p.m["Creator"]>>} ELSE {})
  ELSE {}

\* A font is a composite font addressed by two byte codes; its descriptor describes the face it was made from.
FontFacts(gen, id) ==
  LET f == FontTable[gen.obj[id].font] IN
  At(id, {<<"Encoding", "/Identity-H">>, <<"BaseFont", f.base>>, <<"Subtype", f.kind>>, <<"FontBBox", f.bbox>>,
          <<"CIDSystemInfo", "Adobe-Identity-0">>}, "font")
CanWrite(gen) == /\ \A id \in Ids(gen, "annot") : DestOk(gen, gen.obj[id].a.dest)
                 /\ \A id \in Ids(gen, "outl") : DestOk(gen, gen.obj[id].d.dest)
                 /\ \A id \in Ids(gen, "ff") : FieldValueOk(gen, id)
                 /\ \A id \in Ids(gen, "annot") : gen.obj[id].a.t = "3D" => gen.obj[id].a.refs # {}
Facts(gen) ==
  gen.fx \cup UNION {PageFacts(gen, k) : k \in DOMAIN gen.pages}
  \cup {<<"pagetree", "Count", ToString(Len(gen.pages))>>, <<"file", "version", Version(gen.p)>>}
  \cup UNION {AnnotFacts(gen, id) : id \in Ids(gen, "annot")} \cup UNION {FontFacts(gen, id) : id \in Ids(gen, "font")}
  \cup StructTree(gen) \cup OutlineFacts(gen) \cup FormFacts(gen) \cup CatFacts(gen) \cup InfoFacts(gen) \cup MetaFacts(gen)
=============================================================================
