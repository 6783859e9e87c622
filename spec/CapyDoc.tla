------------------------------- MODULE CapyDoc -------------------------------
(* Documents: every generator_* call and the creation of drawing contexts.    *)
(* A document is a record: the property snapshot taken when it was created,   *)
(* the objects added so far (obj: id -> what it denotes), the facts fixed at  *)
(* the time an object was added (fx), and the tables that are only written    *)
(* out at the end (pages, annotations, structure, outline, fields).           *)
EXTENDS CapyBuild

\* Input files: path -> number of colour components (ICC profiles)
CONSTANT IccTable
CONSTANT ImageTable     \* image files: what a reader of each gets

Kinds == {"xf", "sm", "pat", "ef", "font", "img", "fn", "sh", "gs", "si", "3d", "icc", "lab", "sep", "ocg",
          "annot", "ff", "role", "outl"}
Count(gen, k) == Cardinality({x \in DOMAIN gen.obj : gen.obj[x].fam = k})
NextId(gen, k) == k \o ":" \o ToString(gen.n[k] + 1)

\* add one object to document g
AddObj(s, g, fam, kind, rec, fx) ==
  LET gen == s.h[g] id == NextId(gen, fam) IN
  OkId([s EXCEPT !.h[g].obj = Upd(@, id, [kind |-> kind, fam |-> fam] @@ rec),
                 !.h[g].n[fam] = @ + 1, !.h[g].fx = @ \cup fx], id)
NewIdOf(s, g, fam) == NextId(s.h[g], fam)
NoRec == [x \in {} |-> ""]
At(id, kvs, topic) == Under(topic, id \o "/", kvs)

HasProf(p, cs) == cs \in DOMAIN p.prof
ProfOk(p) == \A cs \in DOMAIN p.prof : p.prof[cs] \in DOMAIN IccTable /\ IccTable[p.prof[cs]] = CsChannels[cs + 1]
PropsOk(p) == /\ ProfOk(p)
              /\ p.cs = 2 => HasProf(p, 2)
              /\ p.sub # <<>> => HasProf(p, p.cs) /\ p.oi # ""

IccFacts(id, src, n) == {<<"cs", id \o "/N", ToString(n)>>, <<"cs", id \o "/data", "file:" \o src>>}
AddIcc(s, g, src, n) ==
  LET gen == s.h[g]  hit == {id \in DOMAIN gen.obj : gen.obj[id].kind = "icc" /\ gen.obj[id].src = src} IN
  IF hit # {} THEN OkId(s, CHOOSE id \in hit : TRUE)
  ELSE AddObj(s, g, "icc", "icc", [src |-> src, ch |-> n], IccFacts(NewIdOf(s, g, "icc"), src, n))

NewGen(p, file) == [k |-> "gen", p |-> p, file |-> file, obj |-> NoRec, n |-> [x \in Kinds |-> 0], fx |-> {},
                    pages |-> <<>>, labels |-> <<>>, roles |-> <<>>, useA |-> NoRec, useS |-> NoRec,
                    coll |-> <<>>, w |-> 0]

---------------------------------------------------------------------------
Idle(dc) == dc.st = <<>>            \* nothing left open
Reset(s, o) == [s EXCEPT !.h[o] = EmptyDc(@.g, @.typ, @.bb)]
MatrixKv(gm) == IF gm = <<>> THEN {} ELSE {<<"Matrix", Arr(gm)>>}
BBoxKv(bb) == {<<"BBox", Arr(bb)>>}

GroupFacts(gen, o, dc, kind) ==     \* o: label
  At(o, BBoxKv(dc.bb) \cup MatrixKv(dc.gm) \cup (IF kind = "tg" THEN TgpKv(dc.tgp) ELSE {}), "form")
  \cup {<<"form", o \o "/Subtype", "/Form">>}
  \cup OpFacts(o, dc.ops) \cup ResFacts(o, dc.res)
TilingFacts(o, dc) ==
  At(o, BBoxKv(dc.bb) \cup MatrixKv(dc.gm) \cup {<<"PatternType", "1">>, <<"PaintType", "1">>, <<"TilingType", "1">>,
        <<"XStep", Dec(dc.bb[3] - dc.bb[1])>>, <<"YStep", Dec(dc.bb[4] - dc.bb[2])>>}, "pat")
  \cup OpFacts(o, dc.ops) \cup ResFacts(o, dc.res)

AddPage(s, c) ==
  LET g == c.o o == c.h[1] gen == s.h[g] dc == s.h[o] IN
  If(s, dc.g = g /\ dc.typ = "page" /\ Idle(dc)
        /\ (\A a \in dc.ann : a \notin DOMAIN gen.useA)
        /\ (\A k \in DOMAIN dc.sis : dc.sis[k] \notin DOMAIN gen.useS),
     LET pg == Len(gen.pages) + 1
         page == [pp |-> dc.pp, tgp |-> dc.tgp, trans |-> dc.trans, navs |-> dc.navs, navtr |-> dc.navtr, vps |-> dc.vps,
                  ann |-> dc.ann, sis |-> dc.sis]
         lab == "page:" \o ToString(pg) IN
     Ok(Reset([s EXCEPT !.h[g].pages = Append(@, page),
                        !.h[g].fx = @ \cup OpFacts(lab, dc.ops) \cup ResFacts(lab, dc.res),
                        !.h[g].useA = [a \in dc.ann |-> pg] @@ @,
                        !.h[g].useS = [a \in Range1(dc.sis) |->
                              <<pg, (CHOOSE k \in DOMAIN dc.sis : dc.sis[k] = a) - 1>>] @@ @], o)))

AddGroup(s, c, typ, fam, kind) ==
  LET g == c.o o == c.h[1] gen == s.h[g] dc == s.h[o] id == NewIdOf(s, g, fam) IN
  IF dc.g = g /\ dc.typ = typ /\ Idle(dc)
  THEN LET r == AddObj(s, g, fam, kind, NoRec, IF fam = "pat" THEN TilingFacts(id, dc) ELSE GroupFacts(gen, id, dc, kind))
       IN OkId(Reset(r.s, o), r.id)
  ELSE Bad(s)

BoxOk(n) == AllFinite(n) /\ Lt(n[1], n[3]) /\ Lt(n[2], n[4])

NewDc(s, c, typ, bb) == New(s, c, EmptyDc(c.o, typ, bb))

OutlineParentOk(gen, p) == p = "" \/ HasId(gen, p, "outl")

ShFacts(id, b) == IF b.t \in {2, 3} THEN At(id, MKv(b.m), "sh")
  ELSE At(id, MKv(b.m), "sh") \cup {<<"sh", id \o "/box", Arr(b.box)>>}
       \cup {<<"sh", id \o "/" \o ToString(k), b.el[k]>> : k \in DOMAIN b.el}

AnnotRefsOk(gen, a) == /\ (a.t = "3D" => a.refs # {})
                       /\ \A r \in a.refs : HasId(gen, r[2], r[1])
                       /\ (a.parent = "" \/ HasId(gen, a.parent, "ff"))
FuncOk(gen, f) == f.okc /\ \A r \in f.refs : HasId(gen, r, "fn")

\* Images.  Sizes: bytes of a row are padded up to a whole byte.
ChannelsOf(cs) == CsChannels[cs + 1]
\* compressed data is named after what it contains
Decoded(im, x) == IF im.cmp = 1 THEN SubSeq(x, 2, Len(x)) ELSE x
ImgFacts(id, im, pr, cs) ==
  {<<"img", id \o "/Subtype", "/Image">>, <<"img", id \o "/Width", UStr(im.w)>>, <<"img", id \o "/Height", UStr(im.hh)>>,
   <<"img", id \o "/BitsPerComponent", UStr(im.pd)>>, <<"img", id \o "/data", Decoded(im, im.pix)>>}
  \cup (IF pr.interp = 0 THEN {} ELSE {<<"img", id \o "/Interpolate", <<"true", "false">>[IF pr.interp = 1 THEN 2 ELSE 1]>>})
  \cup (IF pr.mask = 1 THEN {<<"img", id \o "/ImageMask", "true">>} ELSE {<<"img", id \o "/ColorSpace", cs>>})
  \cup (IF im.src = "jpg" /\ im.dec = 1 THEN {<<"img", id \o "/Decode", "[1 0 1 0 1 0 1 0]">>} ELSE {})
  \cup (IF im.al = "" THEN {} ELSE
         {<<"img", id \o "/SMask/Subtype", "/Image">>, <<"img", id \o "/SMask/Width", UStr(im.w)>>,
          <<"img", id \o "/SMask/Height", UStr(im.hh)>>, <<"img", id \o "/SMask/BitsPerComponent", UStr(im.ad)>>,
          <<"img", id \o "/SMask/ColorSpace", "/DeviceGray">>, <<"img", id \o "/SMask/data", Decoded(im, im.al)>>}
         \cup (IF pr.interp = 0 THEN {} ELSE {<<"img", id \o "/SMask/Interpolate", <<"true", "false">>[IF pr.interp = 1 THEN 2 ELSE 1]>>}))

\* An image is put into the document as it is; a profile it carries becomes its colour space.  A mask is a
\* grey image of one bit per pixel without transparency; PDF/X documents have no RGB images.
AddImage(s, g, im, pr) ==
  LET gen == s.h[g] IN
  IF ~(im.w # 0 /\ im.hh # 0 /\ im.pix # "")
     \/ (pr.mask = 1 /\ ~(im.src = "raw" /\ im.cs = 1 /\ im.pd = 1 /\ im.al = ""))
     \/ (gen.p.sub # <<>> /\ gen.p.sub[1] = "X" /\ im.cs = 0)
     \/ (im.icc # "" /\ IccTable[im.icc] # ChannelsOf(im.cs)) THEN Bad(s)
  ELSE LET r == IF im.icc = "" \/ pr.mask = 1 THEN Bad(s) ELSE AddIcc(s, g, im.icc, ChannelsOf(im.cs))
           cs == IF r.rc = 0 THEN RefTo(r.id) ELSE PName(CsNames[im.cs + 1]) IN
       AddObj(r.s, g, "img", "img", NoRec, ImgFacts(NewIdOf(r.s, g, "img"), im, pr, cs))
FileImage(p) == ImageTable[p] @@ [k |-> "img", cmp |-> 0]
\* Conversion to a device colour space: with the profile of the image or else the one of the document (there is
\* none for CMYK unless one is given), pixel by pixel; the transparency stays.
ProfileOf(gen, cs) == IF HasProf(gen.p, cs) THEN gen.p.prof[cs] ELSE <<"rgb", "gray", "">>[cs + 1]
SourceProfile(gen, im) == IF im.icc # "" THEN im.icc ELSE ProfileOf(gen, im.cs)
CanConvert(gen, im, out) ==
  /\ im.src = "raw" /\ im.pd = 8 /\ im.cmp = 0
  /\ im.w > 0 /\ im.hh > 0 /\ im.w <= im.len /\ im.hh <= im.len \div im.w /\ im.w * im.hh * ChannelsOf(im.cs) <= im.len
  /\ SourceProfile(gen, im) # "" /\ ProfileOf(gen, out) # ""
  /\ (im.icc # "" => IccTable[im.icc] = ChannelsOf(im.cs))
Converted(gen, im, out, intent) ==
  [im EXCEPT !.cs = out, !.icc = "", !.len = im.w * im.hh * ChannelsOf(out),
     !.pix = "conv:" \o ToString(out) \o ":" \o ToString(intent) \o ":" \o ToString(im.w * im.hh) \o ":" \o ToString(im.cs) \o ":"
             \o SourceProfile(gen, im) \o ":" \o ProfileOf(gen, out) \o ":" \o im.pix]

\* The face a font file and font properties select.
NoProps == [sub |-> 0, inst |-> "", var |-> NoM]
FontProps(s, c) == IF c.h[1] = "null" THEN NoProps ELSE s.h[c.h[1]]
FaceExists(path, fp) ==
  /\ path \in DOMAIN FontTable /\ fp.sub \in {FontTable[k].sub : k \in {x \in DOMAIN FontTable : FontTable[x].path = path}}
  /\ fp.inst # "" \/ fp.var # NoM =>
       LET f == FontTable[path] IN
       /\ f.axes # {} /\ DOMAIN fp.var \subseteq f.axes
       /\ fp.inst = "" \/ \E k \in 0..f.ninst : fp.inst = ToString(k)
Faces(path, fp) == {k \in DOMAIN FontTable : FontTable[k].path = path /\ FontTable[k].sub = fp.sub /\ FontTable[k].inst = fp.inst /\ FontTable[k].var = fp.var}
FaceOf(path, fp) == CHOOSE k \in Faces(path, fp) : TRUE
\* width of a text: the sum of the advances, in thousandths of a point
TextWidth(gen, id, cps, size) ==
  LET f == FontTable[gen.obj[id].font] IN
  (FoldLeft(LAMBDA a, cp : a + f.adv[f.c2g[ToString(cp)]], 0, cps) * (size \div 10)) \div (f.upem \div 10)

StepGen(s, c) ==
  LET g == c.o  gen == s.h[g]  n == c.n  f == c.f
      b == s.h[c.h[1]]
      a == TextArg(c.s[1], c.z[1]) IN
  CASE f = "generator_new" ->
         LET p == s.h[c.h[1]]
             s1 == PutH(s, c.out, NewGen(p, c.s[1])) IN
         IF ~PropsOk(p) THEN Bad(s)
         ELSE IF HasProf(p, p.cs) THEN Ok(AddIcc(s1, c.out, p.prof[p.cs], ChannelsOf(p.cs)).s) ELSE Ok(s1)
    [] f = "generator_add_page" -> AddPage(s, c)
    [] f = "generator_add_page_labeling" ->
         LET sty == n[2] st == n[3] pre == IF c.s[1] = "null" THEN [ok |-> TRUE, t |-> "", none |-> TRUE] ELSE [ok |-> a.ok, t |-> a.t, none |-> FALSE]
             k == Len(gen.labels) IN
         If(s, pre.ok /\ (sty = NULLI \/ InEnum(sty, 4)) /\ (k > 0 => ULess(gen.labels[k].p, n[1])),
            Ok([s EXCEPT !.h[g].labels = Append(@, [p |-> n[1], s |-> sty, st |-> st, pre |-> pre])]))
    [] f = "page_draw_context_new" -> NewDc(s, c, "page", <<>>)
    [] f = "form_xobject_new" -> If(s, BoxOk(n), NewDc(s, c, "form", n))
    [] f = "transparency_group_new" -> If(s, BoxOk(n), NewDc(s, c, "tg", n))
    [] f = "tiling_pattern_context_new" -> If(s, BoxOk(n), NewDc(s, c, "tiling", n))
    [] f = "generator_add_form_xobject" -> AddGroup(s, c, "form", "xf", "form")
    [] f = "generator_add_transparency_group" -> AddGroup(s, c, "tg", "xf", "tg")
    [] f = "generator_add_tiling_pattern" -> AddGroup(s, c, "tiling", "pat", "pat")
    [] f = "generator_add_shading_pattern" ->
         If(s, HasId(gen, b.sh, "sh"),
            LET id == NewIdOf(s, g, "pat") IN
            AddObj(s, g, "pat", "pat", NoRec,
               At(id, {<<"PatternType", "2">>, <<"Shading", RefTo(b.sh)>>} \cup MKv(b.m), "pat")))
    [] f = "generator_add_soft_mask" ->
         If(s, HasId(gen, b.tg, "tg"),
            AddObj(s, g, "sm", "sm", NoRec, At(NewIdOf(s, g, "sm"), MKv(b.m) \cup {<<"G", RefTo(b.tg)>>}, "sm")))
    [] f = "generator_add_graphics_state" ->
         If(s, "SMask" \in DOMAIN b.m => \E id \in DOMAIN gen.obj : gen.obj[id].kind = "sm" /\ RefTo(id) = b.m["SMask"],
            AddObj(s, g, "gs", "gs", NoRec, At(NewIdOf(s, g, "gs"), MKv(b.m), "gs")))
    [] f = "generator_add_function" ->
         If(s, FuncOk(gen, b), AddObj(s, g, "fn", "fn", [t |-> b.t], At(NewIdOf(s, g, "fn"), MKv(b.m), "fn")))
    [] f = "generator_add_shading" ->
         If(s, IF b.t \in {2, 3} THEN HasId(gen, b.fn, "fn") ELSE ~b.bad,
            AddObj(s, g, "sh", "sh", NoRec, ShFacts(NewIdOf(s, g, "sh"), b)))
    [] f = "generator_add_optional_content_group" ->
         AddObj(s, g, "ocg", "ocg", NoRec, At(NewIdOf(s, g, "ocg"), MKv(b.m), "ocg"))
    [] f = "generator_add_annotation" ->
         If(s, b.rect # <<>> /\ AnnotRefsOk(gen, b), AddObj(s, g, "annot", "annot", [a |-> b], {}))
    [] f = "generator_add_form_field" ->
         If(s, b.parent = "" \/ HasId(gen, b.parent, "ff"),
            LET r == AddObj(s, g, "ff", "ff", [d |-> b], {}) IN OkId([r.s EXCEPT !.h[c.h[1]].k = "gone"], r.id))
    [] f = "generator_add_structure_item" ->
         If(s, InEnum(n[1], Len(StructNames) - 1) /\ (c.i[1] = "null" \/ HasId(gen, c.i[1], "si")),
            AddObj(s, g, "si", "si", [s |-> StructNames[n[1] + 1], par |-> c.i[1], x |-> IF c.h[1] = "null" THEN NoM ELSE b.m], {}))
    [] f = "generator_add_custom_structure_item" ->
         If(s, HasId(gen, c.i[1], "role") /\ (c.i[2] = "null" \/ HasId(gen, c.i[2], "si")),
            AddObj(s, g, "si", "si", [s |-> gen.obj[c.i[1]].name, par |-> c.i[2], x |-> IF c.h[1] = "null" THEN NoM ELSE b.m], {}))
    [] f = "generator_add_rolemap_entry" ->
         LET r == RawArg(c.s[1], c.z[1]) IN
         If(s, r.ok /\ r.cps # <<>> /\ r.cps[1] # 47 /\ (\A k \in DOMAIN r.cps : r.cps[k] # 0)
               /\ InEnum(n[1], Len(StructNames) - 1)
               /\ ~(\E k \in DOMAIN gen.roles : gen.roles[k][1] = r.t),
            LET q == AddObj(s, g, "role", "role", [name |-> r.t], {}) IN
            OkId([q.s EXCEPT !.h[g].roles = Append(@, <<r.t, StructNames[n[1] + 1]>>)], q.id))
    [] f = "generator_add_outline" ->
         If(s, b.title # "" /\ OutlineParentOk(gen, b.parent),
            AddObj(s, g, "outl", "outl", [d |-> b], {}))
    [] f = "generator_add_lab_colorspace" ->
         If(s, AllFinite(n),
            AddObj(s, g, "lab", "lab", NoRec,
              {<<"cs", NewIdOf(s, g, "lab"), "[/Lab <<>>]">>} \cup
              At(NewIdOf(s, g, "lab") \o "/1", {<<"WhitePoint", Arr(SubSeq(n, 1, 3))>>, <<"Range", Arr(SubSeq(n, 4, 7))>>}, "cs")))
    [] f = "generator_add_separation" ->
         LET t == AsciiArg(c.s[1], c.z[1]) IN
         If(s, t.ok /\ InEnum(n[1], 2) /\ HasId(gen, c.i[1], "fn") /\ gen.obj[c.i[1]].t = 4,
            AddObj(s, g, "sep", "sep", NoRec,
              {<<"cs", NewIdOf(s, g, "sep"), "[/Separation " \o PName(t.t) \o " /" \o CsNames[n[1] + 1] \o " " \o RefTo(c.i[1]) \o "]">>}))
    [] f = "generator_load_icc_profile" ->
         IF c.s[1] \in DOMAIN IccTable THEN AddIcc(s, g, c.s[1], IccTable[c.s[1]]) ELSE Bad(s)
    [] f = "generator_add_icc_profile" ->
         LET src == IF IsPre("file:", c.s[1]) THEN SubSeq(c.s[1], 6, Len(c.s[1])) ELSE "" IN
         IF src \in DOMAIN IccTable /\ IccTable[src] = n[1] THEN AddIcc(s, g, src, n[1]) ELSE Bad(s)
    [] f = "generator_load_font" ->
         LET fp == FontProps(s, c) IN
         If(s, FaceExists(c.s[1], fp), AddObj(s, g, "font", "font", [font |-> FaceOf(c.s[1], fp)], {}))
    [] f = "generator_text_width" ->
         LET t == TextArg(c.s[1], c.z[1]) IN
         IF t.ok /\ HasId(gen, c.i[1], "font")
         THEN [Ok(s) EXCEPT !.val = <<"about", TextWidth(gen, c.i[1], t.cps, n[1]), 12 + 8 * Len(t.cps)>>] ELSE Bad(s)
    [] f = "generator_embed_file" ->
         LET id == NewIdOf(s, g, "ef") IN
         If(s, ~\E e \in DOMAIN gen.obj : gen.obj[e].kind = "ef" /\ gen.obj[e].name = b.name,
            LET r == AddObj(s, g, "ef", "ef", [name |-> b.name, raw |-> b.raw, sub |-> b.sub],
                        {<<"ef", id \o "/F", PStr(b.name)>>, <<"ef", id \o "/data", b.data>>}
                        \cup (IF b.sub = "" THEN {} ELSE {<<"ef", id \o "/Subtype", PName(b.sub)>>})) IN
            OkId([r.s EXCEPT !.h[c.h[1]].k = "gone"], r.id))
    [] f = "generator_add_3d_stream" ->
         LET r == AddObj(s, g, "3d", "3d", NoRec, At(NewIdOf(s, g, "3d"), MKv(b.m), "3d")) IN
         OkId([r.s EXCEPT !.h[c.h[1]].k = "gone"], r.id)
    [] f = "generator_set_collection" ->
         If(s, gen.coll = <<>>, Ok([s EXCEPT !.h[g].coll = <<b.m>>, !.h[c.h[1]].k = "gone"]))
    [] f = "generator_add_image" -> LET r == AddImage(s, g, b, s.h[c.h[2]]) IN [r EXCEPT !.s.h[c.h[1]].k = "gone"]
    [] f = "generator_load_image" ->
         If(s, c.s[1] \in DOMAIN ImageTable /\ ImageTable[c.s[1]].file, Ok(PutH(s, c.out, FileImage(c.s[1]))))
    [] f = "generator_load_image_from_memory" ->
         LET p == IF IsPre("file:", c.s[1]) THEN SubSeq(c.s[1], 6, Len(c.s[1])) ELSE "" IN
         If(s, p \in DOMAIN ImageTable /\ ImageTable[p].mem, Ok(PutH(s, c.out, FileImage(p))))
    [] f = "generator_convert_image" ->
         If(s, InEnum(n[1], 2) /\ InEnum(n[2], 3) /\ CanConvert(gen, b, n[1]), Ok(PutH(s, c.out, Converted(gen, b, n[1], n[2]))))
=============================================================================
