------------------------------ MODULE CapyDraw ------------------------------
(* Drawing contexts, text objects and text sequences: every dc_*, text_* and  *)
(* text_sequence_* call.  A drawing context holds the operators accepted so   *)
(* far, the stack of open states and everything it refers to; a refused call  *)
(* leaves it as it was.                                                       *)
EXTENDS CapyBase

StructNames == <<"Document", "DocumentFragment", "Part", "Sect", "Div", "Aside", "NonStruct", "P", "H", "H1", "H2",
  "H3", "H4", "H5", "H6", "H7", "Title", "FENote", "Sub", "Lbl", "Span", "Em", "Strong", "Link", "Annot", "Form",
  "Ruby", "RB", "RT", "RP", "Warichu", "WT", "WP", "L", "LI", "LBody", "Table", "TR", "TH", "TD", "THead", "TBody",
  "TFoot", "Caption", "Figure", "Formula", "Artifact">>
IntentNames == <<"RelativeColorimetric", "AbsoluteColorimetric", "Saturation", "Perceptual">>

\* The font faces available: name -> [path, inst, var |-> file, named instance and axis values,
\*   cps |-> code points it has glyphs for, n |-> number of glyphs, c2g |-> code point to glyph,
\*   gl |-> glyph to its width and outline, adv |-> glyph to its advance, upem, base, kind, bbox, axes, ninst]
CONSTANT FontTable
\* the files that exist and can be read
CONSTANT FileTable
\* whether the environment asks for texts that cannot be copied: every character reads as an A
CONSTANT Scrape
Reads(cps) == IF Scrape THEN [k \in DOMAIN cps |-> 65] ELSE cps
FontHas(name, cp) == cp \in FontTable[name].cps
GlyphOf(name, gid) == IF gid \in DOMAIN FontTable[name].gl THEN FontTable[name].gl[gid] ELSE "?"
\* what showing code points / a named glyph puts on the page
GlyphsOf(name, cps) == [k \in DOMAIN cps |-> GlyphOf(name, FontTable[name].c2g[ToString(cps[k])])]

EmptyDc(g, typ, bb) == [k |-> "dc", g |-> g, typ |-> typ, bb |-> bb, ops |-> <<>>, st |-> <<>>, res |-> {},
   ann |-> {}, sis |-> <<>>, ocgs |-> {}, pp |-> <<>>, trans |-> <<>>, navs |-> <<>>, navtr |-> <<>>,
   vps |-> <<>>, gm |-> <<>>, tgp |-> <<>>]

Top(st) == IF st = <<>> THEN "" ELSE st[Len(st)]
Pop(st) == SubSeq(st, 1, Len(st) - 1)
Has(st, x) == \E k \in DOMAIN st : st[k] = x

\* an operator: w = the operator word, t = its canonical text, d = inline dictionary entries,
\* g = the glyphs it shows
Op(t, w) == [t |-> t \o (IF t = "" THEN "" ELSE " ") \o w, w |-> w, d |-> {}, g |-> <<>>]
OpD(t, w, d) == [Op(t, w) EXCEPT !.d = d]
AddOp(dc, op) == [dc EXCEPT !.ops = Append(@, op)]
AddRes(dc, r) == [dc EXCEPT !.res = @ \cup {r}]

PutH(s, o, r) == [s EXCEPT !.h = Upd(@, o, r)]

PlainOps == ("dc_cmd_b" :> "b") @@ ("dc_cmd_B" :> "B") @@ ("dc_cmd_bstar" :> "b*") @@ ("dc_cmd_Bstar" :> "B*")
  @@ ("dc_cmd_f" :> "f") @@ ("dc_cmd_fstar" :> "f*") @@ ("dc_cmd_h" :> "h") @@ ("dc_cmd_n" :> "n")
  @@ ("dc_cmd_s" :> "s") @@ ("dc_cmd_S" :> "S") @@ ("dc_cmd_W" :> "W") @@ ("dc_cmd_Wstar" :> "W*")
NumOps == ("dc_cmd_c" :> "c") @@ ("dc_cmd_cm" :> "cm") @@ ("dc_cmd_l" :> "l") @@ ("dc_cmd_m" :> "m")
  @@ ("dc_cmd_re" :> "re") @@ ("dc_cmd_v" :> "v") @@ ("dc_cmd_y" :> "y") @@ ("dc_cmd_M" :> "M")
UnitOps == ("dc_cmd_G" :> "G") @@ ("dc_cmd_g" :> "g") @@ ("dc_cmd_RG" :> "RG") @@ ("dc_cmd_rg" :> "rg")
  @@ ("dc_cmd_K" :> "K") @@ ("dc_cmd_k" :> "k")
ClampAll(n) == [k \in DOMAIN n |-> Clamp(n[k])]

DashOk(arr, phase) == Len(arr) > 0 /\ AllFinite(arr) /\ (\A k \in DOMAIN arr : ~Neg(arr[k])) /\ Finite(phase)
DashText(arr, phase) == Arr(arr) \o " " \o Dec(phase)

---------------------------------------------------------------------------
(* Colours.  gen.obj maps the ids handed out to what they denote.             *)
HasId(gen, id, kind) == id \in DOMAIN gen.obj /\ gen.obj[id].kind = kind
\* The operators that select colour col; <<>> when the colour cannot be used in this document
ColorOps(gen, col, stroke) ==
  LET up(a, b) == IF stroke THEN a ELSE b IN
  CASE col.t = "rgb"  -> <<Op(NumStr(col.v), up("RG", "rg"))>>
    [] col.t = "gray" -> <<Op(NumStr(col.v), up("G", "g"))>>
    [] col.t = "cmyk" -> <<Op(NumStr(col.v), up("K", "k"))>>
    [] col.t = "icc"  -> IF HasId(gen, col.id, "icc") /\ gen.obj[col.id].ch = Len(col.v) /\ AllFinite(col.v)
                         THEN <<Op(RefTo(col.id), up("CS", "cs")), Op(NumStr(col.v), up("SCN", "scn"))>> ELSE <<>>
    [] col.t = "sep"  -> IF HasId(gen, col.id, "sep")
                         THEN <<Op(RefTo(col.id), up("CS", "cs")), Op(NumStr(col.v), up("SCN", "scn"))>> ELSE <<>>
    [] col.t = "lab"  -> IF HasId(gen, col.id, "lab") /\ AllFinite(col.v)
                         THEN <<Op(RefTo(col.id), up("CS", "cs")), Op(NumStr(col.v), up("SCN", "scn"))>> ELSE <<>>
    [] col.t = "pat"  -> IF HasId(gen, col.id, "pat")
                         THEN <<Op("/Pattern", up("CS", "cs")), Op(RefTo(col.id), up("SCN", "scn"))>> ELSE <<>>
ColorRes(col) == IF col.t \in {"icc", "sep", "lab"} THEN {"ColorSpace " \o RefTo(col.id)}
                 ELSE IF col.t = "pat" THEN {"Pattern " \o RefTo(col.id)} ELSE {}

---------------------------------------------------------------------------
(* Text.  Rendering folds the recorded events over a copy of the context; any *)
(* event that cannot be shown refuses the whole text.                         *)
NoFont == ""
\* text sequence elements: [t: "k" kerning | "s" code points | "g" glyph | "as" | "ae", v, cps]
\* Runs between ActualText marks become one TJ each; adjacent strings are one string.
RECURSIVE TjParts(_, _, _, _, _, _)
TjEnd(acc, last, g) == IF last = "" THEN <<>> ELSE <<[Op("[" \o acc \o (IF last = "s" THEN ")" ELSE "") \o "]", "TJ") EXCEPT !.g = g]>>
TjParts(font, el, k, acc, last, g) ==        \* acc: text inside the brackets, last: "" | "s" | "k", g: glyphs so far
  IF k > Len(el) THEN TjEnd(acc, last, g)
  ELSE LET e == el[k] IN
  CASE e.t = "k" -> TjParts(font, el, k + 1, acc \o (IF last = "s" THEN ")" ELSE IF last = "k" THEN " " ELSE "") \o ToString(e.v), "k", g)
    [] e.t \in {"s", "g"} ->
         LET g2 == g \o (IF e.t = "g" THEN <<GlyphOf(font, ToString(e.v))>> ELSE GlyphsOf(font, e.cps)) IN
         IF e.cps = <<>> THEN TjParts(font, el, k + 1, acc, last, g2)
         ELSE TjParts(font, el, k + 1, acc \o (IF last = "s" THEN "" ELSE "(") \o CanonText(IF e.t = "s" THEN Reads(e.cps) ELSE e.cps), "s", g2)
    [] e.t \in {"as", "ae"} ->
         TjEnd(acc, last, g)
         \o <<IF e.t = "as" THEN OpD("/Span <<>>", "BDC", {<<"ActualText", PStr(e.x)>>}) ELSE Op("", "EMC")>>
         \o TjParts(font, el, k + 1, "", "", <<>>)
TjOk(gen, el, font) == \A k \in DOMAIN el :
   /\ el[k].t = "s" => \A j \in DOMAIN el[k].cps : FontHas(gen.obj[font].font, el[k].cps[j])
   /\ el[k].t = "g" => el[k].v > 0 /\ el[k].v < FontTable[gen.obj[font].font].n

Refused == [ok |-> FALSE, dc |-> <<>>, font |-> ""]
Fine(dc, font) == [ok |-> TRUE, dc |-> dc, font |-> font]
AddOps(dc, ops) == [dc EXCEPT !.ops = @ \o ops]

MarkStruct(gen, dc, si, tags) ==
  AddOp([dc EXCEPT !.sis = Append(@, si), !.st = Append(@, "mc")],
        OpD(PName(gen.obj[si].s) \o " <<>>", "BDC", tags \cup {<<"MCID", ToString(Len(dc.sis))>>}))
\* Structure items belong to pages: a form has no page of its own to find them through.
CanMarkStruct(gen, dc, si) == dc.typ = "page" /\ HasId(gen, si, "si") /\ ~Has(dc.st, "mc") /\ ~(\E k \in DOMAIN dc.sis : dc.sis[k] = si)

TextEv(gen, dc, font, e) ==
  LET op(t, w) == Fine(AddOp(dc, Op(t, w)), font) IN
  CASE e.t = "T*" -> op("", "T*")
    [] e.t \in {"Tc", "Td", "TD", "TL", "Tm", "M"} -> IF AllFinite(e.n) THEN op(NumStr(e.n), e.t) ELSE Refused
    [] e.t = "w"  -> IF AllFinite(e.n) /\ ~Neg(e.n[1]) THEN op(NumStr(e.n), "w") ELSE Refused
    [] e.t = "Tr" -> IF InEnum(e.n[1], 7) THEN op(ToString(e.n[1]), "Tr") ELSE Refused
    [] e.t = "j"  -> IF InEnum(e.n[1], 2) THEN op(ToString(e.n[1]), "j") ELSE Refused
    [] e.t = "J"  -> IF InEnum(e.n[1], 2) THEN op(ToString(e.n[1]), "J") ELSE Refused
    [] e.t = "d"  -> IF DashOk(e.d, e.n[1]) THEN op(DashText(e.d, e.n[1]), "d") ELSE Refused
    [] e.t = "gs" -> IF HasId(gen, e.id, "gs")
                     THEN Fine(AddRes(AddOp(dc, Op(RefTo(e.id), "gs")), "ExtGState " \o RefTo(e.id)), font) ELSE Refused
    [] e.t = "Tf" -> IF HasId(gen, e.id, "font") /\ AllFinite(e.n)
                     THEN Fine(AddRes(AddOp(dc, Op(RefTo(e.id) \o " " \o NumStr(e.n), "Tf")), "Font " \o RefTo(e.id)), e.id)
                     ELSE Refused
    [] e.t = "Tj" -> IF font # NoFont /\ (\A k \in DOMAIN e.cps : FontHas(gen.obj[font].font, e.cps[k]))
                     THEN Fine(AddOp(dc, [Op(PStr(CanonText(Reads(e.cps))), "Tj") EXCEPT !.g = GlyphsOf(gen.obj[font].font, e.cps)]), font) ELSE Refused
    [] e.t = "TJ" -> IF font # NoFont /\ TjOk(gen, e.el, font)
                     THEN Fine(AddOps(dc, TjParts(gen.obj[font].font, e.el, 1, "", "", <<>>)), font) ELSE Refused
    [] e.t = "BDC" -> IF CanMarkStruct(gen, dc, e.id) THEN Fine(MarkStruct(gen, dc, e.id, {}), font) ELSE Refused
    [] e.t = "EMC" -> IF Top(dc.st) = "mc" THEN Fine(AddOp([dc EXCEPT !.st = Pop(@)], Op("", "EMC")), font) ELSE Refused
    [] e.t \in {"sc", "ns"} -> LET ops == ColorOps(gen, e.c, e.t = "sc") IN
                     IF ops = <<>> THEN Refused ELSE Fine([AddOps(dc, ops) EXCEPT !.res = @ \cup ColorRes(e.c)], font)

RECURSIVE FoldText(_, _, _, _, _)
FoldText(gen, dc, font, ev, k) ==
  IF k > Len(ev) THEN Fine(dc, font) ELSE
  LET r == TextEv(gen, dc, font, ev[k]) IN
  IF r.ok THEN FoldText(gen, r.dc, r.font, ev, k + 1) ELSE Refused

\* the context after rendering the events; Refused when they cannot be rendered
RenderText(gen, dc, ev) ==
  IF Has(dc.st, "text") THEN Refused ELSE
  LET r == FoldText(gen, AddOp([dc EXCEPT !.st = Append(@, "text")], Op("", "BT")), NoFont, ev, 1) IN
  IF r.ok /\ Top(r.dc.st) = "text" THEN Fine(AddOp([r.dc EXCEPT !.st = Pop(@)], Op("", "ET")), "") ELSE Refused

Ev(t) == [t |-> t]
EvN(t, n) == [t |-> t, n |-> n]

TextNumEv == ("text_cmd_Tc" :> "Tc") @@ ("text_cmd_Td" :> "Td") @@ ("text_cmd_TD" :> "TD") @@ ("text_cmd_TL" :> "TL")
  @@ ("text_cmd_Tm" :> "Tm") @@ ("text_cmd_Tr" :> "Tr") @@ ("text_cmd_w" :> "w") @@ ("text_cmd_M" :> "M")
  @@ ("text_cmd_j" :> "j") @@ ("text_cmd_J" :> "J")

AddEv(s, o, e) == Ok([s EXCEPT !.h[o].ev = Append(@, e)])

StepText(s, c) ==
  LET o == c.o IN
  CASE c.f \in DOMAIN TextNumEv -> If(s, AllFinite(c.n), AddEv(s, o, EvN(TextNumEv[c.f], c.n)))
    [] c.f = "text_cmd_Tstar" -> AddEv(s, o, Ev("T*"))
    [] c.f = "text_cmd_EMC" -> AddEv(s, o, Ev("EMC"))
    [] c.f = "text_cmd_BDC_builtin" -> AddEv(s, o, [t |-> "BDC", id |-> c.i[1]])
    [] c.f = "text_cmd_gs" -> AddEv(s, o, [t |-> "gs", id |-> c.i[1]])
    [] c.f = "text_cmd_d" -> If(s, AllFinite(c.n) /\ AllFinite(c.d[1]), AddEv(s, o, [t |-> "d", n |-> c.n, d |-> c.d[1]]))
    [] c.f = "text_cmd_Tf" -> If(s, AllFinite(c.n), AddEv(s, o, [t |-> "Tf", id |-> c.i[1], n |-> c.n]))
    [] c.f = "text_cmd_Tj" -> LET a == TextArg(c.s[1], c.z[1]) IN
         IF a.ok THEN AddEv(s, o, [t |-> "Tj", cps |-> a.cps]) ELSE Bad(s)
    [] c.f = "text_cmd_TJ" -> LET q == s.h[c.h[1]] IN
         IF q.open THEN Bad(s)
         ELSE AddEv([s EXCEPT !.h[c.h[1]].el = <<>>], o, [t |-> "TJ", el |-> q.el])
    [] c.f = "text_set_stroke" -> AddEv(s, o, [t |-> "sc", c |-> s.h[c.h[1]]])
    [] c.f = "text_set_nonstroke" -> AddEv(s, o, [t |-> "ns", c |-> s.h[c.h[1]]])

AddEl(s, o, e) == Ok([s EXCEPT !.h[o].el = Append(@, e)])
StepSeq(s, c) ==
  LET o == c.o IN
  CASE c.f = "text_sequence_new" -> Ok(PutH(s, c.out, [k |-> "tseq", el |-> <<>>, open |-> FALSE]))
    [] c.f = "text_sequence_append_kerning" -> AddEl(s, o, [t |-> "k", v |-> c.n[1], cps |-> <<>>])
    [] c.f = "text_sequence_append_codepoint" -> AddEl(s, o, [t |-> "s", v |-> 0, cps |-> <<c.n[1]>>])
    [] c.f = "text_sequence_append_string" -> LET a == TextArg(c.s[1], c.z[1]) IN
         IF a.ok THEN AddEl(s, o, [t |-> "s", v |-> 0, cps |-> a.cps]) ELSE Bad(s)
    [] c.f = "text_sequence_append_raw_glyph" ->
         IF c.n[1] = 0 \/ ~IsCp(c.n[2]) THEN Bad(s) ELSE AddEl(s, o, [t |-> "g", v |-> c.n[1], cps |-> <<c.n[2]>>])
    [] c.f = "text_sequence_append_ligature_glyph" -> LET a == TextArg(c.s[1], c.z[1]) IN
         IF c.n[1] = 0 \/ ~a.ok THEN Bad(s) ELSE AddEl(s, o, [t |-> "g", v |-> c.n[1], cps |-> a.cps])
    [] c.f = "text_sequence_append_actualtext_start" -> LET a == TextArg(c.s[1], c.z[1]) IN
         IF ~a.ok \/ s.h[o].open THEN Bad(s)
         ELSE AddEl([s EXCEPT !.h[o].open = TRUE], o, [t |-> "as", v |-> 0, cps |-> <<>>, x |-> a.t])
    [] c.f = "text_sequence_append_actualtext_end" ->
         IF ~s.h[o].open THEN Bad(s)
         ELSE AddEl([s EXCEPT !.h[o].open = FALSE], o, [t |-> "ae", v |-> 0, cps |-> <<>>])

---------------------------------------------------------------------------
(* dc_* calls *)
Draw(s, o, op) == Ok([s EXCEPT !.h[o] = AddOp(@, op)])
DrawIf(s, ok, o, op) == IF ok THEN Draw(s, o, op) ELSE Bad(s)
DrawRes(s, ok, o, op, res) == IF ok THEN Ok([s EXCEPT !.h[o] = AddRes(AddOp(@, op), res)]) ELSE Bad(s)

TagKv(s, h) == IF h = "null" THEN {} ELSE {<<k, PStr(s.h[h].m[k])>> : k \in DOMAIN s.h[h].m}

StepDc(s, c) ==
  LET o == c.o  dc == s.h[o]  gen == s.h[dc.g]  n == c.n  f == c.f IN
  CASE f \in DOMAIN PlainOps -> Draw(s, o, Op("", PlainOps[f]))
    [] f \in DOMAIN NumOps -> DrawIf(s, AllFinite(n), o, Op(NumStr(n), NumOps[f]))
    [] f \in DOMAIN UnitOps -> Draw(s, o, Op(NumStr(ClampAll(n)), UnitOps[f]))
    [] f = "dc_cmd_w" -> DrawIf(s, Finite(n[1]) /\ ~Neg(n[1]), o, Op(Dec(n[1]), "w"))
    [] f = "dc_cmd_i" -> DrawIf(s, Finite(n[1]) /\ ~Neg(n[1]) /\ ~Lt(100000, n[1]), o, Op(Dec(n[1]), "i"))
    [] f = "dc_cmd_j" -> DrawIf(s, InEnum(n[1], 2), o, Op(ToString(n[1]), "j"))
    [] f = "dc_cmd_J" -> DrawIf(s, InEnum(n[1], 2), o, Op(ToString(n[1]), "J"))
    [] f = "dc_cmd_ri" -> IF InEnum(n[1], 3) THEN Draw(s, o, Op(PName(IntentNames[n[1] + 1]), "ri")) ELSE Bad(s)
    [] f = "dc_cmd_d" -> IF DashOk(c.d[1], n[1]) THEN Draw(s, o, Op(DashText(c.d[1], n[1]), "d")) ELSE Bad(s)
    [] f = "dc_cmd_q" -> Ok([s EXCEPT !.h[o] = AddOp([@ EXCEPT !.st = Append(@, "q")], Op("", "q"))])
    [] f = "dc_cmd_Q" -> If(s, Top(dc.st) = "q", Ok([s EXCEPT !.h[o] = AddOp([@ EXCEPT !.st = Pop(@)], Op("", "Q"))]))
    [] f = "dc_cmd_EMC" -> If(s, Top(dc.st) = "mc", Ok([s EXCEPT !.h[o] = AddOp([@ EXCEPT !.st = Pop(@)], Op("", "EMC"))]))
    [] f = "dc_cmd_BMC" -> LET b == IF c.s[1] = "null" THEN <<>> ELSE ArgBytes(c.s[1], -1) IN
         If(s, Len(b) >= 2 /\ b[1] # 47 /\ ~Has(dc.st, "mc"),
            Ok([s EXCEPT !.h[o] = AddOp([@ EXCEPT !.st = Append(@, "mc")], Op(PName(CanonBytes(b)), "BMC"))]))
    [] f = "dc_cmd_BDC_builtin" ->
         If(s, CanMarkStruct(gen, dc, c.i[1]), Ok([s EXCEPT !.h[o] = MarkStruct(gen, @, c.i[1], TagKv(s, c.h[1]))]))
    [] f = "dc_cmd_BDC_testing" -> LET a == AsciiArg(c.s[1], c.z[1]) IN
         If(s, a.ok /\ Len(a.cps) > 0 /\ a.cps[1] # 47 /\ c.h[1] # "null" /\ ~Has(dc.st, "mc"),
            Ok([s EXCEPT !.h[o] = AddOp([@ EXCEPT !.st = Append(@, "mc")],
                                        OpD(PName(a.t) \o " <<>>", "BDC", TagKv(s, c.h[1])))]))
    [] f = "dc_cmd_BDC_ocg" ->
         If(s, HasId(gen, c.i[1], "ocg") /\ ~Has(dc.st, "mc"),
            Ok([s EXCEPT !.h[o] = AddRes(AddOp([@ EXCEPT !.st = Append(@, "mc"), !.ocgs = @ \cup {c.i[1]}],
                                               Op("/OC " \o RefTo(c.i[1]), "BDC")), "Properties " \o RefTo(c.i[1]))]))
    [] f = "dc_cmd_gs" -> DrawRes(s, HasId(gen, c.i[1], "gs"), o, Op(RefTo(c.i[1]), "gs"), "ExtGState " \o RefTo(c.i[1]))
    [] f = "dc_cmd_sh" -> DrawRes(s, HasId(gen, c.i[1], "sh"), o, Op(RefTo(c.i[1]), "sh"), "Shading " \o RefTo(c.i[1]))
    [] f = "dc_cmd_Do_image" -> DrawRes(s, HasId(gen, c.i[1], "img"), o, Op(RefTo(c.i[1]), "Do"), "XObject " \o RefTo(c.i[1]))
    [] f = "dc_cmd_Do_trgroup" -> DrawRes(s, HasId(gen, c.i[1], "tg"), o, Op(RefTo(c.i[1]), "Do"), "XObject " \o RefTo(c.i[1]))
    [] f \in {"dc_set_stroke", "dc_set_nonstroke"} ->
         LET col == s.h[c.h[1]]  ops == ColorOps(gen, col, f = "dc_set_stroke") IN
         If(s, ops # <<>>, Ok([s EXCEPT !.h[o] = [AddOps(@, ops) EXCEPT !.res = @ \cup ColorRes(col)]]))
    [] f = "dc_render_text" ->
         LET a == TextArg(c.s[1], c.z[1])
             r == RenderText(gen, dc, <<[t |-> "Tf", id |-> c.i[1], n |-> <<n[1]>>], EvN("Td", <<n[2], n[3]>>), [t |-> "Tj", cps |-> a.cps]>>) IN
         If(s, a.ok /\ r.ok, Ok([s EXCEPT !.h[o] = r.dc]))
    [] f = "dc_render_text_obj" ->
         LET t == s.h[c.h[1]]  r == RenderText(gen, dc, t.ev) IN
         If(s, t.dc = o /\ r.ok, Ok([s EXCEPT !.h[o] = r.dc]))
    [] f = "dc_text_new" -> Ok(PutH(s, c.out, [k |-> "text", dc |-> o, ev |-> <<>>]))
    [] f = "dc_set_page_transition" -> If(s, dc.typ = "page", Ok([s EXCEPT !.h[o].trans = <<s.h[c.h[1]].m>>]))
    [] f = "dc_add_simple_navigation" ->
         If(s, dc.typ = "page" /\ dc.navs = <<>> /\ \A k \in DOMAIN c.ia[1] : c.ia[1][k] \in dc.ocgs,
            Ok([s EXCEPT !.h[o].navs = c.ia[1], !.h[o].navtr = IF c.h[1] = "null" THEN <<>> ELSE <<s.h[c.h[1]].m>>]))
    [] f = "dc_set_custom_page_properties" -> If(s, dc.typ = "page", Ok([s EXCEPT !.h[o].pp = s.h[c.h[1]].m, !.h[o].tgp = s.h[c.h[1]].tg]))
    [] f = "dc_annotate" -> If(s, dc.typ = "page" /\ HasId(gen, c.i[1], "annot") /\ c.i[1] \notin dc.ann,
                               Ok([s EXCEPT !.h[o].ann = @ \cup {c.i[1]}]))
    [] f = "dc_set_transparency_group_properties" ->
         If(s, dc.typ \in {"page", "tg"}, Ok([s EXCEPT !.h[o].tgp = <<s.h[c.h[1]].m>>]))
    [] f = "dc_set_group_matrix" -> If(s, dc.typ # "page" /\ AllFinite(n), Ok([s EXCEPT !.h[o].gm = n]))
    [] f = "dc_append_viewport" -> If(s, dc.typ = "page", Ok([s EXCEPT !.h[o].vps = Append(@, s.h[c.h[1]].m)]))

---------------------------------------------------------------------------
(* P01 stated on its own: a recogniser of well-nested operator sequences.     *)
RECURSIVE NestFrom(_, _, _)
NestFrom(ops, k, st) ==
  IF k > Len(ops) THEN st = <<>> ELSE
  LET w == ops[k].w  span == \E x \in ops[k].d : x[1] = "ActualText" IN
  CASE w = "q" -> ~Has(st, "BT") /\ NestFrom(ops, k + 1, Append(st, "q"))
    [] w = "Q" -> Top(st) = "q" /\ NestFrom(ops, k + 1, Pop(st))
    [] w = "BT" -> ~Has(st, "BT") /\ NestFrom(ops, k + 1, Append(st, "BT"))
    [] w = "ET" -> Top(st) = "BT" /\ NestFrom(ops, k + 1, Pop(st))
    [] w \in {"BMC", "BDC"} -> (IF span THEN ~Has(st, "span") ELSE ~Has(st, "BDC") /\ ~Has(st, "span"))
                               /\ NestFrom(ops, k + 1, Append(st, IF span THEN "span" ELSE "BDC"))
    [] w = "EMC" -> Top(st) \in {"BDC", "span"} /\ NestFrom(ops, k + 1, Pop(st))
    [] OTHER -> NestFrom(ops, k + 1, st)
WellNested(ops) == NestFrom(ops, 1, <<>>)

OpFacts(label, ops) ==
  UNION {{<<"ops", label \o "/" \o ToString(k), ops[k].t>>}
         \cup {<<"ops", label \o "/" \o ToString(k) \o "/" \o x[1], x[2]>> : x \in ops[k].d}
         \cup {<<"glyph", label \o "/" \o ToString(k) \o "/" \o ToString(j), ops[k].g[j]>> : j \in DOMAIN ops[k].g} : k \in DOMAIN ops}
ResFacts(label, res) == {<<"res", label, r>> : r \in res}
=============================================================================
