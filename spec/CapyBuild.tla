------------------------------ MODULE CapyBuild -----------------------------
(* Builder objects: everything a caller fills in before adding it to a        *)
(* document.  A builder is a record whose field m maps the PDF key it will    *)
(* become to the value as it will read in the file; setting again replaces.   *)
EXTENDS CapyDraw

BlendNames == <<"Normal", "Multiply", "Screen", "Overlay", "Darken", "Lighten", "ColorDodge", "ColorBurn", "HardLight",
  "SoftLight", "Difference", "Exclusion", "Hue", "Saturation", "Color", "Luminosity">>
CsNames == <<"DeviceRGB", "DeviceGray", "DeviceCMYK">>
CsChannels == <<3, 1, 4>>
TransNames == <<"Split", "Blinds", "Box", "Wipe", "Dissolve", "Glitter", "R", "Fly", "Push", "Cover", "Uncover", "Fade">>
SpotNames == <<"SimpleDot", "InvertedSimpleDot", "DoubleDot", "InvertedDoubleDot", "CosineDot", "Double",
  "InvertedDouble", "Line", "LineX", "LineY", "Round", "Ellipse", "EllipseA", "InvertedEllipseA", "EllipseB",
  "EllipseC", "InvertedEllipseC", "Square", "Cross", "Rhomboid", "Diamond">>
BlackNames == <<"OFF", "ON", "DEFAULT">>
LineEndNames == <<"Square", "Circle", "Diamond", "OpenArrow", "ClosedArrow", "None", "Butt", "ROpenArrow",
  "RClosedArrow", "Slash">>
LayoutNames == <<"SinglePage", "OneColumn", "TwoColumnLeft", "TwoColumnRight", "TwoPageLeft", "TwoPageRight">>
ModeNames == <<"UseNone", "UseOutlines", "UseThumbs", "FullScreen", "UseOC", "UseAttachments">>
BoxNames == <<"MediaBox", "CropBox", "BleedBox", "TrimBox", "ArtBox">>
CollViewNames == <<"D", "T", "H", "C">>
CollSubNames == <<"S", "D", "N", "F", "Desc", "ModDate", "CreationDate", "Size", "CompressedSize">>

NoM == [x \in {} |-> ""]
Put(s, o, k, v) == Ok([s EXCEPT !.h[o].m = Upd(@, k, v)])
PutIf(s, ok, o, k, v) == IF ok THEN Put(s, o, k, v) ELSE Bad(s)
PutEnum(s, o, k, names, x) == IF InEnum(x, Len(names) - 1) THEN Put(s, o, k, PName(names[x + 1])) ELSE Bad(s)
PutText(s, o, k, a) == IF a.ok THEN (IF a.t = "" THEN Ok([s EXCEPT !.h[o].m = Drop(@, k)]) ELSE Put(s, o, k, PStr(a.t))) ELSE Bad(s)
MKv(m) == {<<k, m[k]>> : k \in DOMAIN m}
UInt(x) == ToString(x)              \* unsigned arguments stay below 2^31 in every history generated

New(s, c, r) == Ok(PutH(s, c.out, r))
NewM(s, c, kind) == New(s, c, [k |-> kind, m |-> NoM])
IsPre(p, f) == Len(f) >= Len(p) /\ SubSeq(f, 1, Len(p)) = p

StepColor(s, c) ==
  LET o == c.o n == c.n
      col(t, v, id) == Ok(PutH(s, o, [k |-> "color", t |-> t, v |-> v, id |-> id])) IN
  CASE c.f = "color_new" -> New(s, c, [k |-> "color", t |-> "rgb", v |-> <<0, 0, 0>>, id |-> ""])
    [] c.f = "color_set_rgb" -> col("rgb", ClampAll(n), "")
    [] c.f = "color_set_gray" -> col("gray", ClampAll(n), "")
    [] c.f = "color_set_cmyk" -> col("cmyk", ClampAll(n), "")
    [] c.f = "color_set_icc" -> If(s, AllFinite(c.d[1]), col("icc", c.d[1], c.i[1]))
    [] c.f = "color_set_lab" -> If(s, AllFinite(n), col("lab", n, c.i[1]))
    [] c.f = "color_set_pattern" -> col("pat", <<>>, c.i[1])
    [] c.f = "color_set_separation" -> IF ~Finite(n[1]) \/ Neg(n[1]) \/ Lt(1000, n[1]) THEN Bad(s) ELSE col("sep", n, c.i[1])

StepTransition(s, c) ==
  LET o == c.o n == c.n IN
  CASE c.f = "transition_new" -> NewM(s, c, "trans")
    [] c.f = "transition_set_S" -> PutEnum(s, o, "S", TransNames, n[1])
    [] c.f = "transition_set_D" -> PutIf(s, Finite(n[1]), o, "D", Dec(n[1]))
    [] c.f = "transition_set_Dm" -> PutEnum(s, o, "Dm", <<"H", "V">>, n[1])
    [] c.f = "transition_set_M" -> PutEnum(s, o, "M", <<"I", "O">>, n[1])
    [] c.f = "transition_set_Di" -> Put(s, o, "Di", UInt(n[1]))
    [] c.f = "transition_set_SS" -> PutIf(s, Finite(n[1]), o, "SS", Dec(n[1]))
    [] c.f = "transition_set_B" -> PutIf(s, IsBool(n[1]), o, "B", Bool(n[1]))

StepGstate(s, c) ==
  LET o == c.o n == c.n  b(k) == PutIf(s, IsBool(n[1]), o, k, Bool(n[1])) IN
  CASE c.f = "graphics_state_new" -> NewM(s, c, "gs")
    [] c.f = "graphics_state_set_CA" -> Put(s, o, "CA", Dec(Clamp(n[1])))
    [] c.f = "graphics_state_set_ca" -> Put(s, o, "ca", Dec(Clamp(n[1])))
    [] c.f = "graphics_state_set_BM" -> PutEnum(s, o, "BM", BlendNames, n[1])
    [] c.f = "graphics_state_set_op" -> b("op")
    [] c.f = "graphics_state_set_OP" -> b("OP")
    [] c.f = "graphics_state_set_OPM" -> PutIf(s, IsBool(n[1]), o, "OPM", UInt(n[1]))
    [] c.f = "graphics_state_set_SMask" -> Put(s, o, "SMask", RefTo(c.i[1]))
    [] c.f = "graphics_state_set_FL" -> PutIf(s, Finite(n[1]) /\ ~Neg(n[1]), o, "FL", Dec(n[1]))
    [] c.f = "graphics_state_set_SM" -> PutIf(s, Finite(n[1]) /\ ~Neg(n[1]) /\ ~Lt(1000, n[1]), o, "SM", Dec(n[1]))
    [] c.f = "graphics_state_set_AIS" -> b("AIS")
    [] c.f = "graphics_state_set_TK" -> b("TK")
    [] c.f = "graphics_state_set_blackpoint_compensation" -> PutEnum(s, o, "UseBlackPtComp", BlackNames, n[1])
    [] c.f = "graphics_state_set_HT" ->
         Ok([s EXCEPT !.h[o].m = [k \in {k \in DOMAIN @ : ~IsPre("HT", k)} |-> @[k]] @@ s.h[c.h[1]].m])
StepHalftone(s, c) ==
  CASE c.f = "halftone_new" -> New(s, c, [k |-> "ht", m |-> "HT" :> "/Default"])
    [] c.f = "halftone_set_default" -> Ok([s EXCEPT !.h[c.o].m = "HT" :> "/Default"])
    [] c.f = "halftone_set_type1" ->
         If(s, AllFinite(<<c.n[1], c.n[2]>>) /\ InEnum(c.n[3], 20),
            Ok([s EXCEPT !.h[c.o].m = ("HT" :> "<<>>") @@ ("HT/Type" :> "/Halftone") @@ ("HT/HalftoneType" :> "1")
               @@ ("HT/Frequency" :> Dec(c.n[1])) @@ ("HT/Angle" :> Dec(c.n[2]))
               @@ ("HT/SpotFunction" :> PName(SpotNames[c.n[3] + 1]))]))

StepTgp(s, c) ==
  LET o == c.o n == c.n IN
  CASE c.f = "transparency_group_properties_new" -> NewM(s, c, "tgp")
    [] c.f = "transparency_group_properties_set_CS" -> PutEnum(s, o, "CS", CsNames, n[1])
    [] c.f = "transparency_group_properties_set_I" -> PutIf(s, IsBool(n[1]), o, "I", Bool(n[1]))
    [] c.f = "transparency_group_properties_set_K" -> PutIf(s, IsBool(n[1]), o, "K", Bool(n[1]))
TgpKv(tg) == IF tg = <<>> THEN {} ELSE {<<"Group", "<<>>">>, <<"Group/S", "/Transparency">>} \cup Sub("Group/", MKv(tg[1]))

StepPageProps(s, c) ==
  LET o == c.o n == c.n IN
  CASE c.f = "page_properties_new" -> New(s, c, [k |-> "pp", m |-> NoM, tg |-> <<>>])
    [] c.f = "page_properties_set_pagebox" ->
         If(s, InEnum(n[1], 4) /\ AllFinite(Tail(n)), Put(s, o, BoxNames[n[1] + 1], Arr(Tail(n))))
    [] c.f = "page_properties_set_transparency_group_properties" -> Ok([s EXCEPT !.h[o].tg = <<s.h[c.h[1]].m>>])

\* measures: X/Y/D/A are sequences of number formats
StepMeasure(s, c) ==
  LET o == c.o IN
  CASE c.f = "viewport_new" -> If(s, AllFinite(c.n), New(s, c, [k |-> "vp", m |-> [bb |-> c.n, ms |-> <<>>]]))
    [] c.f = "viewport_set_measure" -> Ok([s EXCEPT !.h[o].m.ms = <<s.h[c.h[1]].m>>])
    [] c.f = "measure_new" -> New(s, c, [k |-> "ms", m |-> [X |-> <<>>, Y |-> <<>>, D |-> <<>>, A |-> <<>>]])
    [] c.f = "measure_append_X" -> Ok([s EXCEPT !.h[o].m.X = Append(@, s.h[c.h[1]].m)])
    [] c.f = "measure_append_Y" -> Ok([s EXCEPT !.h[o].m.Y = Append(@, s.h[c.h[1]].m)])
    [] c.f = "measure_append_D" -> Ok([s EXCEPT !.h[o].m.D = Append(@, s.h[c.h[1]].m)])
    [] c.f = "measure_append_A" -> Ok([s EXCEPT !.h[o].m.A = Append(@, s.h[c.h[1]].m)])
    [] c.f = "number_format_new" -> LET a == TextArg(c.s[1], c.z[1]) IN
         If(s, a.ok /\ Finite(c.n[1]), New(s, c, [k |-> "nf", m |-> [U |-> PStr(a.t), C |-> Dec(c.n[1])]]))

\* destinations
OptNum(d) == IF d = <<>> THEN "null" ELSE Dec(d[1])
StepDest(s, c) ==
  LET o == c.o n == c.n IN
  CASE c.f = "destination_new" -> New(s, c, [k |-> "dest", m |-> [page |-> 0, loc |-> "/XYZ null null null"]])
    [] c.f = "destination_set_page_fit" -> If(s, n[1] >= 0, Ok([s EXCEPT !.h[o].m = [page |-> n[1], loc |-> "/Fit"]]))
    [] c.f = "destination_set_page_xyz" ->
         If(s, n[1] >= 0 /\ \A k \in 1..3 : AllFinite(c.d[k]),
            Ok([s EXCEPT !.h[o].m = [page |-> n[1], loc |-> "/XYZ " \o OptNum(c.d[1]) \o " " \o OptNum(c.d[2]) \o " " \o OptNum(c.d[3])]]))

StepOutline(s, c) ==
  LET o == c.o n == c.n IN
  CASE c.f = "outline_new" -> New(s, c, [k |-> "outl", title |-> "", dest |-> <<>>, c |-> <<>>, fl |-> 0, parent |-> ""])
    [] c.f = "outline_set_title" -> LET a == TextArg(c.s[1], c.z[1]) IN If(s, a.ok, Ok([s EXCEPT !.h[o].title = a.t]))
    [] c.f = "outline_set_destination" -> Ok([s EXCEPT !.h[o].dest = <<s.h[c.h[1]].m>>])
    [] c.f = "outline_set_C" -> Ok([s EXCEPT !.h[o].c = ClampAll(n)])
    [] c.f = "outline_set_F" -> Ok([s EXCEPT !.h[o].fl = n[1]])
    [] c.f = "outline_set_parent" -> Ok([s EXCEPT !.h[o].parent = c.i[1]])

\* annotations: t = subtype, m = own keys, dest for links, parent for widgets
Annot(t, m) == [k |-> "annot", t |-> t, m |-> m, rect |-> <<>>, fl |-> 0, dest |-> <<>>, refs |-> {}, parent |-> ""]
StepAnnot(s, c) ==
  LET o == c.o n == c.n a == TextArg(c.s[1], c.z[1])
      only(t, r) == IF s.h[o].t = t THEN r ELSE Bad(s) IN
  CASE c.f = "text_annotation_new" -> If(s, a.ok, New(s, c, Annot("Text", "Contents" :> PStr(a.t))))
    [] c.f = "link_annotation_new" -> New(s, c, Annot("Link", NoM))
    [] c.f = "line_annotation_new" -> If(s, a.ok /\ AllFinite(n), New(s, c, Annot("Line", ("Contents" :> PStr(a.t)) @@ ("L" :> Arr(n)))))
    [] c.f = "file_attachment_annotation_new" ->
         New(s, c, [Annot("FileAttachment", "FS" :> RefTo(c.i[1])) EXCEPT !.refs = {<<"ef", c.i[1]>>}])
    [] c.f = "widget_annotation_new" -> New(s, c, Annot("Widget", NoM))
    [] c.f = "printers_mark_annotation_new" ->
         New(s, c, [Annot("PrinterMark", ("AP" :> "<<>>") @@ ("AP/N" :> RefTo(c.i[1]))) EXCEPT !.refs = {<<"form", c.i[1]>>}])
    [] c.f = "3d_annotation_new" -> New(s, c, Annot("3D", NoM))
    [] c.f = "annotation_set_destination" ->
         only("Link", Ok([s EXCEPT !.h[o].dest = <<s.h[c.h[1]].m>>, !.h[o].m = NoM]))
    [] c.f = "annotation_set_uri" -> LET u == AsciiArg(c.s[1], c.z[1]) IN
         IF ~u.ok THEN Bad(s) ELSE
         only("Link", Ok([s EXCEPT !.h[o].dest = <<>>,
                                   !.h[o].m = ("A" :> "<<>>") @@ ("A/S" :> "/URI") @@ ("A/URI" :> PStr(u.t))]))
    [] c.f = "annotation_set_rectangle" -> If(s, AllFinite(n), Ok([s EXCEPT !.h[o].rect = n]))
    [] c.f = "annotation_set_flags" -> Ok([s EXCEPT !.h[o].fl = n[1]])
    [] c.f = "annotation_set_3d_stream" ->
         only("3D", Ok([s EXCEPT !.h[o].m = ("3DD" :> RefTo(c.i[1])) @@ ("AP" :> "<<>>") @@ ("AP/N" :> "<<>>") @@ ("AS" :> "/N"),
                                 !.h[o].refs = {<<"3d", c.i[1]>>}]))
    [] c.f = "annotation_set_line_leader" ->
         only("Line", If(s, AllFinite(n), Ok([s EXCEPT !.h[o].m = Upd(Upd(@, "LL", Dec(n[1])), "LLE", Dec(n[2]))])))
    [] c.f = "annotation_set_line_endings" ->
         only("Line", If(s, InEnum(n[1], 9) /\ InEnum(n[2], 9),
              Put(s, o, "LE", "[/" \o LineEndNames[n[1] + 1] \o " /" \o LineEndNames[n[2] + 1] \o "]")))
    [] c.f = "annotation_set_parent_field" -> only("Widget", Ok([s EXCEPT !.h[o].parent = c.i[1]]))
    [] c.f = "annotation_set_widget_button_appearance" -> LET u == NameArg(c.s[1], c.z[1]) IN
         If(s, u.ok, only("Widget", Ok([s EXCEPT !.h[o].refs = {<<"form", c.i[1]>>, <<"form", c.i[2]>>},
              !.h[o].m = ("AS" :> "/Off") @@ ("AP" :> "<<>>") @@ ("AP/N" :> "<<>>") @@ (("AP/N/" \o u.t) :> RefTo(c.i[1]))
                         @@ ("AP/N/Off" :> RefTo(c.i[2]))])))

StepStructExtra(s, c) ==
  LET o == c.o a == TextArg(c.s[1], c.z[1]) IN
  CASE c.f = "struct_item_extra_data_new" -> NewM(s, c, "sx")
    [] c.f = "struct_item_extra_data_set_t" -> PutText(s, o, "T", a)
    [] c.f = "struct_item_extra_data_set_lang" -> PutText(s, o, "Lang", AsciiArg(c.s[1], c.z[1]))
    [] c.f = "struct_item_extra_data_set_alt" -> PutText(s, o, "Alt", a)
    [] c.f = "struct_item_extra_data_set_actual_text" -> PutText(s, o, "ActualText", a)

StepTags(s, c) ==
  IF c.f = "bdc_tags_new" THEN NewM(s, c, "tags") ELSE
  LET k == AsciiArg(c.s[1], c.z[1]) v == AsciiArg(c.s[2], c.z[2]) IN
  If(s, k.ok /\ v.ok /\ k.t # "", Ok([s EXCEPT !.h[c.o].m = Upd(@, k.t, v.t)]))

StepField(s, c) ==
  LET o == c.o n == c.n a == TextArg(c.s[1], c.z[1]) r == RawArg(c.s[1], c.z[1]) IN
  CASE c.f = "form_field_new" ->
         If(s, InEnum(n[1], 2), New(s, c, [k |-> "ff", t |-> n[1], m |-> "FT" :> <<"/Btn", "/Tx", "/Ch">>[n[1] + 1],
                                           opt |-> <<>>, v |-> "", vraw |-> <<>>, parent |-> ""]))
    [] c.f = "form_field_set_parent" -> Ok([s EXCEPT !.h[o].parent = c.i[1]])
    [] c.f = "form_field_set_T" -> PutText(s, o, "T", a)
    [] c.f = "form_field_set_Ff" -> Put(s, o, "Ff", UInt(n[1]))
    [] c.f = "form_field_set_V" -> If(s, c.s[1] # "null" /\ ~BadSize(c.z[1]), Ok([s EXCEPT !.h[o].v = c.s[1], !.h[o].vraw = r.cps]))
    [] c.f = "form_field_add_Opt_entry" -> If(s, a.ok /\ s.h[o].t = 2, Ok([s EXCEPT !.h[o].opt = Append(@, a.t)]))

StepFunction(s, c) ==
  LET fin == \A k \in DOMAIN c.d : AllFinite(c.d[k])
      fn(t, m, refs, out, dom) == New(s, c, [k |-> "fn", t |-> t, m |-> m @@ ("FunctionType" :> ToString(t)) @@ ("Domain" :> Arr(c.d[1])),
                                             refs |-> refs, okc |-> TRUE, out |-> out]) IN
  CASE c.f = "type2_function_new" ->
         LET c0 == s.h[c.h[1]] c1 == s.h[c.h[2]] IN
         If(s, fin /\ Finite(c.n[1]),
            New(s, c, [k |-> "fn", t |-> 2, m |-> ("FunctionType" :> "2") @@ ("Domain" :> Arr(c.d[1])) @@ ("N" :> Dec(c.n[1]))
                 @@ ("C0" :> Arr(c0.v)) @@ ("C1" :> Arr(c1.v)), refs |-> {}, okc |-> (c0.t = c1.t /\ c0.t \in {"rgb", "gray", "cmyk"}),
                 out |-> Len(c0.v)]))
    [] c.f = "type3_function_new" ->
         If(s, fin, New(s, c, [k |-> "fn", t |-> 3, m |-> ("FunctionType" :> "3") @@ ("Domain" :> Arr(c.d[1]))
                 @@ ("Functions" :> "[" \o Join([k \in DOMAIN c.ia[1] |-> RefTo(c.ia[1][k])], " ") \o "]")
                 @@ ("Bounds" :> Arr(c.d[2])) @@ ("Encode" :> Arr(c.d[3])),
                 refs |-> Range1(c.ia[1]), okc |-> (c.ia[1] # <<>>), out |-> 0]))
    [] c.f = "type4_function_new" -> LET a == RawArg(c.s[1], c.z[1]) IN
         If(s, fin /\ a.ok, New(s, c, [k |-> "fn", t |-> 4, m |-> ("FunctionType" :> "4") @@ ("Domain" :> Arr(c.d[1]))
                 @@ ("Range" :> Arr(c.d[2])) @@ ("data" :> PStr(a.t)), refs |-> {}, okc |-> TRUE, out |-> 0]))

\* mesh vertices as the reader decodes them
\* (to three decimals, as they are stored as fixed point fractions)
Coarse(x) == IF x \in {Third, FineN, Tiny, NTiny, NZero} THEN Rank(x) ELSE x
MeshCol(v) == NumStr([k \in DOMAIN v |-> Coarse(v[k])])
Vert(x, y, v) == "(" \o Dec(Coarse(x)) \o " " \o Dec(Coarse(y)) \o ")" \o MeshCol(v)
MeshBox(m) == m.box
\* a vertex outside the area of the mesh is moved to its border
Within(x, lo, hi) == LET v == Coarse(x) IN IF v < lo THEN lo ELSE IF v > hi THEN hi ELSE v
ClampTo(b, xs) == [k \in DOMAIN xs |-> IF k % 2 = 1 THEN Within(xs[k], b[1], b[3]) ELSE Within(xs[k], b[2], b[4])]
Points(xs) == Join([k \in 1..(Len(xs) \div 2) |-> Dec(xs[2*k - 1]) \o " " \o Dec(xs[2*k])], " ")
StepShading(s, c) ==
  LET o == c.o n == c.n
      cs(x) == IF InEnum(x, 2) THEN PName(CsNames[x + 1]) ELSE "?"
      cols == IF c.hh = <<>> THEN <<>> ELSE [k \in DOMAIN c.hh[1] |-> s.h[c.hh[1][k]]]
      pts == IF c.d = <<>> THEN <<>> ELSE ClampTo(s.h[o].box, c.d[1])
      tname == IF s.h[o].cs \in {0, 1, 2} THEN <<"rgb", "gray", "cmyk">>[s.h[o].cs + 1] ELSE "?" IN
  CASE c.f = "type2_shading_new" ->
         If(s, InEnum(n[1], 2) /\ AllFinite(SubSeq(n, 2, 5)),
            New(s, c, [k |-> "sh", t |-> 2, cs |-> n[1], m |-> ("ShadingType" :> "2") @@ ("ColorSpace" :> cs(n[1]))
               @@ ("Coords" :> Arr(SubSeq(n, 2, 5))) @@ ("Function" :> RefTo(c.i[1])), fn |-> c.i[1]]))
    [] c.f = "type3_shading_new" ->
         If(s, InEnum(n[1], 2) /\ AllFinite(c.d[1]),
            New(s, c, [k |-> "sh", t |-> 3, cs |-> n[1], m |-> ("ShadingType" :> "3") @@ ("ColorSpace" :> cs(n[1]))
               @@ ("Coords" :> Arr(c.d[1])) @@ ("Function" :> RefTo(c.i[1])), fn |-> c.i[1]]))
    [] c.f \in {"type4_shading_new", "type6_shading_new"} ->
         If(s, InEnum(n[1], 2) /\ AllFinite(Tail(n)),
            New(s, c, [k |-> "sh", t |-> IF c.f = "type4_shading_new" THEN 4 ELSE 6, cs |-> n[1],
               m |-> ("ShadingType" :> (IF c.f = "type4_shading_new" THEN "4" ELSE "6")) @@ ("ColorSpace" :> cs(n[1])),
               box |-> Tail(n), el |-> <<>>, bad |-> FALSE]))
    [] c.f = "shading_set_extend" ->
         If(s, s.h[o].t \in {2, 3} /\ IsBool(n[1]) /\ IsBool(n[2]), Put(s, o, "Extend", "[" \o Bool(n[1]) \o " " \o Bool(n[2]) \o "]"))
    [] c.f = "shading_set_domain" -> If(s, s.h[o].t \in {2, 3} /\ AllFinite(n), Put(s, o, "Domain", Arr(n)))
    [] c.f = "type4_shading_add_triangle" ->
         If(s, s.h[o].t = 4 /\ AllFinite(c.d[1]),
            Ok([s EXCEPT !.h[o].el = @ \o [k \in 1..3 |-> "0" \o Vert(pts[2*k - 1], pts[2*k], cols[k].v)],
                         !.h[o].bad = @ \/ \E k \in 1..3 : cols[k].t # tname]))
    [] c.f = "type4_shading_extend" ->
         If(s, s.h[o].t = 4 /\ AllFinite(c.d[1]) /\ n[1] \in {1, 2} /\ s.h[o].el # <<>>,
            LET col == s.h[c.h[1]] IN
            Ok([s EXCEPT !.h[o].el = Append(@, ToString(n[1]) \o Vert(pts[1], pts[2], col.v)),
                         !.h[o].bad = @ \/ col.t # tname]))
    [] c.f = "type6_shading_add_patch" ->
         If(s, s.h[o].t = 6 /\ AllFinite(c.d[1]),
            Ok([s EXCEPT !.h[o].el = Append(@, "0(" \o Points(pts) \o ")" \o Join([k \in 1..4 |-> MeshCol(cols[k].v)], ",")),
                         !.h[o].bad = @ \/ \E k \in 1..4 : cols[k].t # tname]))
    [] c.f = "type6_shading_extend" ->
         If(s, s.h[o].t = 6 /\ AllFinite(c.d[1]) /\ n[1] \in {1, 2, 3} /\ s.h[o].el # <<>>,
            Ok([s EXCEPT !.h[o].el = Append(@, ToString(n[1]) \o "(" \o Points(pts) \o ")" \o Join([k \in 1..2 |-> MeshCol(cols[k].v)], ",")),
                         !.h[o].bad = @ \/ \E k \in 1..2 : cols[k].t # tname]))

\* binary data is named; "fill:0:0" is no data at all
ImgData(x) == IF x = "fill:0:0" THEN "" ELSE x
\* how many bytes the named data has (used for data that is not compressed)
FillLen(x) == IF IsPre("fill:", x) THEN DecNum(x, 6, FindCh(x, ":", 6) - 1, 0) ELSE 0
NewRib == [k |-> "rib", w |-> 0, hh |-> 0, pd |-> 8, ad |-> 0, cs |-> 0, pix |-> "", al |-> "", cmp |-> 0, len |-> 0]

RECURSIVE BaseName(_)
BaseName(p) == IF HasSub(p, "/") THEN BaseName(SubSeq(p, FindCh(p, "/", 1) + 1, Len(p))) ELSE p

StepMisc(s, c) ==
  LET o == c.o n == c.n IN
  CASE c.f = "shading_pattern_new" -> New(s, c, [k |-> "shp", sh |-> c.i[1], m |-> NoM])
    [] c.f = "shading_pattern_set_matrix" -> PutIf(s, AllFinite(n), o, "Matrix", Arr(n))
    [] c.f = "soft_mask_new" -> If(s, InEnum(n[1], 1), New(s, c, [k |-> "sm", tg |-> c.i[1], m |-> "S" :> <<"/Alpha", "/Luminosity">>[n[1] + 1]]))
    [] c.f = "optional_content_group_new" -> LET a == TextArg(c.s[1], -1) IN If(s, a.ok, New(s, c, [k |-> "ocg", m |-> "Name" :> PStr(a.t)]))
    [] c.f = "image_pdf_properties_new" -> New(s, c, [k |-> "ipp", mask |-> 0, interp |-> 0, ri |-> 0])
    [] c.f = "image_pdf_properties_set_mask" -> If(s, IsBool(n[1]), Ok([s EXCEPT !.h[o].mask = n[1]]))
    [] c.f = "image_pdf_properties_set_interpolate" -> If(s, InEnum(n[1], 2), Ok([s EXCEPT !.h[o].interp = n[1]]))
    [] c.f = "image_pdf_properties_set_conversion_intent" -> If(s, InEnum(n[1], 3), Ok([s EXCEPT !.h[o].ri = n[1]]))
    [] c.f = "embedded_file_new" -> New(s, c, [k |-> "ef", name |-> "unnamed", raw |-> "unnamed", data |-> "fill:0:0", sub |-> ""])
    [] c.f = "embedded_file_set_contents" -> Ok([s EXCEPT !.h[o].data = c.s[1]])
    [] c.f = "embedded_file_load_file" -> LET b == BaseName(c.s[1]) IN If(s, c.s[1] \in FileTable, Ok([s EXCEPT !.h[o].data = "file:" \o c.s[1], !.h[o].name = b, !.h[o].raw = b]))
    [] c.f = "embedded_file_set_subtype" -> LET a == AsciiArg(c.s[1], c.z[1]) IN If(s, a.ok, Ok([s EXCEPT !.h[o].sub = a.t]))
    [] c.f = "embedded_file_set_pdf_name" -> LET a == TextArg(c.s[1], c.z[1]) IN If(s, a.ok, Ok([s EXCEPT !.h[o].name = a.t, !.h[o].raw = c.s[1]]))
    [] c.f = "3d_stream_new" -> If(s, InEnum(n[1], 1) /\ c.s[1] \in FileTable, New(s, c, [k |-> "3ds", m |-> ("Subtype" :> <<"/U3D", "/PRC">>[n[1] + 1]) @@ ("data" :> "file:" \o c.s[1])]))
    [] c.f = "font_properties_new" -> New(s, c, [k |-> "fp", sub |-> 0, inst |-> "", var |-> NoM])
    [] c.f = "font_properties_set_subfont" -> If(s, n[1] >= 0 /\ n[1] < 65536, Ok([s EXCEPT !.h[o].sub = n[1]]))
    [] c.f = "font_properties_set_named_instance" -> Ok([s EXCEPT !.h[o].inst = UInt(n[1])])
    [] c.f = "font_properties_set_variation" -> LET a == RawArg(c.s[1], c.z[1]) IN
         If(s, a.ok /\ (\A k \in DOMAIN a.cps : a.cps[k] # 0), Ok([s EXCEPT !.h[o].var = Upd(@, a.t, n[1])]))
    [] c.f = "collection_new" -> NewM(s, c, "coll")
    [] c.f = "collection_set_D" -> LET a == RawArg(c.s[1], c.z[1]) IN PutText(s, o, "D", a)
    [] c.f = "collection_set_view" -> PutEnum(s, o, "View", CollViewNames, n[1])
    [] c.f = "collection_set_schema" -> Ok([s EXCEPT !.h[o].m = [k \in {k \in DOMAIN @ : ~IsPre("Schema", k)} |-> @[k]]
         @@ ("Schema" :> "<<>>") @@ [p \in {"Schema/" \o k : k \in DOMAIN s.h[c.h[1]].m} |-> s.h[c.h[1]].m[SubSeq(p, 8, Len(p))]]])
    [] c.f = "collection_schema_new" -> NewM(s, c, "schema")
    [] c.f = "collection_schema_add_entry" -> LET a == AsciiArg(c.s[1], c.z[1]) e == s.h[c.h[1]].m IN
         If(s, a.ok /\ a.t # "" /\ a.cps[1] # 47,
            Ok([s EXCEPT !.h[o].m = [k \in {k \in DOMAIN @ : k # a.t /\ ~IsPre(a.t \o "/", k)} |-> @[k]] @@ (a.t :> "<<>>")
                 @@ [p \in {a.t \o "/" \o k : k \in DOMAIN e} |-> e[SubSeq(p, Len(a.t) + 2, Len(p))]],
                 !.h[c.h[1]].k = "gone"]))
    [] c.f = "collection_field_new" -> LET a == TextArg(c.s[1], c.z[1]) IN
         If(s, InEnum(n[1], 8) /\ a.ok, New(s, c, [k |-> "cf", m |-> ("Subtype" :> PName(CollSubNames[n[1] + 1])) @@ ("N" :> PStr(a.t))]))
    [] c.f = "collection_field_set_O" -> Put(s, o, "O", ToString(n[1]))
    [] c.f = "collection_field_set_V" -> PutIf(s, IsBool(n[1]), o, "V", Bool(n[1]))
    [] c.f = "collection_field_set_E" -> PutIf(s, IsBool(n[1]), o, "E", Bool(n[1]))

\* Raster images.  pix/alpha are the supplied data (named blobs); d = default depth 8.
StepRaster(s, c) ==
  LET o == c.o n == c.n IN
  CASE c.f = "raster_image_builder_new" -> New(s, c, NewRib)
    [] c.f = "raster_image_builder_set_size" -> Ok([s EXCEPT !.h[o].w = n[1], !.h[o].hh = n[2]])
    [] c.f = "raster_image_builder_set_pixel_depth" -> Ok([s EXCEPT !.h[o].pd = n[1]])
    [] c.f = "raster_image_builder_set_alpha_depth" -> Ok([s EXCEPT !.h[o].ad = n[1]])
    [] c.f = "raster_image_builder_set_pixel_data" -> Ok([s EXCEPT !.h[o].pix = ImgData(c.s[1]), !.h[o].len = FillLen(c.s[1])])
    [] c.f = "raster_image_builder_set_alpha_data" -> Ok([s EXCEPT !.h[o].al = ImgData(c.s[1])])
    [] c.f = "raster_image_builder_set_colorspace" -> If(s, InEnum(n[1], 2), Ok([s EXCEPT !.h[o].cs = n[1]]))
    [] c.f = "raster_image_builder_set_input_data_compression_format" -> If(s, InEnum(n[1], 1), Ok([s EXCEPT !.h[o].cmp = n[1]]))
    [] c.f = "raster_image_builder_build" ->
         Ok(PutH([s EXCEPT !.h[o] = NewRib],
                 c.out, [s.h[o] EXCEPT !.k = "img"] @@ [src |-> "raw", icc |-> "", dec |-> 0]))
    [] c.f = "raster_image_get_size" -> OkVal(s, <<s.h[o].w, s.h[o].hh>>)
    [] c.f = "raster_image_get_colorspace" -> IF s.h[o].src = "raw" THEN OkVal(s, <<s.h[o].cs>>) ELSE Bad(s)
    [] c.f = "raster_image_has_profile" -> IF s.h[o].src = "raw" THEN OkVal(s, <<IF s.h[o].icc = "" THEN 0 ELSE 1>>) ELSE Bad(s)

\* Document properties
XNames == <<"PDF/X-1:2001", "PDF/X-1a:2001", "PDF/X-1a:2003", "PDF/X-3:2002", "PDF/X-3:2003", "PDF/X-4", "PDF/X-4p",
  "PDF/X-5g", "PDF/X-5pg", "PDF/X-6", "PDF/X-6p", "PDF/X-6n">>
XVersion == <<"1.3", "1.3", "1.3", "1.3", "1.3", "1.6", "1.6", "1.6", "1.6", "2.0", "2.0", "2.0">>
APart == <<"1", "1", "2", "2", "2", "3", "3", "3", "4", "4">>
AConf == <<"A", "B", "A", "B", "U", "A", "B", "U", "F", "E">>
A4Mediabox == <<0, 0, 595276, 841889>>
NewProps == [k |-> "dp", m |-> NoM, pp |-> "MediaBox" :> "?A4", ptg |-> <<>>, cs |-> 0, prof |-> [x \in {} |-> ""],
             oi |-> "", sub |-> <<>>, tagged |-> 0, layout |-> "", mode |-> "", lang |-> "", xml |-> ""]
StepProps(s, c) ==
  LET o == c.o n == c.n a == TextArg(c.s[1], c.z[1]) IN
  CASE c.f = "document_properties_new" -> New(s, c, NewProps)
    [] c.f = "document_properties_set_title" -> PutText(s, o, "Title", a)
    [] c.f = "document_properties_set_author" -> PutText(s, o, "Author", a)
    [] c.f = "document_properties_set_creator" -> PutText(s, o, "Creator", a)
    [] c.f = "document_properties_set_language" -> LET b == AsciiArg(c.s[1], c.z[1]) IN If(s, b.ok, Ok([s EXCEPT !.h[o].lang = b.t]))
    [] c.f = "document_properties_set_device_profile" -> If(s, InEnum(n[1], 2), Ok([s EXCEPT !.h[o].prof = Upd(@, n[1], c.s[1])]))
    [] c.f = "document_properties_set_colorspace" -> If(s, InEnum(n[1], 2), Ok([s EXCEPT !.h[o].cs = n[1]]))
    [] c.f = "document_properties_set_output_intent" -> If(s, a.ok, Ok([s EXCEPT !.h[o].oi = a.t]))
    [] c.f = "document_properties_set_pdfx" -> If(s, InEnum(n[1], 11), Ok([s EXCEPT !.h[o].sub = <<"X", n[1]>>]))
    [] c.f = "document_properties_set_pdfa" -> If(s, InEnum(n[1], 9), Ok([s EXCEPT !.h[o].sub = <<"A", n[1]>>]))
    [] c.f = "document_properties_set_default_page_properties" ->
         LET p == s.h[c.h[1]] IN If(s, "MediaBox" \in DOMAIN p.m, Ok([s EXCEPT !.h[o].pp = p.m, !.h[o].ptg = p.tg]))
    [] c.f = "document_properties_set_tagged" -> If(s, IsBool(n[1]), Ok([s EXCEPT !.h[o].tagged = n[1]]))
    [] c.f = "document_properties_set_page_layout" -> If(s, InEnum(n[1], 5), Ok([s EXCEPT !.h[o].layout = LayoutNames[n[1] + 1]]))
    [] c.f = "document_properties_set_page_mode" -> If(s, InEnum(n[1], 5), Ok([s EXCEPT !.h[o].mode = ModeNames[n[1] + 1]]))
    [] c.f = "document_properties_set_metadata_xml" -> If(s, a.ok /\ HasSub(a.t, "pdf:Producer>CapyPDF"), Ok([s EXCEPT !.h[o].xml = a.t]))
=============================================================================
