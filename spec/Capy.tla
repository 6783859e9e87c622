-------------------------------- MODULE Capy ---------------------------------
(* The whole interface: one step of the system for any call.                  *)
EXTENDS CapyView

\* A document without pages cannot be written yet; an attempt to write any other document is its last.
StepWrite(s, c) ==
  LET gen == s.h[c.o]  s1 == [s EXCEPT !.h[c.o].w = 1] IN
  IF gen.pages = <<>> \/ gen.w > 0 THEN Bad(s) ELSE
  IF CanWrite(gen) THEN Ok(s1) ELSE Bad(s1)
IsSuf(p, f) == Len(f) >= Len(p) /\ SubSeq(f, Len(f) - Len(p) + 1, Len(f)) = p
\* destroying a context also ends the texts made for it (they may no longer be used)
StepDestroy(s, c) == Ok([s EXCEPT !.h = [x \in {x \in DOMAIN @ : x # c.o /\ ~(@[x].k = "text" /\ @[x].dc = c.o)
                                              /\ ~(@[x].k \in {"dc", "text"} /\ s.h[c.o].k = "gen" /\
                                                   (IF @[x].k = "dc" THEN @[x].g = c.o ELSE s.h[@[x].dc].g = c.o))} |-> @[x]]])

Step(s, c) ==
  LET f == c.f IN
  IF IsSuf("_destroy", f) THEN StepDestroy(s, c) ELSE
  IF f = "generator_write" THEN StepWrite(s, c) ELSE
  IF IsPre("dc_", f) THEN StepDc(s, c) ELSE
  IF IsPre("text_sequence_", f) THEN StepSeq(s, c) ELSE
  IF IsPre("text_annotation", f) THEN StepAnnot(s, c) ELSE
  IF IsPre("text_", f) THEN StepText(s, c) ELSE
  IF IsPre("generator_", f) \/ f \in {"page_draw_context_new", "form_xobject_new", "transparency_group_new",
     "tiling_pattern_context_new"} THEN StepGen(s, c) ELSE
  IF IsPre("color_", f) THEN StepColor(s, c) ELSE
  IF IsPre("transition_", f) THEN StepTransition(s, c) ELSE
  IF IsPre("graphics_state_", f) THEN StepGstate(s, c) ELSE
  IF IsPre("halftone_", f) THEN StepHalftone(s, c) ELSE
  IF IsPre("transparency_group_properties_", f) THEN StepTgp(s, c) ELSE
  IF IsPre("page_properties_", f) THEN StepPageProps(s, c) ELSE
  IF IsPre("viewport_", f) \/ IsPre("measure_", f) \/ IsPre("number_format_", f) THEN StepMeasure(s, c) ELSE
  IF IsPre("destination_", f) THEN StepDest(s, c) ELSE
  IF IsPre("outline_", f) THEN StepOutline(s, c) ELSE
  IF IsPre("annotation_", f) \/ IsSuf("_annotation_new", f) THEN StepAnnot(s, c) ELSE
  IF IsPre("struct_item_extra", f) THEN StepStructExtra(s, c) ELSE
  IF IsPre("bdc_tags_", f) THEN StepTags(s, c) ELSE
  IF IsPre("form_field_", f) THEN StepField(s, c) ELSE
  IF IsPre("type", f) /\ IsSuf("_function_new", f) THEN StepFunction(s, c) ELSE
  IF IsPre("shading_set", f) \/ (IsPre("type", f)) THEN StepShading(s, c) ELSE
  IF IsPre("raster_image_", f) THEN StepRaster(s, c) ELSE
  IF IsPre("document_properties_", f) THEN StepProps(s, c) ELSE
  StepMisc(s, c)

\* Calls whose outcome nothing documents; histories do not make them.
ZData(x) == x = "" \/ IsPre("zfill:", x)
Documented(s, c) ==
  /\ c.f = "generator_load_font" => LET fp == FontProps(s, c) IN FaceExists(c.s[1], fp) => Faces(c.s[1], fp) # {}
  /\ c.f = "generator_text_width" =>
       LET t == TextArg(c.s[1], c.z[1])  gen == s.h[c.o] IN
       t.ok /\ HasId(gen, c.i[1], "font") =>
         c.n[1] > 0 /\ c.n[1] <= 100000 /\ Len(t.cps) <= 30 /\ \A k \in DOMAIN t.cps : FontHas(gen.obj[c.i[1]].font, t.cps[k])
  /\ c.f = "generator_add_image" =>
       LET im == s.h[c.h[1]] IN (im.cmp = 1 => ZData(im.pix) /\ ZData(im.al)) /\ (im.al # "" => im.ad > 0)
  /\ c.f \in {"dc_cmd_BDC_testing", "bdc_tags_add_tag"} =>
       LET a == AsciiArg(c.s[1], c.z[1]) IN a.ok => (a.t # "" /\ a.cps[1] # 47)
  \* pointers are not null unless the header says they may be
  /\ (\E k \in DOMAIN c.s : c.s[k] = "null") => c.f = "generator_add_page_labeling"

S0 == [h |-> [x \in {} |-> 0]]
RECURSIVE Run(_, _)
Run(s, cs) == IF cs = <<>> THEN s ELSE Run(Step(s, Head(cs)).s, Tail(cs))
=============================================================================
