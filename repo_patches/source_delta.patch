From c1c123d951b9643b773605154c63d92f9b220242 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:12 +0000
Subject: [PATCH 01/92] fix: a cleared draw context forgets its structure items
 and form XObjects

---
 src/drawcontext.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/drawcontext.cpp b/src/drawcontext.cpp
index 1559156..35e14df 100644
--- a/src/drawcontext.cpp
+++ b/src/drawcontext.cpp
@@ -128,8 +128,10 @@ void PdfDrawContext::clear() {
     used_shadings.clear();
     used_patterns.clear();
     used_annotations.clear();
+    used_structures.clear();
     used_ocgs.clear();
     used_trgroups.clear();
+    used_form_xobjects.clear();
     sub_navigations.clear();
     transition.reset();
     viewports.clear();
-- 
2.43.0


From 6f496671dfb49126458d32a86949f944cdd83b44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:46 +0000
Subject: [PATCH 02/92] fix: a refused marked content or text begin leaves the
 command stream alone

---
 src/commandstreamformatter.cpp |  3 +++
 src/drawcontext.cpp            | 17 +++++++++++++----
 2 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/commandstreamformatter.cpp b/src/commandstreamformatter.cpp
index 86462b1..bbdd2ab 100644
--- a/src/commandstreamformatter.cpp
+++ b/src/commandstreamformatter.cpp
@@ -69,6 +69,9 @@ void CommandStreamFormatter::append_dict_entry_string(const char *key, const cha
 }
 
 rvoe<NoReturnValue> CommandStreamFormatter::BT() {
+    if(has_state(DrawStateType::Text)) {
+        RETERR(DrawStateEndMismatch);
+    }
     append("BT");
     ERCV(indent(DrawStateType::Text));
     RETOK;
diff --git a/src/drawcontext.cpp b/src/drawcontext.cpp
index 35e14df..0458c60 100644
--- a/src/drawcontext.cpp
+++ b/src/drawcontext.cpp
@@ -286,14 +286,21 @@ rvoe<NoReturnValue> PdfDrawContext::cmd_BDC(const asciistring &name,
         fprintf(stderr, "%s", "Must specify sid or attributes. Otherwise use BMC.\n");
         std::abort();
     }
+    if(cmds.marked_content_depth() > 0) {
+        RETERR(NestedBMC);
+    }
+    std::optional<int32_t> MCID_id;
+    if(sid) {
+        ERC(new_id, add_bcd_structure(sid.value()));
+        MCID_id = new_id;
+    }
     cmds.append_indent();
     cmds.append_raw("/");
     cmds.append_raw(name.sv());
     cmds.append_raw(" <<\n");
     ERCV(cmds.indent(DrawStateType::Dictionary));
-    if(sid) {
-        ERC(MCID_id, add_bcd_structure(sid.value()));
-        cmds.append_dict_entry("/MCID", MCID_id);
+    if(MCID_id) {
+        cmds.append_dict_entry("/MCID", MCID_id.value());
     }
     if(attributes) {
         for(const auto &[key, value] : *attributes) {
@@ -309,6 +316,7 @@ rvoe<NoReturnValue> PdfDrawContext::cmd_BDC(const asciistring &name,
 
 rvoe<NoReturnValue> PdfDrawContext::cmd_BDC(CapyPDF_StructureItemId sid,
                                             const BDCTags *attributes) {
+    CHECK_INDEXNESS(sid.id, doc->structure_items);
     const auto &itemtype = doc->structure_items.at(sid.id).stype;
     if(auto builtin = std::get_if<CapyPDF_Structure_Type>(&itemtype)) {
         ERC(astr, asciistring::from_cstr(structure_type_names.at(*builtin)));
@@ -323,8 +331,9 @@ rvoe<NoReturnValue> PdfDrawContext::cmd_BDC(CapyPDF_StructureItemId sid,
 }
 
 rvoe<NoReturnValue> PdfDrawContext::cmd_BDC(CapyPDF_OptionalContentGroupId ocgid) {
-    used_ocgs.insert(ocgid);
+    CHECK_INDEXNESS(ocgid.id, doc->ocg_items);
     ERCV(cmds.indent(DrawStateType::MarkedContent));
+    used_ocgs.insert(ocgid);
     auto cmd = std::format("/OC /oc{} BDC\n", doc->ocg_object_number(ocgid));
     cmds.append(cmd);
     RETOK;
-- 
2.43.0


From 4fb17c3d4dd8c7a7e9544ec0cb83263ce855a461 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:46 +0000
Subject: [PATCH 03/92] fix: carriage returns in strings and slashes in file
 specifications are written as they were given

---
 src/utils.cpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/utils.cpp b/src/utils.cpp
index 1c55548..0d83d19 100644
--- a/src/utils.cpp
+++ b/src/utils.cpp
@@ -276,6 +276,10 @@ std::string pdfstring_quote(std::string_view raw_string) {
         case '\\':
             result.push_back('\\');
             break;
+        case '\r':
+            // An unescaped carriage return is read back as a line feed.
+            result += "\\r";
+            continue;
         default:
             break;
         }
@@ -302,6 +306,9 @@ std::string u8str2u8textstring(std::string_view u8string) {
         case '\\':
             result.push_back('\\');
             break;
+        case '\r':
+            result += "\\r";
+            continue;
         default:
             break;
         }
@@ -326,9 +333,12 @@ std::string u8str2filespec(const u8string &str) {
         case '\\':
             result.push_back('\\');
             break;
+        case '\r':
+            result += "\\r";
+            continue;
         case '/':
             result += escaped_slash;
-            break;
+            continue;
         default:
             break;
         }
-- 
2.43.0


From 1cd374a4a4b75d77fe084cd13f4eb828425387d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:46 +0000
Subject: [PATCH 04/92] fix: all PDF delimiters are escaped in names

---
 src/utils.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/utils.cpp b/src/utils.cpp
index 0d83d19..3673a2c 100644
--- a/src/utils.cpp
+++ b/src/utils.cpp
@@ -77,7 +77,8 @@ bool needs_quoting(const unsigned char c) {
     if(c < '!' || c > '~') {
         return true;
     }
-    if(c == '#' || c == '(' || c == ')' || c == ' ' || c == '/') {
+    if(c == '#' || c == '(' || c == ')' || c == '/' || c == '<' || c == '>' || c == '[' || c == ']' ||
+       c == '{' || c == '}' || c == '%') {
         return true;
     }
     return false;
-- 
2.43.0


From b454f3a30bb6c460a81285d290dc73e439d1956e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:31 +0000
Subject: [PATCH 05/92] fix: marked content tags and attributes are quoted, and
 attributes are required where they are needed

---
 src/capi.cpp                   | 9 ++++++++-
 src/commandstreamformatter.cpp | 7 ++++---
 src/drawcontext.cpp            | 2 +-
 3 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/capi.cpp b/src/capi.cpp
index cea91c4..382deff 100644
--- a/src/capi.cpp
+++ b/src/capi.cpp
@@ -1017,7 +1017,14 @@ CAPYPDF_PUBLIC CapyPDF_EC capy_dc_cmd_BDC_testing(CapyPDF_DrawContext *ctx,
     if(!astr) {
         return conv_err(astr.error());
     }
-    return conv_err(dc->cmd_BDC(astr.value(), {}, tags ? &tags->tags : nullptr));
+    if(!tags) {
+        return conv_err(ErrorCode::ArgIsNull);
+    }
+    auto quoted = asciistring::from_cstr(bytes2pdfstringliteral(astr.value().sv(), false));
+    if(!quoted) {
+        return conv_err(quoted.error());
+    }
+    return conv_err(dc->cmd_BDC(quoted.value(), {}, &tags->tags));
     API_BOUNDARY_END;
 }
 
diff --git a/src/commandstreamformatter.cpp b/src/commandstreamformatter.cpp
index bbdd2ab..40cfdb4 100644
--- a/src/commandstreamformatter.cpp
+++ b/src/commandstreamformatter.cpp
@@ -2,6 +2,7 @@
 // Copyright 2025 Jussi Pakkanen
 
 #include <commandstreamformatter.hpp>
+#include <utils.hpp>
 #include <format>
 #include <cassert>
 
@@ -62,10 +63,10 @@ void CommandStreamFormatter::append_dict_entry(std::string_view key, int32_t val
 
 void CommandStreamFormatter::append_dict_entry_string(const char *key, const char *value) {
     if(key[0] == '/') {
-        std::format_to(appender, "{}{} ({})\n", lead, key, value);
-    } else {
-        std::format_to(appender, "{}/{} ({})\n", lead, key, value);
+        ++key;
     }
+    std::format_to(
+        appender, "{}{} {}\n", lead, bytes2pdfstringliteral(key), pdfstring_quote(value));
 }
 
 rvoe<NoReturnValue> CommandStreamFormatter::BT() {
diff --git a/src/drawcontext.cpp b/src/drawcontext.cpp
index 0458c60..82b765a 100644
--- a/src/drawcontext.cpp
+++ b/src/drawcontext.cpp
@@ -344,7 +344,7 @@ rvoe<NoReturnValue> PdfDrawContext::cmd_BMC(std::string_view tag) {
         RETERR(SlashStart);
     }
     ERCV(cmds.indent(DrawStateType::MarkedContent));
-    auto cmd = std::format("/{} BMC\n", tag);
+    auto cmd = std::format("{} BMC\n", bytes2pdfstringliteral(tag));
     cmds.append(cmd);
     RETOK;
 }
-- 
2.43.0


From acee699a846fbcdd25d1376e384e69fd476cd5a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:50 +0000
Subject: [PATCH 06/92] fix: text that can not be rendered leaves nothing in
 the draw context

---
 src/commandstreamformatter.cpp |  6 ++++++
 src/commandstreamformatter.hpp |  9 +++++++++
 src/drawcontext.cpp            | 29 ++++++++++++++++++++++++-----
 3 files changed, 39 insertions(+), 5 deletions(-)

diff --git a/src/commandstreamformatter.cpp b/src/commandstreamformatter.cpp
index 40cfdb4..2f23abe 100644
--- a/src/commandstreamformatter.cpp
+++ b/src/commandstreamformatter.cpp
@@ -114,6 +114,12 @@ void CommandStreamFormatter::clear() {
     buf.clear();
 }
 
+void CommandStreamFormatter::rollback(const Checkpoint &c) {
+    buf.resize(c.bufsize);
+    lead = c.lead;
+    stack = c.stack;
+}
+
 rvoe<NoReturnValue> CommandStreamFormatter::indent(DrawStateType stype) {
     if(stype == DrawStateType::Text && has_state(stype)) {
         RETERR(DrawStateEndMismatch); // FIXME
diff --git a/src/commandstreamformatter.hpp b/src/commandstreamformatter.hpp
index c1879a0..24a1543 100644
--- a/src/commandstreamformatter.hpp
+++ b/src/commandstreamformatter.hpp
@@ -64,6 +64,15 @@ public:
 
     bool has_unclosed_state() const { return !stack.empty(); }
 
+    struct Checkpoint {
+        size_t bufsize;
+        std::string lead;
+        std::vector<DrawStateType> stack;
+    };
+
+    Checkpoint checkpoint() const { return Checkpoint{buf.size(), lead, stack}; }
+    void rollback(const Checkpoint &c);
+
 private:
     bool has_state(DrawStateType stype);
 
diff --git a/src/drawcontext.cpp b/src/drawcontext.cpp
index 82b765a..d6a1b73 100644
--- a/src/drawcontext.cpp
+++ b/src/drawcontext.cpp
@@ -970,6 +970,7 @@ rvoe<NoReturnValue> PdfDrawContext::render_text(const PdfText &textobj) {
         [&](const StructureItem &sitem) -> rvoe<NoReturnValue> {
             // FIXME, convert to a serialize method and make
             // this and cmd_BDC use that.
+            CHECK_INDEXNESS(sitem.sid.id, doc->structure_items);
             ERC(mcid_id, add_bcd_structure(sitem.sid));
             auto item = doc->structure_items.at(sitem.sid.id).stype;
             if(auto itemid = std::get_if<CapyPDF_Structure_Type>(&item)) {
@@ -1105,12 +1106,30 @@ rvoe<NoReturnValue> PdfDrawContext::render_text(const PdfText &textobj) {
             RETOK;
         },
     };
-    ERCV(cmds.BT());
-    for(const auto &e : textobj.get_events()) {
-        ERCV(std::visit(visitor, e));
+    // Text that can not be rendered must not leave anything behind.
+    const auto checkpoint = cmds.checkpoint();
+    const auto saved_colorspaces = used_colorspaces;
+    const auto saved_fonts = used_external_fonts;
+    const auto saved_gstates = used_gstates;
+    const auto saved_patterns = used_patterns;
+    const auto saved_structures = used_structures;
+    auto render_events = [&]() -> rvoe<NoReturnValue> {
+        ERCV(cmds.BT());
+        for(const auto &e : textobj.get_events()) {
+            ERCV(std::visit(visitor, e));
+        }
+        return cmds.ET();
+    };
+    auto rc = render_events();
+    if(!rc) {
+        cmds.rollback(checkpoint);
+        used_colorspaces = saved_colorspaces;
+        used_external_fonts = saved_fonts;
+        used_gstates = saved_gstates;
+        used_patterns = saved_patterns;
+        used_structures = saved_structures;
     }
-    ERCV(cmds.ET());
-    RETOK;
+    return rc;
 }
 
 rvoe<NoReturnValue> PdfDrawContext::validate_text_contents(const PdfText &text) {
-- 
2.43.0


From 0550c320863a72d924398e21d0a2e53040b3aef8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:50 +0000
Subject: [PATCH 07/92] fix: a text sequence is well formed whatever its first
 element is

---
 src/drawcontext.cpp | 42 ++++++++++++++++++++++--------------------
 1 file changed, 22 insertions(+), 20 deletions(-)

diff --git a/src/drawcontext.cpp b/src/drawcontext.cpp
index d6a1b73..e32ee8d 100644
--- a/src/drawcontext.cpp
+++ b/src/drawcontext.cpp
@@ -805,23 +805,30 @@ rvoe<NoReturnValue> PdfDrawContext::serialize_charsequence(const TextEvents &cha
                                                            CommandStreamFormatter &serialisation,
                                                            CapyPDF_FontId &current_font) {
     CHECK_INDEXNESS(current_font.id, doc->font_objects);
-    bool is_first = true;
+    bool in_array = false;
+    auto open_array = [&serialisation, &in_array]() {
+        if(!in_array) {
+            serialisation.append_indent();
+            serialisation.append_raw("[ ");
+            in_array = true;
+        }
+    };
+    auto close_array = [&serialisation, &in_array]() {
+        if(in_array) {
+            serialisation.append_raw("] TJ\n");
+            in_array = false;
+        }
+    };
     auto glyph_appender_lambda =
-        [this, &serialisation, &is_first](const SubsetGlyph &current_subset_glyph) {
+        [this, &serialisation, &open_array](const SubsetGlyph &current_subset_glyph) {
             used_external_fonts.insert(current_subset_glyph.ss);
-            if(is_first) {
-                serialisation.append_indent();
-                serialisation.append_raw("[ ");
-            }
+            open_array();
             auto glyphid = std::format("<{:04x}> ", current_subset_glyph.glyph_id);
             serialisation.append_raw(glyphid);
         };
     for(const auto &e : charseq) {
         if(auto kval = std::get_if<KerningValue>(&e)) {
-            if(is_first) {
-                serialisation.append_indent();
-                serialisation.append_raw("[ ");
-            }
+            open_array();
             auto v = std::format("{} ", kval->v);
             serialisation.append_raw(v);
         } else if(auto uglyph = std::get_if<UnicodeCharacter>(&e)) {
@@ -834,10 +841,7 @@ rvoe<NoReturnValue> PdfDrawContext::serialize_charsequence(const TextEvents &cha
             }
             ERC(subset, doc->get_subset_glyph(current_font, *u8str->begin(), {}));
             used_external_fonts.insert(subset.ss);
-            if(is_first) {
-                serialisation.append_indent();
-                serialisation.append_raw("[ ");
-            }
+            open_array();
             serialisation.append_raw("<");
             for(const auto codepoint : *u8str) {
                 ERC(current_subset_glyph, doc->get_subset_glyph(current_font, codepoint, {}));
@@ -847,13 +851,12 @@ rvoe<NoReturnValue> PdfDrawContext::serialize_charsequence(const TextEvents &cha
             serialisation.append_raw("> ");
         } else if(auto actualtext = std::get_if<ActualTextStart>(&e)) {
             auto u16 = utf8_to_pdfutf16be(actualtext->text);
-            serialisation.append_raw("] TJ\n");
+            close_array();
             auto cmd = std::format("/Span << /ActualText {} >> BDC", u16);
             serialisation.append(cmd);
-            serialisation.append_raw("[");
         } else if(std::holds_alternative<ActualTextEnd>(e)) {
-            serialisation.append_raw("] TJ\n");
-            serialisation.append("EMC [");
+            close_array();
+            serialisation.append("EMC");
         } else if(auto glyphitem = std::get_if<GlyphItem>(&e)) {
             ERC(current_subset_glyph,
                 doc->get_subset_glyph(
@@ -868,9 +871,8 @@ rvoe<NoReturnValue> PdfDrawContext::serialize_charsequence(const TextEvents &cha
             fprintf(stderr, "Not implemented yet.\n");
             std::abort();
         }
-        is_first = false;
     }
-    serialisation.append_raw("] TJ\n");
+    close_array();
     RETOK;
 }
 
-- 
2.43.0


From 05e3d74795c0d493e1a4e1d79858ff08a284dafe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:05 +0000
Subject: [PATCH 08/92] fix: text with missing glyphs or fonts is refused
 before any of it is used

---
 src/drawcontext.cpp | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/src/drawcontext.cpp b/src/drawcontext.cpp
index e32ee8d..c795a2d 100644
--- a/src/drawcontext.cpp
+++ b/src/drawcontext.cpp
@@ -1138,14 +1138,15 @@ rvoe<NoReturnValue> PdfDrawContext::validate_text_contents(const PdfText &text)
     std::optional<CapyPDF_FontId> font;
     for(const auto &e : text.get_events()) {
         if(const auto *Tf = std::get_if<Tf_arg>(&e)) {
+            CHECK_INDEXNESS(Tf->font.id, doc->font_objects);
             font = Tf->font;
         } else if(const auto *text_arg = std::get_if<Tj_arg>(&e)) {
             if(!font) {
                 RETERR(FontNotSpecified);
-                for(const auto &codepoint : text_arg->text) {
-                    if(!doc->font_has_character(font.value(), codepoint)) {
-                        RETERR(MissingGlyph);
-                    }
+            }
+            for(const auto &codepoint : text_arg->text) {
+                if(!doc->font_has_character(font.value(), codepoint)) {
+                    RETERR(MissingGlyph);
                 }
             }
         } else if(const auto *TJ = std::get_if<TJ_arg>(&e)) {
@@ -1156,11 +1157,11 @@ rvoe<NoReturnValue> PdfDrawContext::validate_text_contents(const PdfText &text)
                 if(const auto *unicode = std::get_if<UnicodeCharacter>(&te)) {
                     if(!doc->font_has_character(font.value(), unicode->codepoint)) {
                         RETERR(MissingGlyph);
-                    } else if(const auto *u8str = std::get_if<u8string>(&te)) {
-                        for(const auto &codepoint : *u8str) {
-                            if(!doc->font_has_character(font.value(), codepoint)) {
-                                RETERR(MissingGlyph);
-                            }
+                    }
+                } else if(const auto *u8str = std::get_if<u8string>(&te)) {
+                    for(const auto &codepoint : *u8str) {
+                        if(!doc->font_has_character(font.value(), codepoint)) {
+                            RETERR(MissingGlyph);
                         }
                     }
                 }
-- 
2.43.0


From ba342fbf85c8c7e2f88a3d2b88272a579744313a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:19 +0000
Subject: [PATCH 09/92] fix: every kind of colour can be used in text

---
 src/drawcontext.cpp | 67 ++-------------------------------------------
 1 file changed, 2 insertions(+), 65 deletions(-)

diff --git a/src/drawcontext.cpp b/src/drawcontext.cpp
index c795a2d..5965ecc 100644
--- a/src/drawcontext.cpp
+++ b/src/drawcontext.cpp
@@ -996,73 +996,10 @@ rvoe<NoReturnValue> PdfDrawContext::render_text(const PdfText &textobj) {
 
         [&](const Emc_arg &) -> rvoe<NoReturnValue> { return cmds.EMC(); },
 
-        [&](const Stroke_arg &sarg) -> rvoe<NoReturnValue> {
-            if(auto rgb = std::get_if<DeviceRGBColor>(&sarg.c)) {
-                ERCV(serialize_RG(rgb->r, rgb->g, rgb->b));
-            } else if(auto gray = std::get_if<DeviceGrayColor>(&sarg.c)) {
-                ERCV(serialize_G(gray->v));
-            } else if(auto cmyk = std::get_if<DeviceCMYKColor>(&sarg.c)) {
-                ERCV(serialize_K(cmyk->c, cmyk->m, cmyk->y, cmyk->k));
-            } else if(auto icc = std::get_if<ICCColor>(&sarg.c)) {
-                CHECK_INDEXNESS(icc->id.id, doc->icc_profiles);
-                const auto &icc_info = doc->get(icc->id);
-                if(icc_info.num_channels != (int32_t)icc->values.size()) {
-                    RETERR(IncorrectColorChannelCount);
-                }
-                used_colorspaces.insert(icc_info.object_num);
-                std::string cmd;
-                auto app = std::back_inserter<std::string>(cmd);
-                std::format_to(app, "/CSpace{} CS\n", icc_info.object_num);
-                cmds.append(cmd);
-                cmd.clear();
-
-                for(const auto &i : icc->values) {
-                    std::format_to(app, "{:f} ", i);
-                }
-                cmd += " SCN";
-                cmds.append(cmd);
-            } else if(auto id = std::get_if<CapyPDF_PatternId>(&sarg.c)) {
-                used_patterns.insert(id->id);
-                cmds.append("/Pattern CS\n");
-                auto cmd = std::format("/Pattern-{} SCN\n", id->id);
-                cmds.append(cmd);
-            } else {
-                printf("Given text stroke colorspace not supported yet.\n");
-                std::abort();
-            }
-            RETOK;
-        },
+        [&](const Stroke_arg &sarg) -> rvoe<NoReturnValue> { return set_color(sarg.c, true); },
 
         [&](const Nonstroke_arg &nsarg) -> rvoe<NoReturnValue> {
-            if(auto rgb = std::get_if<DeviceRGBColor>(&nsarg.c)) {
-                ERCV(serialize_rg(rgb->r, rgb->g, rgb->b));
-            } else if(auto gray = std::get_if<DeviceGrayColor>(&nsarg.c)) {
-                ERCV(serialize_g(gray->v));
-            } else if(auto cmyk = std::get_if<DeviceCMYKColor>(&nsarg.c)) {
-                ERCV(serialize_k(cmyk->c, cmyk->m, cmyk->y, cmyk->k));
-            } else if(auto icc = std::get_if<ICCColor>(&nsarg.c)) {
-                CHECK_INDEXNESS(icc->id.id, doc->icc_profiles);
-                const auto &icc_info = doc->get(icc->id);
-                if(icc_info.num_channels != (int32_t)icc->values.size()) {
-                    RETERR(IncorrectColorChannelCount);
-                }
-                used_colorspaces.insert(icc_info.object_num);
-                auto cmd = std::format("/CSpace{} cs\n", icc_info.object_num);
-                for(const auto &i : icc->values) {
-                    std::format_to(std::back_inserter(cmd), "{:f} ", i);
-                }
-                std::format_to(std::back_inserter(cmd), "{}\n", "scn");
-                cmds.append(cmd);
-            } else if(auto id = std::get_if<CapyPDF_PatternId>(&nsarg.c)) {
-                used_patterns.insert(id->id);
-                cmds.append("/Pattern cs\n");
-                auto cmd = std::format("/Pattern-{} scn\n", id->id);
-                cmds.append(cmd);
-            } else {
-                printf("Given text nonstroke colorspace not supported yet.\n");
-                std::abort();
-            }
-            RETOK;
+            return set_color(nsarg.c, false);
         },
 
         [&](const w_arg &w) -> rvoe<NoReturnValue> {
-- 
2.43.0


From 6aa2cd5691a2d219d5c83d5d7d4c17e31da56da7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:19 +0000
Subject: [PATCH 10/92] fix: text line widths and rendering modes are validated
 like those of the draw context

---
 src/drawcontext.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/drawcontext.cpp b/src/drawcontext.cpp
index 5965ecc..d85c04e 100644
--- a/src/drawcontext.cpp
+++ b/src/drawcontext.cpp
@@ -955,6 +955,7 @@ rvoe<NoReturnValue> PdfDrawContext::render_text(const PdfText &textobj) {
         },
 
         [&](const Tr_arg &tr) -> rvoe<NoReturnValue> {
+            CHECK_ENUM(tr.rmode, CAPY_TEXT_CLIP);
             cmds.append_command((int)tr.rmode, "Tr");
             RETOK;
         },
@@ -1003,6 +1004,9 @@ rvoe<NoReturnValue> PdfDrawContext::render_text(const PdfText &textobj) {
         },
 
         [&](const w_arg &w) -> rvoe<NoReturnValue> {
+            if(w.width < 0) {
+                RETERR(NegativeLineWidth);
+            }
             cmds.append_command(w.width, "w");
             RETOK;
         },
-- 
2.43.0


From b9796d5c94256fb92dc055f148a51f01bb3a8eba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:11 +0000
Subject: [PATCH 11/92] fix: graphics state, shading, pattern and Lab ids must
 denote objects of their kind

---
 src/document.cpp    |  8 ++++++--
 src/document.hpp    |  4 ++++
 src/drawcontext.cpp | 17 +++++++++++++----
 3 files changed, 23 insertions(+), 6 deletions(-)

diff --git a/src/document.cpp b/src/document.cpp
index d236ff2..35e6ce0 100644
--- a/src/document.cpp
+++ b/src/document.cpp
@@ -810,7 +810,7 @@ rvoe<CapyPDF_LabColorSpaceId> PdfDocument::add_lab_colorspace(const LabColorSpac
     }
     fmt.end_array();
 
-    add_object(FullPDFObject{fmt.steal(), {}});
+    lab_colorspaces.insert(add_object(FullPDFObject{fmt.steal(), {}}));
     return CapyPDF_LabColorSpaceId{(int32_t)document_objects.size() - 1};
 }
 
@@ -1742,6 +1742,7 @@ rvoe<CapyPDF_GraphicsStateId> PdfDocument::add_graphics_state(const GraphicsStat
     }
     fmt.end_dict();
     add_object(FullPDFObject{fmt.steal(), {}});
+    graphics_states.insert(id);
     return CapyPDF_GraphicsStateId{id};
 }
 
@@ -2034,7 +2035,9 @@ rvoe<CapyPDF_PatternId> PdfDocument::add_shading_pattern(const ShadingPattern &s
         fmt.end_array();
     }
     fmt.end_dict();
-    return CapyPDF_PatternId{add_object(FullPDFObject{fmt.steal(), {}})};
+    const auto objid = add_object(FullPDFObject{fmt.steal(), {}});
+    patterns.insert(objid);
+    return CapyPDF_PatternId{objid};
 }
 
 rvoe<CapyPDF_PatternId> PdfDocument::add_tiling_pattern(PdfDrawContext &ctx) {
@@ -2051,6 +2054,7 @@ rvoe<CapyPDF_PatternId> PdfDocument::add_tiling_pattern(PdfDrawContext &ctx) {
     auto &d = std::get<SerializedXObject>(sc_var);
     auto objid =
         add_object(DeflatePDFObject{std::move(d.dict), RawData(std::move(d.command_stream)), true});
+    patterns.insert(objid);
     return CapyPDF_PatternId{objid};
 }
 
diff --git a/src/document.hpp b/src/document.hpp
index f0ea9db..b752f1b 100644
--- a/src/document.hpp
+++ b/src/document.hpp
@@ -631,6 +631,10 @@ private:
     std::vector<int32_t> soft_masks;
     std::vector<FunctionInfo> functions;
     std::vector<ShadingInfo> shadings;
+    // Ids of these types are plain object numbers.
+    std::unordered_set<int32_t> graphics_states;
+    std::unordered_set<int32_t> patterns;
+    std::unordered_set<int32_t> lab_colorspaces;
     std::vector<RolemapEnty> rolemap;
 
     std::optional<Collection> collection;
diff --git a/src/drawcontext.cpp b/src/drawcontext.cpp
index d85c04e..5c39f18 100644
--- a/src/drawcontext.cpp
+++ b/src/drawcontext.cpp
@@ -436,7 +436,9 @@ rvoe<NoReturnValue> PdfDrawContext::cmd_G(LimitDouble gray) { return serialize_G
 rvoe<NoReturnValue> PdfDrawContext::cmd_g(LimitDouble gray) { return serialize_g(gray); }
 
 rvoe<NoReturnValue> PdfDrawContext::cmd_gs(CapyPDF_GraphicsStateId gid) {
-    CHECK_INDEXNESS(gid.id, doc->document_objects);
+    if(!doc->graphics_states.contains(gid.id)) {
+        RETERR(BadId);
+    }
     used_gstates.insert(gid.id);
     auto cmd = std::format("/GS{} gs\n", gid.id);
     cmds.append(cmd);
@@ -549,7 +551,7 @@ rvoe<NoReturnValue> PdfDrawContext::cmd_scn(double value) {
 }
 
 rvoe<NoReturnValue> PdfDrawContext::cmd_sh(CapyPDF_ShadingId shid) {
-    CHECK_INDEXNESS(shid.id, doc->document_objects);
+    CHECK_INDEXNESS(shid.id, doc->shadings);
     used_shadings.insert(shid.id);
     auto cmd = std::format("/SH{} sh\n", shid.id);
     cmds.append(cmd);
@@ -733,6 +735,9 @@ rvoe<NoReturnValue> PdfDrawContext::convert_to_output_cs_and_set_color(const Dev
 }
 
 rvoe<NoReturnValue> PdfDrawContext::set_color(CapyPDF_PatternId id, bool stroke) {
+    if(!doc->patterns.contains(id.id)) {
+        RETERR(BadId);
+    }
     if(stroke) {
         ERCV(cmd_CS("/Pattern"));
     } else {
@@ -760,7 +765,9 @@ rvoe<NoReturnValue> PdfDrawContext::set_color(const SeparationColor &color, bool
 }
 
 rvoe<NoReturnValue> PdfDrawContext::set_color(const LabColor &c, bool stroke) {
-    CHECK_INDEXNESS(c.id.id, doc->document_objects);
+    if(!doc->lab_colorspaces.contains(c.id.id)) {
+        RETERR(BadId);
+    }
     used_colorspaces.insert(c.id.id);
     std::string csname = std::format("/CSpace{}", c.id.id);
     if(stroke) {
@@ -1042,7 +1049,9 @@ rvoe<NoReturnValue> PdfDrawContext::render_text(const PdfText &textobj) {
             RETOK;
         },
         [&](const gs_arg &gs) -> rvoe<NoReturnValue> {
-            CHECK_INDEXNESS(gs.gid.id, doc->document_objects);
+            if(!doc->graphics_states.contains(gs.gid.id)) {
+                RETERR(BadId);
+            }
             used_gstates.insert(gs.gid.id);
             auto cmd = std::format("/GS{} gs\n", gs.gid.id);
             cmds.append(cmd);
-- 
2.43.0


From 87f217dfd7bbf32640ae84efb7ba6760c70389d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:04 +0000
Subject: [PATCH 12/92] fix: a page refused for reusing annotations or
 structure items keeps its commands

---
 src/document.cpp  | 22 ++++++++++++++--------
 src/document.hpp  |  3 +++
 src/generator.cpp |  2 ++
 3 files changed, 19 insertions(+), 8 deletions(-)

diff --git a/src/document.cpp b/src/document.cpp
index 35e6ce0..9e7ac18 100644
--- a/src/document.cpp
+++ b/src/document.cpp
@@ -576,14 +576,9 @@ rvoe<NoReturnValue> PdfDocument::init() {
     RETOK;
 }
 
-rvoe<NoReturnValue> PdfDocument::add_page(std::string resource_dict,
-                                          std::string command_stream,
-                                          const PageProperties &custom_props,
-                                          const std::unordered_set<CapyPDF_AnnotationId> &annots,
-                                          const std::vector<CapyPDF_StructureItemId> &structs,
-                                          const std::optional<Transition> &transition,
-                                          const std::vector<SubPageNavigation> &subnav,
-                                          const std::vector<Viewport> &viewports) {
+rvoe<NoReturnValue> PdfDocument::check_page_reuse(
+    const std::unordered_set<CapyPDF_AnnotationId> &annots,
+    const std::vector<CapyPDF_StructureItemId> &structs) const {
     for(const auto &a : annots) {
         if(annotation_use.find(a) != annotation_use.cend()) {
             RETERR(AnnotationReuse);
@@ -594,6 +589,17 @@ rvoe<NoReturnValue> PdfDocument::add_page(std::string resource_dict,
             RETERR(StructureReuse);
         }
     }
+    RETOK;
+}
+
+rvoe<NoReturnValue> PdfDocument::add_page(std::string resource_dict,
+                                          std::string command_stream,
+                                          const PageProperties &custom_props,
+                                          const std::unordered_set<CapyPDF_AnnotationId> &annots,
+                                          const std::vector<CapyPDF_StructureItemId> &structs,
+                                          const std::optional<Transition> &transition,
+                                          const std::vector<SubPageNavigation> &subnav,
+                                          const std::vector<Viewport> &viewports) {
     ObjectFormatter fmt;
     fmt.begin_dict();
     const auto resource_num = add_object(FullPDFObject{std::move(resource_dict), {}});
diff --git a/src/document.hpp b/src/document.hpp
index b752f1b..0e186e4 100644
--- a/src/document.hpp
+++ b/src/document.hpp
@@ -452,6 +452,9 @@ public:
     friend class PdfWriter;
 
     // Pages
+    rvoe<NoReturnValue>
+    check_page_reuse(const std::unordered_set<CapyPDF_AnnotationId> &annots,
+                     const std::vector<CapyPDF_StructureItemId> &structs) const;
     rvoe<NoReturnValue> add_page(std::string resource_dict,
                                  std::string command_stream,
                                  const PageProperties &custom_props,
diff --git a/src/generator.cpp b/src/generator.cpp
index a436bee..b4f2c52 100644
--- a/src/generator.cpp
+++ b/src/generator.cpp
@@ -95,6 +95,8 @@ rvoe<PageId> PdfGen::add_page(PdfDrawContext &ctx) {
     if(ctx.has_unclosed_state()) {
         RETERR(DrawStateEndMismatch);
     }
+    // Serializing consumes the commands, so do all checks that can fail first.
+    ERCV(pdoc.check_page_reuse(ctx.get_annotation_usage(), ctx.get_structure_usage()));
     ERC(sc_var, ctx.serialize());
     assert(std::holds_alternative<SerializedBasicContext>(sc_var));
     auto &sc = std::get<SerializedBasicContext>(sc_var);
-- 
2.43.0


From ef386af9e88d4306d9b67662b7f515fe3e425a7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:14 +0000
Subject: [PATCH 13/92] fix: form XObjects, patterns and transparency groups
 are checked and cleared like pages

---
 src/document.cpp  | 11 +++++++++++
 src/generator.cpp |  6 ++++++
 2 files changed, 17 insertions(+)

diff --git a/src/document.cpp b/src/document.cpp
index 9e7ac18..df5b861 100644
--- a/src/document.cpp
+++ b/src/document.cpp
@@ -2056,11 +2056,15 @@ rvoe<CapyPDF_PatternId> PdfDocument::add_tiling_pattern(PdfDrawContext &ctx) {
     if(ctx.marked_content_depth() != 0) {
         RETERR(UnclosedMarkedContent);
     }
+    if(ctx.has_unclosed_state()) {
+        RETERR(DrawStateEndMismatch);
+    }
     ERC(sc_var, ctx.serialize());
     auto &d = std::get<SerializedXObject>(sc_var);
     auto objid =
         add_object(DeflatePDFObject{std::move(d.dict), RawData(std::move(d.command_stream)), true});
     patterns.insert(objid);
+    ctx.clear();
     return CapyPDF_PatternId{objid};
 }
 
@@ -2169,17 +2173,24 @@ PdfDocument::add_optional_content_group(const OptionalContentGroup &g) {
 }
 
 rvoe<CapyPDF_TransparencyGroupId> PdfDocument::add_transparency_group(PdfDrawContext &ctx) {
+    if(&ctx.get_doc() != this) {
+        RETERR(IncorrectDocumentForObject);
+    }
     if(ctx.draw_context_type() != CAPY_DC_TRANSPARENCY_GROUP) {
         RETERR(InvalidDrawContextType);
     }
     if(ctx.marked_content_depth() != 0) {
         RETERR(UnclosedMarkedContent);
     }
+    if(ctx.has_unclosed_state()) {
+        RETERR(DrawStateEndMismatch);
+    }
     ERC(sc_var, ctx.serialize());
     auto &d = std::get<SerializedXObject>(sc_var);
     auto objid =
         add_object(DeflatePDFObject{std::move(d.dict), RawData(std::move(d.command_stream)), true});
     transparency_groups.push_back(objid);
+    ctx.clear();
     return CapyPDF_TransparencyGroupId{(int32_t)transparency_groups.size() - 1};
 }
 
diff --git a/src/generator.cpp b/src/generator.cpp
index b4f2c52..4e62f3d 100644
--- a/src/generator.cpp
+++ b/src/generator.cpp
@@ -119,12 +119,18 @@ rvoe<NoReturnValue> PdfGen::add_page_labeling(uint32_t start_page,
 }
 
 rvoe<CapyPDF_FormXObjectId> PdfGen::add_form_xobject(PdfDrawContext &ctx) {
+    if(&ctx.get_doc() != &pdoc) {
+        RETERR(IncorrectDocumentForObject);
+    }
     if(ctx.draw_context_type() != CAPY_DC_FORM_XOBJECT) {
         RETERR(InvalidDrawContextType);
     }
     if(ctx.marked_content_depth() != 0) {
         RETERR(UnclosedMarkedContent);
     }
+    if(ctx.has_unclosed_state()) {
+        RETERR(DrawStateEndMismatch);
+    }
     ERC(sc_var, ctx.serialize());
     assert(std::holds_alternative<SerializedXObject>(sc_var));
     auto &sc = std::get<SerializedXObject>(sc_var);
-- 
2.43.0


From 2785cefcfa38944b046d8083cf8f7f30a147b7e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:43 +0000
Subject: [PATCH 14/92] fix: enumerated arguments outside their range are
 refused

---
 src/capi.cpp | 38 +++++++++++++++++++++++++++++++++++++-
 1 file changed, 37 insertions(+), 1 deletion(-)

diff --git a/src/capi.cpp b/src/capi.cpp
index 382deff..9e200da 100644
--- a/src/capi.cpp
+++ b/src/capi.cpp
@@ -17,6 +17,11 @@
         return conv_err(ErrorCode::BadBoolean);                                                    \
     }
 
+#define CHECK_ENUM_ARG(v, max_enum_val)                                                            \
+    if((int)(v) < 0 || (int)(v) > (int)(max_enum_val)) {                                           \
+        return conv_err(ErrorCode::BadEnum);                                                       \
+    }
+
 using namespace capypdf::internal;
 
 // These structs are not in the interop header because they are
@@ -309,6 +314,7 @@ capy_document_properties_set_device_profile(CapyPDF_DocumentProperties *docprops
                                             CapyPDF_Device_Colorspace cs,
                                             const char *profile_path) CAPYPDF_NOEXCEPT {
     API_BOUNDARY_START;
+    CHECK_ENUM_ARG(cs, CAPY_DEVICE_CS_CMYK);
     auto *dp = static_cast<DocumentProperties *>(docprops);
     switch(cs) {
     case CAPY_DEVICE_CS_RGB:
@@ -328,6 +334,7 @@ capy_document_properties_set_device_profile(CapyPDF_DocumentProperties *docprops
 CAPYPDF_PUBLIC CapyPDF_EC capy_document_properties_set_colorspace(
     CapyPDF_DocumentProperties *docprops, CapyPDF_Device_Colorspace cs) CAPYPDF_NOEXCEPT {
     API_BOUNDARY_START;
+    CHECK_ENUM_ARG(cs, CAPY_DEVICE_CS_CMYK);
     auto *dp = static_cast<DocumentProperties *>(docprops);
     dp->output_colorspace = cs;
     RETNOERR;
@@ -352,6 +359,7 @@ capy_document_properties_set_output_intent(CapyPDF_DocumentProperties *docprops,
 CAPYPDF_PUBLIC CapyPDF_EC capy_document_properties_set_pdfx(
     CapyPDF_DocumentProperties *docprops, CapyPDF_PDFX_Type xtype) CAPYPDF_NOEXCEPT {
     API_BOUNDARY_START;
+    CHECK_ENUM_ARG(xtype, CAPY_PDFX_6n);
     auto *dp = static_cast<DocumentProperties *>(docprops);
     dp->subtype = xtype;
     RETNOERR;
@@ -361,6 +369,7 @@ CAPYPDF_PUBLIC CapyPDF_EC capy_document_properties_set_pdfx(
 CAPYPDF_PUBLIC CapyPDF_EC capy_document_properties_set_pdfa(
     CapyPDF_DocumentProperties *docprops, CapyPDF_PDFA_Type atype) CAPYPDF_NOEXCEPT {
     API_BOUNDARY_START;
+    CHECK_ENUM_ARG(atype, CAPY_PDFA_4e);
     auto *dp = static_cast<DocumentProperties *>(docprops);
     dp->subtype = atype;
     RETNOERR;
@@ -393,6 +402,7 @@ CAPYPDF_PUBLIC CapyPDF_EC capy_document_properties_set_tagged(CapyPDF_DocumentPr
 CAPYPDF_PUBLIC CapyPDF_EC capy_document_properties_set_page_layout(
     CapyPDF_DocumentProperties *docprops, CapyPDF_Page_Layout layout) CAPYPDF_NOEXCEPT {
     API_BOUNDARY_START;
+    CHECK_ENUM_ARG(layout, CAPY_PAGE_LAYOUT_TWO_PAGE_RIGHT);
     auto *dp = static_cast<DocumentProperties *>(docprops);
     dp->page_layout = layout;
     RETNOERR;
@@ -402,6 +412,7 @@ CAPYPDF_PUBLIC CapyPDF_EC capy_document_properties_set_page_layout(
 CAPYPDF_PUBLIC CapyPDF_EC capy_document_properties_set_page_mode(
     CapyPDF_DocumentProperties *docprops, CapyPDF_Page_Mode mode) CAPYPDF_NOEXCEPT {
     API_BOUNDARY_START;
+    CHECK_ENUM_ARG(mode, CAPY_PAGE_MODE_ATTACHMENTS);
     auto *dp = static_cast<DocumentProperties *>(docprops);
     dp->page_mode = mode;
     RETNOERR;
@@ -464,6 +475,7 @@ CAPYPDF_PUBLIC CapyPDF_EC capy_generator_add_page_labeling(CapyPDF_Generator *ge
     std::optional<u8string> opt_prefix;
     std::optional<uint32_t> opt_start_num;
     if(style) {
+        CHECK_ENUM_ARG(*style, CAPY_PAGE_LABEL_NUMBER_STYLE_LETTER_LOWER);
         opt_style = *style;
     }
     if(prefix) {
@@ -620,6 +632,8 @@ CAPYPDF_PUBLIC CapyPDF_EC capy_generator_convert_image(CapyPDF_Generator *gen,
                                                        CapyPDF_RasterImage **out_ptr)
     CAPYPDF_NOEXCEPT {
     API_BOUNDARY_START;
+    CHECK_ENUM_ARG(output_cs, CAPY_DEVICE_CS_CMYK);
+    CHECK_ENUM_ARG(ri, CAPY_RI_PERCEPTUAL);
     auto *g = static_cast<PdfGen *>(gen);
     if(auto *raw = std::get_if<RawPixelImage>(&source->ri)) {
         auto rc = g->convert_image_to_cs(*raw, output_cs, ri);
@@ -696,6 +710,7 @@ CAPYPDF_PUBLIC CapyPDF_EC capy_generator_add_structure_item(CapyPDF_Generator *g
                                                             CapyPDF_StructureItemId *out_ptr)
     CAPYPDF_NOEXCEPT {
     API_BOUNDARY_START;
+    CHECK_ENUM_ARG(stype, CAPY_STRUCTURE_TYPE_ARTIFACT);
     auto *g = static_cast<PdfGen *>(gen);
     std::optional<CapyPDF_StructureItemId> item_parent;
     if(parent) {
@@ -819,6 +834,7 @@ CAPYPDF_PUBLIC CapyPDF_EC capy_generator_add_separation(CapyPDF_Generator *gen,
                                                         CapyPDF_SeparationId *out_ptr)
     CAPYPDF_NOEXCEPT {
     API_BOUNDARY_START;
+    CHECK_ENUM_ARG(cs, CAPY_DEVICE_CS_CMYK);
     auto *g = static_cast<PdfGen *>(gen);
     auto name = validate_ascii(separation_name, strsize);
     if(!name) {
@@ -892,6 +908,7 @@ CAPYPDF_PUBLIC CapyPDF_EC capy_generator_add_rolemap_entry(CapyPDF_Generator *ge
                                                            CapyPDF_RoleId *out_ptr)
     CAPYPDF_NOEXCEPT {
     API_BOUNDARY_START;
+    CHECK_ENUM_ARG(builtin, CAPY_STRUCTURE_TYPE_ARTIFACT);
     auto *g = static_cast<PdfGen *>(gen);
     auto nameobj = validate_cstring(name, namesize);
     if(!nameobj) {
@@ -1872,6 +1889,7 @@ CAPYPDF_PUBLIC CapyPDF_EC capy_transition_new(CapyPDF_Transition **out_ptr) CAPY
 CAPYPDF_PUBLIC CapyPDF_EC capy_transition_set_S(CapyPDF_Transition *tr,
                                                 CapyPDF_Transition_Type type) CAPYPDF_NOEXCEPT {
     API_BOUNDARY_START;
+    CHECK_ENUM_ARG(type, CAPY_TR_FADE);
     auto pt = static_cast<Transition *>(tr);
     pt->type = type;
     RETNOERR;
@@ -1899,6 +1917,7 @@ capy_transition_set_Dm(CapyPDF_Transition *tr, CapyPDF_Transition_Dimension dim)
 CAPYPDF_PUBLIC CapyPDF_EC capy_transition_set_M(CapyPDF_Transition *tr,
                                                 CapyPDF_Transition_Motion m) CAPYPDF_NOEXCEPT {
     API_BOUNDARY_START;
+    CHECK_ENUM_ARG(m, CAPY_TR_M_O);
     auto pt = static_cast<Transition *>(tr);
     pt->M = m;
     RETNOERR;
@@ -2001,6 +2020,7 @@ CAPYPDF_PUBLIC CapyPDF_EC capy_graphics_state_set_ca(CapyPDF_GraphicsState *stat
 CAPYPDF_PUBLIC CapyPDF_EC capy_graphics_state_set_BM(
     CapyPDF_GraphicsState *state, CapyPDF_Blend_Mode blendmode) CAPYPDF_NOEXCEPT {
     API_BOUNDARY_START;
+    CHECK_ENUM_ARG(blendmode, CAPY_BM_LUMINOSITY);
     auto *s = static_cast<GraphicsState *>(state);
     s->BM = blendmode;
     RETNOERR;
@@ -2085,6 +2105,7 @@ CAPYPDF_PUBLIC CapyPDF_EC capy_graphics_state_set_TK(CapyPDF_GraphicsState *stat
 CAPYPDF_PUBLIC CapyPDF_EC capy_graphics_state_set_blackpoint_compensation(
     CapyPDF_GraphicsState *state, CapyPDF_Black_Point_Compensation use_comp) CAPYPDF_NOEXCEPT {
     API_BOUNDARY_START;
+    CHECK_ENUM_ARG(use_comp, CAPY_BLACK_POINT_COMPENSATION_DEFAULT);
     auto *s = static_cast<GraphicsState *>(state);
     s->UseBlackPtComp = use_comp;
     RETNOERR;
@@ -2121,6 +2142,7 @@ CAPYPDF_PUBLIC CapyPDF_EC capy_transparency_group_properties_new(
 CAPYPDF_PUBLIC CapyPDF_EC capy_transparency_group_properties_set_CS(
     CapyPDF_TransparencyGroupProperties *props, CapyPDF_Device_Colorspace cs) CAPYPDF_NOEXCEPT {
     API_BOUNDARY_START;
+    CHECK_ENUM_ARG(cs, CAPY_DEVICE_CS_CMYK);
     auto *p = static_cast<TransparencyGroupProperties *>(props);
     p->CS = cs;
     RETNOERR;
@@ -2217,6 +2239,7 @@ CAPYPDF_PUBLIC CapyPDF_EC capy_raster_image_builder_set_alpha_data(
 CAPYPDF_PUBLIC CapyPDF_EC capy_raster_image_builder_set_input_data_compression_format(
     CapyPDF_RasterImageBuilder *builder, CapyPDF_Compression compression) CAPYPDF_NOEXCEPT {
     API_BOUNDARY_START;
+    CHECK_ENUM_ARG(compression, CAPY_COMPRESSION_DEFLATE);
     auto *b = static_cast<RasterImageBuilder *>(builder);
     b->i.md.compression = compression;
     RETNOERR;
@@ -2226,6 +2249,7 @@ CAPYPDF_PUBLIC CapyPDF_EC capy_raster_image_builder_set_input_data_compression_f
 CAPYPDF_PUBLIC CapyPDF_EC capy_raster_image_builder_set_colorspace(
     CapyPDF_RasterImageBuilder *builder, CapyPDF_Image_Colorspace colorspace) CAPYPDF_NOEXCEPT {
     API_BOUNDARY_START;
+    CHECK_ENUM_ARG(colorspace, CAPY_IMAGE_CS_CMYK);
     auto *b = static_cast<RasterImageBuilder *>(builder);
     b->i.md.cs = colorspace;
     RETNOERR;
@@ -2367,6 +2391,7 @@ CAPYPDF_PUBLIC CapyPDF_EC capy_type2_shading_new(CapyPDF_Device_Colorspace cs,
                                                  CapyPDF_FunctionId func,
                                                  CapyPDF_Shading **out_ptr) CAPYPDF_NOEXCEPT {
     API_BOUNDARY_START;
+    CHECK_ENUM_ARG(cs, CAPY_DEVICE_CS_CMYK);
     *out_ptr = new _capyPDF_Shading(PdfShading{ShadingType2{cs, x0, y0, x1, y1, func}});
     RETNOERR;
     API_BOUNDARY_END;
@@ -2417,6 +2442,7 @@ CAPYPDF_PUBLIC CapyPDF_EC capy_type3_shading_new(CapyPDF_Device_Colorspace cs,
                                                  CapyPDF_FunctionId func,
                                                  CapyPDF_Shading **out_ptr) CAPYPDF_NOEXCEPT {
     API_BOUNDARY_START;
+    CHECK_ENUM_ARG(cs, CAPY_DEVICE_CS_CMYK);
     *out_ptr = new _capyPDF_Shading(
         ShadingType3{cs, coords[0], coords[1], coords[2], coords[3], coords[4], coords[5], func});
     RETNOERR;
@@ -2430,6 +2456,7 @@ CAPYPDF_PUBLIC CapyPDF_EC capy_type4_shading_new(CapyPDF_Device_Colorspace cs,
                                                  double maxy,
                                                  CapyPDF_Shading **out_ptr) CAPYPDF_NOEXCEPT {
     API_BOUNDARY_START;
+    CHECK_ENUM_ARG(cs, CAPY_DEVICE_CS_CMYK);
     *out_ptr = new _capyPDF_Shading(ShadingType4{{}, minx, miny, maxx, maxy, cs});
     RETNOERR;
     API_BOUNDARY_END;
@@ -2479,6 +2506,7 @@ CAPYPDF_PUBLIC CapyPDF_EC capy_type6_shading_new(CapyPDF_Device_Colorspace cs,
                                                  double maxy,
                                                  CapyPDF_Shading **out_ptr) CAPYPDF_NOEXCEPT {
     API_BOUNDARY_START;
+    CHECK_ENUM_ARG(cs, CAPY_DEVICE_CS_CMYK);
     *out_ptr = new _capyPDF_Shading(ShadingType6{
         {},
         minx,
@@ -2683,6 +2711,8 @@ CAPYPDF_PUBLIC CapyPDF_EC capy_annotation_set_line_endings(CapyPDF_Annotation *a
                                                            CapyPDF_Line_Annotation_End_Style end)
     CAPYPDF_NOEXCEPT {
     API_BOUNDARY_START;
+    CHECK_ENUM_ARG(start, CAPY_LINE_ANNOTATION_END_SLASH);
+    CHECK_ENUM_ARG(end, CAPY_LINE_ANNOTATION_END_SLASH);
     auto *a = static_cast<Annotation *>(annotation);
     if(auto *line = std::get_if<LineAnnotation>(&a->sub)) {
         line->end_styles = LineAnnotationEndStyles{start, end};
@@ -2824,6 +2854,7 @@ CAPYPDF_PUBLIC CapyPDF_EC capy_image_pdf_properties_set_mask(CapyPDF_ImagePdfPro
 CAPYPDF_PUBLIC CapyPDF_EC capy_image_pdf_properties_set_interpolate(
     CapyPDF_ImagePdfProperties *par, CapyPDF_Image_Interpolation interp) CAPYPDF_NOEXCEPT {
     API_BOUNDARY_START;
+    CHECK_ENUM_ARG(interp, CAPY_INTERPOLATION_SMOOTH);
     auto p = static_cast<ImagePDFProperties *>(par);
     p->interp = interp;
     RETNOERR;
@@ -2993,6 +3024,7 @@ CAPYPDF_PUBLIC CapyPDF_EC capy_soft_mask_new(CapyPDF_Soft_Mask_Subtype subtype,
                                              CapyPDF_TransparencyGroupId trid,
                                              CapyPDF_SoftMask **out_ptr) CAPYPDF_NOEXCEPT {
     API_BOUNDARY_START;
+    CHECK_ENUM_ARG(subtype, CAPY_SOFT_MASK_LUMINOSITY);
     *out_ptr = new SoftMask{{}, subtype, trid};
     RETNOERR;
     API_BOUNDARY_END;
@@ -3195,6 +3227,7 @@ CAPYPDF_PUBLIC CapyPDF_EC capy_halftone_set_type1(CapyPDF_Halftone *ht,
                                                   CapyPDF_Halftone_Spot_Function htspot)
     CAPYPDF_NOEXCEPT {
     API_BOUNDARY_START;
+    CHECK_ENUM_ARG(htspot, CAPY_HT_FUNC_DIAMOND);
     ht->ht = HalftoneType1{frequency, angle, htspot};
     RETNOERR;
     API_BOUNDARY_END;
@@ -3213,6 +3246,7 @@ CAPYPDF_PUBLIC CapyPDF_EC capy_3d_stream_new(const char *fname,
                                              CapyPDF_3D_File_Format format,
                                              CapyPDF_3DStream **out_ptr) CAPYPDF_NOEXCEPT {
     API_BOUNDARY_START;
+    CHECK_ENUM_ARG(format, CAPY_3D_PRC);
     auto rc = load_file_as_bytes(fname);
     if(!rc) {
         return conv_err(rc);
@@ -3244,7 +3278,7 @@ CAPYPDF_PUBLIC CapyPDF_EC capy_form_field_new(CapyPDF_Form_Field_Type type,
         *out_ptr = new FormField{{}, {}, {}, {}, {}, TextField{}};
         break;
     default:
-        std::abort();
+        return conv_err(ErrorCode::BadEnum);
     }
     RETNOERR;
     API_BOUNDARY_END;
@@ -3461,6 +3495,7 @@ CAPYPDF_PUBLIC CapyPDF_EC capy_collection_set_schema(
 CAPYPDF_PUBLIC CapyPDF_EC capy_collection_set_view(CapyPDF_Collection *coll,
                                                    CapyPDF_Collection_View view) CAPYPDF_NOEXCEPT {
     API_BOUNDARY_START;
+    CHECK_ENUM_ARG(view, CAPY_COLLECTION_C);
     auto *c = static_cast<Collection *>(coll);
     c->View = view;
     RETNOERR;
@@ -3518,6 +3553,7 @@ CAPYPDF_PUBLIC CapyPDF_EC capy_collection_field_new(CapyPDF_Collection_Subtype s
                                                     CapyPDF_CollectionField **out_ptr)
     CAPYPDF_NOEXCEPT {
     API_BOUNDARY_START;
+    CHECK_ENUM_ARG(subtype, CAPY_COLLECTION_SUB_COMPRESSED_SIZE);
     auto rc = validate_utf8(name, namelen);
     if(!rc) {
         return conv_err(rc);
-- 
2.43.0


From 5f70459bed553735e342058ae8e3f47364926ca6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:02 +0000
Subject: [PATCH 15/92] fix: the dimension of a transition is stored as its
 dimension

---
 src/capi.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/capi.cpp b/src/capi.cpp
index 9e200da..2ff40a5 100644
--- a/src/capi.cpp
+++ b/src/capi.cpp
@@ -1908,8 +1908,9 @@ CAPYPDF_PUBLIC CapyPDF_EC capy_transition_set_D(CapyPDF_Transition *tr,
 CAPYPDF_PUBLIC CapyPDF_EC
 capy_transition_set_Dm(CapyPDF_Transition *tr, CapyPDF_Transition_Dimension dim) CAPYPDF_NOEXCEPT {
     API_BOUNDARY_START;
+    CHECK_ENUM_ARG(dim, CAPY_TR_DIM_V);
     auto pt = static_cast<Transition *>(tr);
-    pt->Di = dim;
+    pt->Dm = dim;
     RETNOERR;
     API_BOUNDARY_END;
 }
-- 
2.43.0


From 44b5adda5a6194cc266e44e77dfcbe938cccf65e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:08:46 +0000
Subject: [PATCH 16/92] fix: infinities and NaNs, for which PDF has no
 notation, are refused

---
 src/capi.cpp          | 93 ++++++++++++++++++++++++++++++++++++++++++-
 src/drawcontext.cpp   |  4 +-
 src/errorhandling.cpp |  1 +
 src/errorhandling.hpp |  1 +
 4 files changed, 96 insertions(+), 3 deletions(-)

diff --git a/src/capi.cpp b/src/capi.cpp
index 2ff40a5..44f5155 100644
--- a/src/capi.cpp
+++ b/src/capi.cpp
@@ -8,7 +8,10 @@
 #include <drawcontext.hpp>
 #include <errorhandling.hpp>
 
+#include <cmath>
 #include <filesystem>
+#include <initializer_list>
+#include <span>
 
 #define RETNOERR return conv_err(ErrorCode::NoError)
 
@@ -17,6 +20,19 @@
         return conv_err(ErrorCode::BadBoolean);                                                    \
     }
 
+#define CHECK_FINITE(...)                                                                          \
+    if(!all_finite(std::initializer_list<double>{__VA_ARGS__})) {                                  \
+        return conv_err(ErrorCode::NonFiniteNumber);                                               \
+    }
+
+#define CHECK_FINITE_ARRAY(ptr, num)                                                               \
+    if((num) < 0) {                                                                                \
+        return conv_err(ErrorCode::InvalidBufsize);                                                \
+    }                                                                                              \
+    if(!all_finite(std::span<const double>(ptr, num))) {                                           \
+        return conv_err(ErrorCode::NonFiniteNumber);                                               \
+    }
+
 #define CHECK_ENUM_ARG(v, max_enum_val)                                                            \
     if((int)(v) < 0 || (int)(v) > (int)(max_enum_val)) {                                           \
         return conv_err(ErrorCode::BadEnum);                                                       \
@@ -59,6 +75,16 @@ namespace {
 
 [[nodiscard]] CapyPDF_EC conv_err(ErrorCode ec) { return (CapyPDF_EC)ec; }
 
+// PDF has no notation for infinities or NaNs.
+template<typename T> [[nodiscard]] bool all_finite(const T &values) {
+    for(const double v : values) {
+        if(!std::isfinite(v)) {
+            return false;
+        }
+    }
+    return true;
+}
+
 template<typename T> [[nodiscard]] CapyPDF_EC conv_err(const rvoe<T> &rc) {
     return (CapyPDF_EC)(rc ? ErrorCode::NoError : rc.error());
 }
@@ -273,6 +299,7 @@ CAPYPDF_PUBLIC CapyPDF_EC capy_page_properties_set_pagebox(CapyPDF_PagePropertie
                                                            double x2,
                                                            double y2) CAPYPDF_NOEXCEPT {
     API_BOUNDARY_START;
+    CHECK_FINITE(x1, y1, x2, y2);
     auto props = static_cast<PageProperties *>(pageprops);
     switch(boxtype) {
     case CAPY_BOX_MEDIA:
@@ -808,6 +835,7 @@ CAPYPDF_PUBLIC CapyPDF_EC capy_generator_add_lab_colorspace(CapyPDF_Generator *g
                                                             CapyPDF_LabColorSpaceId *out_ptr)
     CAPYPDF_NOEXCEPT {
     API_BOUNDARY_START;
+    CHECK_FINITE(xw, yw, zw, amin, amax, bmin, bmax);
     auto *g = static_cast<PdfGen *>(gen);
     LabColorSpace cl;
     cl.xw = xw;
@@ -1069,6 +1097,7 @@ CAPYPDF_PUBLIC CapyPDF_EC capy_dc_cmd_c(CapyPDF_DrawContext *ctx,
                                         double x3,
                                         double y3) CAPYPDF_NOEXCEPT {
     API_BOUNDARY_START;
+    CHECK_FINITE(x1, y1, x2, y2, x3, y3);
     auto *dc = static_cast<PdfDrawContext *>(ctx);
     return conv_err(dc->cmd_c(x1, y1, x2, y2, x3, y3));
     API_BOUNDARY_END;
@@ -1082,6 +1111,7 @@ CAPYPDF_PUBLIC CapyPDF_EC capy_dc_cmd_cm(CapyPDF_DrawContext *ctx,
                                          double m5,
                                          double m6) CAPYPDF_NOEXCEPT {
     API_BOUNDARY_START;
+    CHECK_FINITE(m1, m2, m3, m4, m5, m6);
     auto *dc = static_cast<PdfDrawContext *>(ctx);
     return conv_err(dc->cmd_cm(m1, m2, m3, m4, m5, m6));
     API_BOUNDARY_END;
@@ -1092,6 +1122,8 @@ CAPYPDF_PUBLIC CapyPDF_EC capy_dc_cmd_d(CapyPDF_DrawContext *ctx,
                                         int32_t array_size,
                                         double phase) CAPYPDF_NOEXCEPT {
     API_BOUNDARY_START;
+    CHECK_FINITE(phase);
+    CHECK_FINITE_ARRAY(dash_array, array_size);
     auto *dc = static_cast<PdfDrawContext *>(ctx);
     return conv_err(dc->cmd_d(dash_array, array_size, phase));
     API_BOUNDARY_END;
@@ -1166,6 +1198,7 @@ CAPYPDF_PUBLIC CapyPDF_EC capy_dc_cmd_h(CapyPDF_DrawContext *ctx) CAPYPDF_NOEXCE
 CAPYPDF_PUBLIC CapyPDF_EC capy_dc_cmd_i(CapyPDF_DrawContext *ctx,
                                         double flatness) CAPYPDF_NOEXCEPT {
     API_BOUNDARY_START;
+    CHECK_FINITE(flatness);
     auto *dc = static_cast<PdfDrawContext *>(ctx);
     return conv_err(dc->cmd_i(flatness));
     API_BOUNDARY_END;
@@ -1207,6 +1240,7 @@ CAPYPDF_PUBLIC CapyPDF_EC capy_dc_cmd_l(CapyPDF_DrawContext *ctx,
                                         double x,
                                         double y) CAPYPDF_NOEXCEPT {
     API_BOUNDARY_START;
+    CHECK_FINITE(x, y);
     auto *dc = static_cast<PdfDrawContext *>(ctx);
     return conv_err(dc->cmd_l(x, y));
     API_BOUNDARY_END;
@@ -1216,6 +1250,7 @@ CAPYPDF_PUBLIC CapyPDF_EC capy_dc_cmd_m(CapyPDF_DrawContext *ctx,
                                         double x,
                                         double y) CAPYPDF_NOEXCEPT {
     API_BOUNDARY_START;
+    CHECK_FINITE(x, y);
     auto *c = static_cast<PdfDrawContext *>(ctx);
     return conv_err(c->cmd_m(x, y));
     API_BOUNDARY_END;
@@ -1224,6 +1259,7 @@ CAPYPDF_PUBLIC CapyPDF_EC capy_dc_cmd_m(CapyPDF_DrawContext *ctx,
 CAPYPDF_PUBLIC CapyPDF_EC capy_dc_cmd_M(CapyPDF_DrawContext *ctx,
                                         double miterlimit) CAPYPDF_NOEXCEPT {
     API_BOUNDARY_START;
+    CHECK_FINITE(miterlimit);
     auto *c = static_cast<PdfDrawContext *>(ctx);
     return conv_err(c->cmd_M(miterlimit));
     API_BOUNDARY_END;
@@ -1253,6 +1289,7 @@ CAPYPDF_PUBLIC CapyPDF_EC capy_dc_cmd_Q(CapyPDF_DrawContext *ctx) CAPYPDF_NOEXCE
 CapyPDF_EC
 capy_dc_cmd_re(CapyPDF_DrawContext *ctx, double x, double y, double w, double h) CAPYPDF_NOEXCEPT {
     API_BOUNDARY_START;
+    CHECK_FINITE(x, y, w, h);
     auto *c = static_cast<PdfDrawContext *>(ctx);
     return conv_err(c->cmd_re(x, y, w, h));
     API_BOUNDARY_END;
@@ -1305,6 +1342,7 @@ CAPYPDF_PUBLIC CapyPDF_EC capy_dc_cmd_sh(CapyPDF_DrawContext *ctx,
 CAPYPDF_PUBLIC CapyPDF_EC capy_dc_cmd_v(
     CapyPDF_DrawContext *ctx, double x2, double y2, double x3, double y3) CAPYPDF_NOEXCEPT {
     API_BOUNDARY_START;
+    CHECK_FINITE(x2, y2, x3, y3);
     auto *c = static_cast<PdfDrawContext *>(ctx);
     return conv_err(c->cmd_v(x2, y2, x3, y3));
     API_BOUNDARY_END;
@@ -1313,6 +1351,7 @@ CAPYPDF_PUBLIC CapyPDF_EC capy_dc_cmd_v(
 CAPYPDF_PUBLIC CapyPDF_EC capy_dc_cmd_w(CapyPDF_DrawContext *ctx,
                                         double line_width) CAPYPDF_NOEXCEPT {
     API_BOUNDARY_START;
+    CHECK_FINITE(line_width);
     auto *c = static_cast<PdfDrawContext *>(ctx);
     return conv_err(c->cmd_w(line_width));
     API_BOUNDARY_END;
@@ -1335,6 +1374,7 @@ CAPYPDF_PUBLIC CapyPDF_EC capy_dc_cmd_Wstar(CapyPDF_DrawContext *ctx) CAPYPDF_NO
 CAPYPDF_PUBLIC CapyPDF_EC capy_dc_cmd_y(
     CapyPDF_DrawContext *ctx, double x1, double y1, double x3, double y3) CAPYPDF_NOEXCEPT {
     API_BOUNDARY_START;
+    CHECK_FINITE(x1, y1, x3, y3);
     auto *c = static_cast<PdfDrawContext *>(ctx);
     return conv_err(c->cmd_y(x1, y1, x3, y3));
     API_BOUNDARY_END;
@@ -1365,6 +1405,7 @@ CAPYPDF_PUBLIC CapyPDF_EC capy_dc_render_text(CapyPDF_DrawContext *ctx,
                                               double y) CAPYPDF_NOEXCEPT {
     API_BOUNDARY_START;
     auto *c = static_cast<PdfDrawContext *>(ctx);
+    CHECK_FINITE(point_size, x, y);
     auto utxt = validate_utf8(text, strsize);
     if(!utxt) {
         return conv_err(utxt);
@@ -1426,6 +1467,7 @@ CAPYPDF_PUBLIC CapyPDF_EC capy_dc_set_group_matrix(CapyPDF_DrawContext *ctx,
                                                    double e,
                                                    double f) CAPYPDF_NOEXCEPT {
     API_BOUNDARY_START;
+    CHECK_FINITE(a, b, c, d, e, f);
     auto *dc = static_cast<PdfDrawContext *>(ctx);
     PdfMatrix m{a, b, c, d, e, f};
     return conv_err(dc->set_group_matrix(m));
@@ -1481,6 +1523,7 @@ CAPYPDF_PUBLIC CapyPDF_EC capy_form_xobject_new(CapyPDF_Generator *gen,
                                                 double t,
                                                 CapyPDF_DrawContext **out_ptr) CAPYPDF_NOEXCEPT {
     API_BOUNDARY_START;
+    CHECK_FINITE(l, b, r, t);
     auto *g = static_cast<PdfGen *>(gen);
     auto bbox = PdfRectangle::construct(l, b, r, t);
     if(!bbox) {
@@ -1495,6 +1538,7 @@ CAPYPDF_PUBLIC CapyPDF_EC capy_transparency_group_new(
     CapyPDF_Generator *gen, double l, double b, double r, double t, CapyPDF_DrawContext **out_ptr)
     CAPYPDF_NOEXCEPT {
     API_BOUNDARY_START;
+    CHECK_FINITE(l, b, r, t);
     auto *g = static_cast<PdfGen *>(gen);
     auto bbox = PdfRectangle::construct(l, b, r, t);
     if(!bbox) {
@@ -1512,6 +1556,7 @@ CAPYPDF_PUBLIC CapyPDF_EC capy_tiling_pattern_context_new(CapyPDF_Generator *gen
                                                           double r,
                                                           double t) CAPYPDF_NOEXCEPT {
     API_BOUNDARY_START;
+    CHECK_FINITE(l, b, r, t);
     auto *g = static_cast<PdfGen *>(gen);
     auto bbox = PdfRectangle::construct(l, b, r, t);
     if(!bbox) {
@@ -1656,12 +1701,14 @@ CAPYPDF_PUBLIC CapyPDF_EC capy_text_set_stroke(CapyPDF_Text *text,
 
 CAPYPDF_PUBLIC CapyPDF_EC capy_text_cmd_w(CapyPDF_Text *text, double line_width) CAPYPDF_NOEXCEPT {
     API_BOUNDARY_START;
+    CHECK_FINITE(line_width);
     auto *t = static_cast<PdfText *>(text);
     return conv_err(t->cmd_w(line_width));
     API_BOUNDARY_END;
 }
 CAPYPDF_PUBLIC CapyPDF_EC capy_text_cmd_M(CapyPDF_Text *text, double miterlimit) CAPYPDF_NOEXCEPT {
     API_BOUNDARY_START;
+    CHECK_FINITE(miterlimit);
     auto *t = static_cast<PdfText *>(text);
     return conv_err(t->cmd_M(miterlimit));
     API_BOUNDARY_END;
@@ -1685,6 +1732,8 @@ CAPYPDF_PUBLIC CapyPDF_EC capy_text_cmd_d(CapyPDF_Text *text,
                                           int32_t array_size,
                                           double phase) CAPYPDF_NOEXCEPT {
     API_BOUNDARY_START;
+    CHECK_FINITE(phase);
+    CHECK_FINITE_ARRAY(dash_array, array_size);
     auto *t = static_cast<PdfText *>(text);
     return conv_err(t->cmd_d(dash_array, array_size, phase));
     API_BOUNDARY_END;
@@ -1714,6 +1763,7 @@ CAPYPDF_PUBLIC CapyPDF_EC capy_text_cmd_EMC(CapyPDF_Text *text) CAPYPDF_NOEXCEPT
 
 CAPYPDF_PUBLIC CapyPDF_EC capy_text_cmd_Tc(CapyPDF_Text *text, double spacing) CAPYPDF_NOEXCEPT {
     API_BOUNDARY_START;
+    CHECK_FINITE(spacing);
     auto *t = static_cast<PdfText *>(text);
     return conv_err(t->cmd_Tc(spacing));
     API_BOUNDARY_END;
@@ -1723,6 +1773,7 @@ CAPYPDF_PUBLIC CapyPDF_EC capy_text_cmd_Td(CapyPDF_Text *text,
                                            double x,
                                            double y) CAPYPDF_NOEXCEPT {
     API_BOUNDARY_START;
+    CHECK_FINITE(x, y);
     auto *t = static_cast<PdfText *>(text);
     return conv_err(t->cmd_Td(x, y));
     API_BOUNDARY_END;
@@ -1732,6 +1783,7 @@ CAPYPDF_PUBLIC CapyPDF_EC capy_text_cmd_TD(CapyPDF_Text *text,
                                            double x,
                                            double y) CAPYPDF_NOEXCEPT {
     API_BOUNDARY_START;
+    CHECK_FINITE(x, y);
     auto *t = static_cast<PdfText *>(text);
     return conv_err(t->cmd_TD(x, y));
     API_BOUNDARY_END;
@@ -1741,6 +1793,7 @@ CAPYPDF_PUBLIC CapyPDF_EC capy_text_cmd_Tf(CapyPDF_Text *text,
                                            CapyPDF_FontId font,
                                            double pointsize) CAPYPDF_NOEXCEPT {
     API_BOUNDARY_START;
+    CHECK_FINITE(pointsize);
     auto *t = static_cast<PdfText *>(text);
     return conv_err(t->cmd_Tf(font, pointsize));
     API_BOUNDARY_END;
@@ -1758,6 +1811,7 @@ CAPYPDF_PUBLIC CapyPDF_EC capy_text_cmd_TJ(CapyPDF_Text *text,
 
 CAPYPDF_PUBLIC CapyPDF_EC capy_text_cmd_TL(CapyPDF_Text *text, double leading) CAPYPDF_NOEXCEPT {
     API_BOUNDARY_START;
+    CHECK_FINITE(leading);
     auto *t = static_cast<PdfText *>(text);
     return conv_err(t->cmd_TL(leading));
     API_BOUNDARY_END;
@@ -1771,6 +1825,7 @@ CAPYPDF_PUBLIC CapyPDF_EC capy_text_cmd_Tm(CapyPDF_Text *text,
                                            double e,
                                            double f) CAPYPDF_NOEXCEPT {
     API_BOUNDARY_START;
+    CHECK_FINITE(a, b, c, d, e, f);
     auto *t = static_cast<PdfText *>(text);
     return conv_err(t->cmd_Tm(PdfMatrix{a, b, c, d, e, f}));
     API_BOUNDARY_END;
@@ -1840,6 +1895,7 @@ CAPYPDF_PUBLIC CapyPDF_EC capy_color_set_icc(CapyPDF_Color *color,
                                              double *values,
                                              int32_t num_values) CAPYPDF_NOEXCEPT {
     API_BOUNDARY_START;
+    CHECK_FINITE_ARRAY(values, num_values);
     ICCColor icc;
     icc.id = icc_id;
     icc.values.assign(values, values + num_values);
@@ -1852,6 +1908,7 @@ CAPYPDF_PUBLIC CapyPDF_EC capy_color_set_separation(CapyPDF_Color *color,
                                                     CapyPDF_SeparationId sep_id,
                                                     double value) CAPYPDF_NOEXCEPT {
     API_BOUNDARY_START;
+    CHECK_FINITE(value);
     if(value < 0 || value > 1.0) {
         return conv_err(ErrorCode::ColorOutOfRange);
     }
@@ -1874,6 +1931,7 @@ CAPYPDF_PUBLIC CapyPDF_EC capy_color_set_lab(CapyPDF_Color *color,
                                              double a,
                                              double b) CAPYPDF_NOEXCEPT {
     API_BOUNDARY_START;
+    CHECK_FINITE(l, a, b);
     color->c = LabColor{lab_id, l, a, b};
     RETNOERR;
     API_BOUNDARY_END;
@@ -1899,6 +1957,7 @@ CAPYPDF_PUBLIC CapyPDF_EC capy_transition_set_S(CapyPDF_Transition *tr,
 CAPYPDF_PUBLIC CapyPDF_EC capy_transition_set_D(CapyPDF_Transition *tr,
                                                 double duration) CAPYPDF_NOEXCEPT {
     API_BOUNDARY_START;
+    CHECK_FINITE(duration);
     auto pt = static_cast<Transition *>(tr);
     pt->duration = duration;
     RETNOERR;
@@ -1937,6 +1996,7 @@ CAPYPDF_PUBLIC CapyPDF_EC capy_transition_set_Di(CapyPDF_Transition *tr,
 CAPYPDF_PUBLIC CapyPDF_EC capy_transition_set_SS(CapyPDF_Transition *tr,
                                                  double scale) CAPYPDF_NOEXCEPT {
     API_BOUNDARY_START;
+    CHECK_FINITE(scale);
     auto pt = static_cast<Transition *>(tr);
     pt->SS = scale;
     RETNOERR;
@@ -2062,6 +2122,7 @@ CAPYPDF_PUBLIC CapyPDF_EC capy_graphics_state_set_OPM(CapyPDF_GraphicsState *sta
 CAPYPDF_PUBLIC CapyPDF_EC capy_graphics_state_set_FL(CapyPDF_GraphicsState *state,
                                                      double value) CAPYPDF_NOEXCEPT {
     API_BOUNDARY_START;
+    CHECK_FINITE(value);
     auto *s = static_cast<GraphicsState *>(state);
     if(value < 0) {
         return conv_err(ErrorCode::InvalidFlatness);
@@ -2074,6 +2135,7 @@ CAPYPDF_PUBLIC CapyPDF_EC capy_graphics_state_set_FL(CapyPDF_GraphicsState *stat
 CAPYPDF_PUBLIC CapyPDF_EC capy_graphics_state_set_SM(CapyPDF_GraphicsState *state,
                                                      double value) CAPYPDF_NOEXCEPT {
     API_BOUNDARY_START;
+    CHECK_FINITE(value);
     auto *s = static_cast<GraphicsState *>(state);
     if(value < 0 || value > 1.0) {
         return conv_err(ErrorCode::InvalidFlatness);
@@ -2332,6 +2394,8 @@ CAPYPDF_PUBLIC CapyPDF_EC capy_type2_function_new(double *domain,
                                                   double n,
                                                   CapyPDF_Function **out_ptr) CAPYPDF_NOEXCEPT {
     API_BOUNDARY_START;
+    CHECK_FINITE(n);
+    CHECK_FINITE_ARRAY(domain, domain_size);
     *out_ptr = new _capyPDF_Function(PdfFunction{
         FunctionType2{std::vector<double>(domain, domain + domain_size), c1->c, c2->c, n}});
     RETNOERR;
@@ -2355,6 +2419,12 @@ CAPYPDF_PUBLIC CapyPDF_EC capy_type3_function_new(double *domain,
                                                   int32_t encode_size,
                                                   CapyPDF_Function **out_ptr) CAPYPDF_NOEXCEPT {
     API_BOUNDARY_START;
+    CHECK_FINITE_ARRAY(domain, domain_size);
+    CHECK_FINITE_ARRAY(bounds, bounds_size);
+    if(functions_size < 0) {
+        return conv_err(ErrorCode::InvalidBufsize);
+    }
+    CHECK_FINITE_ARRAY(encode, encode_size);
     *out_ptr = new _capyPDF_Function(PdfFunction{
         FunctionType3{std::vector<double>(domain, domain + domain_size),
                       std::vector<CapyPDF_FunctionId>(functions, functions + functions_size),
@@ -2372,6 +2442,8 @@ CAPYPDF_PUBLIC CapyPDF_EC capy_type4_function_new(double *domain,
                                                   int32_t code_size,
                                                   CapyPDF_Function **out_ptr) CAPYPDF_NOEXCEPT {
     API_BOUNDARY_START;
+    CHECK_FINITE_ARRAY(domain, domain_size);
+    CHECK_FINITE_ARRAY(range, range_size);
     auto rc = validate_cstring(code, code_size);
     if(!rc) {
         return conv_err(rc.error());
@@ -2392,6 +2464,7 @@ CAPYPDF_PUBLIC CapyPDF_EC capy_type2_shading_new(CapyPDF_Device_Colorspace cs,
                                                  CapyPDF_FunctionId func,
                                                  CapyPDF_Shading **out_ptr) CAPYPDF_NOEXCEPT {
     API_BOUNDARY_START;
+    CHECK_FINITE(x0, y0, x1, y1);
     CHECK_ENUM_ARG(cs, CAPY_DEVICE_CS_CMYK);
     *out_ptr = new _capyPDF_Shading(PdfShading{ShadingType2{cs, x0, y0, x1, y1, func}});
     RETNOERR;
@@ -2420,6 +2493,7 @@ CAPYPDF_PUBLIC CapyPDF_EC capy_shading_set_domain(CapyPDF_Shading *shade,
                                                   double starting,
                                                   double ending) CAPYPDF_NOEXCEPT {
     API_BOUNDARY_START;
+    CHECK_FINITE(starting, ending);
     if(auto *t2 = std::get_if<ShadingType2>(&shade->sh)) {
         t2->domain = ShadingDomain{starting, ending};
     } else if(auto *t3 = std::get_if<ShadingType3>(&shade->sh)) {
@@ -2443,6 +2517,7 @@ CAPYPDF_PUBLIC CapyPDF_EC capy_type3_shading_new(CapyPDF_Device_Colorspace cs,
                                                  CapyPDF_FunctionId func,
                                                  CapyPDF_Shading **out_ptr) CAPYPDF_NOEXCEPT {
     API_BOUNDARY_START;
+    CHECK_FINITE_ARRAY(coords, 6);
     CHECK_ENUM_ARG(cs, CAPY_DEVICE_CS_CMYK);
     *out_ptr = new _capyPDF_Shading(
         ShadingType3{cs, coords[0], coords[1], coords[2], coords[3], coords[4], coords[5], func});
@@ -2457,6 +2532,7 @@ CAPYPDF_PUBLIC CapyPDF_EC capy_type4_shading_new(CapyPDF_Device_Colorspace cs,
                                                  double maxy,
                                                  CapyPDF_Shading **out_ptr) CAPYPDF_NOEXCEPT {
     API_BOUNDARY_START;
+    CHECK_FINITE(minx, miny, maxx, maxy);
     CHECK_ENUM_ARG(cs, CAPY_DEVICE_CS_CMYK);
     *out_ptr = new _capyPDF_Shading(ShadingType4{{}, minx, miny, maxx, maxy, cs});
     RETNOERR;
@@ -2466,6 +2542,7 @@ CAPYPDF_PUBLIC CapyPDF_EC capy_type4_shading_new(CapyPDF_Device_Colorspace cs,
 CAPYPDF_PUBLIC CapyPDF_EC capy_type4_shading_add_triangle(
     CapyPDF_Shading *shade, const double *coords, const CapyPDF_Color **color) CAPYPDF_NOEXCEPT {
     API_BOUNDARY_START;
+    CHECK_FINITE_ARRAY(coords, 6);
     auto *sh4 = std::get_if<ShadingType4>(&shade->sh);
     if(!sh4) {
         return conv_err(ErrorCode::IncorrectShadingType);
@@ -2483,6 +2560,7 @@ CAPYPDF_PUBLIC CapyPDF_EC capy_type4_shading_extend(CapyPDF_Shading *shade,
                                                     const double *coords,
                                                     const CapyPDF_Color *color) CAPYPDF_NOEXCEPT {
     API_BOUNDARY_START;
+    CHECK_FINITE_ARRAY(coords, 2);
     auto *sh4 = std::get_if<ShadingType4>(&shade->sh);
     if(!sh4) {
         return conv_err(ErrorCode::IncorrectShadingType);
@@ -2507,6 +2585,7 @@ CAPYPDF_PUBLIC CapyPDF_EC capy_type6_shading_new(CapyPDF_Device_Colorspace cs,
                                                  double maxy,
                                                  CapyPDF_Shading **out_ptr) CAPYPDF_NOEXCEPT {
     API_BOUNDARY_START;
+    CHECK_FINITE(minx, miny, maxx, maxy);
     CHECK_ENUM_ARG(cs, CAPY_DEVICE_CS_CMYK);
     *out_ptr = new _capyPDF_Shading(ShadingType6{
         {},
@@ -2523,6 +2602,7 @@ CAPYPDF_PUBLIC CapyPDF_EC capy_type6_shading_new(CapyPDF_Device_Colorspace cs,
 CAPYPDF_PUBLIC CapyPDF_EC capy_type6_shading_add_patch(
     CapyPDF_Shading *shade, const double *coords, const CapyPDF_Color **colors) CAPYPDF_NOEXCEPT {
     API_BOUNDARY_START;
+    CHECK_FINITE_ARRAY(coords, 24);
     auto *sh6 = std::get_if<ShadingType6>(&shade->sh);
     if(!sh6) {
         return conv_err(ErrorCode::IncorrectShadingType);
@@ -2539,6 +2619,7 @@ CAPYPDF_PUBLIC CapyPDF_EC capy_type6_shading_extend(CapyPDF_Shading *shade,
                                                     const double *coords,
                                                     const CapyPDF_Color **colors) CAPYPDF_NOEXCEPT {
     API_BOUNDARY_START;
+    CHECK_FINITE_ARRAY(coords, 16);
     auto *sh6 = std::get_if<ShadingType6>(&shade->sh);
     if(!sh6) {
         return conv_err(ErrorCode::IncorrectShadingType);
@@ -2587,6 +2668,7 @@ CAPYPDF_PUBLIC CapyPDF_EC capy_line_annotation_new(const char *utf8_text,
                                                    double y2,
                                                    CapyPDF_Annotation **out_ptr) CAPYPDF_NOEXCEPT {
     API_BOUNDARY_START;
+    CHECK_FINITE(x1, y1, x2, y2);
     auto u8str = validate_utf8(utf8_text, strsize);
     if(!u8str) {
         return conv_err(u8str);
@@ -2665,6 +2747,7 @@ CAPYPDF_PUBLIC CapyPDF_EC capy_annotation_set_uri(CapyPDF_Annotation *annotation
 CAPYPDF_PUBLIC CapyPDF_EC capy_annotation_set_rectangle(
     CapyPDF_Annotation *annotation, double x1, double y1, double x2, double y2) CAPYPDF_NOEXCEPT {
     API_BOUNDARY_START;
+    CHECK_FINITE(x1, y1, x2, y2);
     auto *a = static_cast<Annotation *>(annotation);
     a->rect = PdfRectangle{x1, y1, x2, y2};
     RETNOERR;
@@ -2697,6 +2780,7 @@ CAPYPDF_PUBLIC CapyPDF_EC capy_annotation_set_line_leader(CapyPDF_Annotation *an
                                                           double LL,
                                                           double LLE) CAPYPDF_NOEXCEPT {
     API_BOUNDARY_START;
+    CHECK_FINITE(LL, LLE);
     auto *a = static_cast<Annotation *>(annotation);
     if(auto *line = std::get_if<LineAnnotation>(&a->sub)) {
         line->leaders = Leaders{LL, LLE};
@@ -2902,17 +2986,20 @@ CAPYPDF_PUBLIC CapyPDF_EC capy_destination_set_page_xyz(CapyPDF_Destination *des
     if(physical_page_number < 0) {
         return conv_err(ErrorCode::InvalidPageNumber);
     }
-    d->page = physical_page_number;
     auto dxyz = DestinationXYZ{};
     if(x) {
+        CHECK_FINITE(*x);
         dxyz.x = *x;
     }
     if(y) {
+        CHECK_FINITE(*y);
         dxyz.y = *y;
     }
     if(z) {
+        CHECK_FINITE(*z);
         dxyz.z = *z;
     }
+    d->page = physical_page_number;
     d->loc = dxyz;
     RETNOERR;
     API_BOUNDARY_END;
@@ -3007,6 +3094,7 @@ CAPYPDF_PUBLIC CapyPDF_EC capy_shading_pattern_set_matrix(CapyPDF_ShadingPattern
                                                           double e,
                                                           double f) CAPYPDF_NOEXCEPT {
     API_BOUNDARY_START;
+    CHECK_FINITE(a, b, c, d, e, f);
     auto *p = static_cast<ShadingPattern *>(shp);
     p->m = PdfMatrix{a, b, c, d, e, f};
     RETNOERR;
@@ -3228,6 +3316,7 @@ CAPYPDF_PUBLIC CapyPDF_EC capy_halftone_set_type1(CapyPDF_Halftone *ht,
                                                   CapyPDF_Halftone_Spot_Function htspot)
     CAPYPDF_NOEXCEPT {
     API_BOUNDARY_START;
+    CHECK_FINITE(frequency, angle);
     CHECK_ENUM_ARG(htspot, CAPY_HT_FUNC_DIAMOND);
     ht->ht = HalftoneType1{frequency, angle, htspot};
     RETNOERR;
@@ -3363,6 +3452,7 @@ CAPYPDF_PUBLIC CapyPDF_EC capy_form_field_destroy(CapyPDF_FormField *field) CAPY
 CAPYPDF_PUBLIC CapyPDF_EC capy_viewport_new(
     double x1, double y1, double x2, double y2, CapyPDF_Viewport **out_ptr) CAPYPDF_NOEXCEPT {
     API_BOUNDARY_START;
+    CHECK_FINITE(x1, y1, x2, y2);
     *out_ptr = new Viewport{{}, PdfRectangle{x1, y1, x2, y2}, {}, {}};
     RETNOERR;
     API_BOUNDARY_END;
@@ -3444,6 +3534,7 @@ CAPYPDF_PUBLIC CapyPDF_EC capy_number_format_new(const char *name,
                                                  double C,
                                                  CapyPDF_NumberFormat **out_ptr) CAPYPDF_NOEXCEPT {
     API_BOUNDARY_START;
+    CHECK_FINITE(C);
     auto rc = validate_utf8(name, namelen);
     if(!rc) {
         return conv_err(rc);
diff --git a/src/drawcontext.cpp b/src/drawcontext.cpp
index 5c39f18..839df34 100644
--- a/src/drawcontext.cpp
+++ b/src/drawcontext.cpp
@@ -389,7 +389,7 @@ PdfDrawContext::cmd_d(const double *dash_array, size_t dash_array_length, double
     for(size_t i = 0; i < dash_array_length; ++i) {
         std::format_to(app, "{:f} ", dash_array[i]);
     }
-    std::format_to(app, "] {} d\n", phase);
+    std::format_to(app, "] {:f} d\n", phase);
     cmds.append(cmd);
     RETOK;
 }
@@ -1044,7 +1044,7 @@ rvoe<NoReturnValue> PdfDrawContext::render_text(const PdfText &textobj) {
             for(auto val : dash.array) {
                 std::format_to(std::back_inserter(cmd), "{:f} ", val);
             }
-            std::format_to(std::back_inserter(cmd), " ] {} d\n", dash.phase);
+            std::format_to(std::back_inserter(cmd), " ] {:f} d\n", dash.phase);
             cmds.append(cmd);
             RETOK;
         },
diff --git a/src/errorhandling.cpp b/src/errorhandling.cpp
index 7a5f15c..11d2fce 100644
--- a/src/errorhandling.cpp
+++ b/src/errorhandling.cpp
@@ -105,6 +105,7 @@ const std::array<const char *, (std::size_t)ErrorCode::NumErrors> error_texts{
 "The metadata XML must contain a \"pdf:Producer\" entry with the value \"CapyPDF\".",
 "Collection object already exists.",
 "Output file too big for xref table. Please report this issue in CapyPDF bug tracker.",
+"Number is not finite.",
 };
 
 // clang-format on
diff --git a/src/errorhandling.hpp b/src/errorhandling.hpp
index 0dfd646..ec17c62 100644
--- a/src/errorhandling.hpp
+++ b/src/errorhandling.hpp
@@ -103,6 +103,7 @@ enum class ErrorCode : int32_t {
     ProducerMissingCapy,
     CollectionExists,
     XRefOffsetTooBig,
+    NonFiniteNumber,
 
     // When you add an error code here, also add the string representation in the .cpp file.
     NumErrors,
-- 
2.43.0


From 21a652bd4539a3165c821aa0af0fbd07f2e2e6fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:27 +0000
Subject: [PATCH 17/92] fix: graphics state keys for non-stroking overprint and
 alpha source

---
 src/document.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/document.cpp b/src/document.cpp
index df5b861..0eac608 100644
--- a/src/document.cpp
+++ b/src/document.cpp
@@ -1695,7 +1695,7 @@ rvoe<CapyPDF_GraphicsStateId> PdfDocument::add_graphics_state(const GraphicsStat
         fmt.add_token_pair("/OP", *state.OP ? "true" : "false");
     }
     if(state.op) {
-        fmt.add_token_pair("/op2", *state.op ? "true" : "false");
+        fmt.add_token_pair("/op", *state.op ? "true" : "false");
     }
     if(state.OPM) {
         fmt.add_token_pair("/OPM", *state.OPM);
@@ -1738,7 +1738,7 @@ rvoe<CapyPDF_GraphicsStateId> PdfDocument::add_graphics_state(const GraphicsStat
         fmt.add_token_pair("/ca", state.ca->v());
     }
     if(state.AIS) {
-        fmt.add_token_pair("/AIS {}", *state.AIS ? "true" : "false");
+        fmt.add_token_pair("/AIS", *state.AIS ? "true" : "false");
     }
     if(state.TK) {
         fmt.add_token_pair("/TK", *state.TK ? "true" : "false");
-- 
2.43.0


From 0a12a3bbbb7dab7a9fce69a384e869c1901064f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:20 +0000
Subject: [PATCH 18/92] fix: page label styles are written as names and start
 pages must increase

---
 src/document.cpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/document.cpp b/src/document.cpp
index 0eac608..112d2a2 100644
--- a/src/document.cpp
+++ b/src/document.cpp
@@ -27,12 +27,12 @@ const std::array<const char *, 3> colorspace_names{
     "/DeviceCMYK",
 };
 
-const std::array<const char, 5> page_label_types{
-    'D', // Decimal
-    'R', // Roman Upper
-    'r', // Roman Lower
-    'A', // Letter Upper
-    'a', // Letter Lower
+const std::array<const char *, 5> page_label_types{
+    "/D", // Decimal
+    "/R", // Roman Upper
+    "/r", // Roman Lower
+    "/A", // Letter Upper
+    "/a", // Letter Lower
 };
 
 const std::array<const char *, 21> spot_function_names{
@@ -643,7 +643,7 @@ PdfDocument::add_page_labeling(uint32_t start_page,
                                std::optional<CapyPDF_Page_Label_Number_Style> style,
                                std::optional<u8string> prefix,
                                std::optional<uint32_t> start_num) {
-    if(!page_labels.empty() && page_labels.back().start_page > start_page) {
+    if(!page_labels.empty() && page_labels.back().start_page >= start_page) {
         RETERR(NonSequentialPageNumber);
     }
     page_labels.emplace_back(start_page, style, std::move(prefix), start_num);
-- 
2.43.0


From f71f5d3ec8bca10650d78364e96d9d0a02f16b75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:20 +0000
Subject: [PATCH 19/92] fix: predefined spot function names are those of the
 PDF specification

---
 src/document.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/document.cpp b/src/document.cpp
index 112d2a2..f4423ce 100644
--- a/src/document.cpp
+++ b/src/document.cpp
@@ -37,22 +37,22 @@ const std::array<const char *, 5> page_label_types{
 
 const std::array<const char *, 21> spot_function_names{
     "/SimpleDot",
-    "/Inverted_SimpleDot",
+    "/InvertedSimpleDot",
     "/DoubleDot",
-    "/Inverted_DoubleDot",
+    "/InvertedDoubleDot",
     "/CosineDot",
     "/Double",
-    "/Inverted_Double",
+    "/InvertedDouble",
     "/Line",
     "/LineX",
     "/LineY",
     "/Round",
     "/Ellipse",
     "/EllipseA",
-    "/Inverted_EllipseA",
+    "/InvertedEllipseA",
     "/EllipseB",
     "/EllipseC",
-    "/Inverted_EllipseC",
+    "/InvertedEllipseC",
     "/Square",
     "/Cross",
     "/Rhomboid",
-- 
2.43.0


From 5dcfa7c5d7f074652089f09da7edd9ada21c6506 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:20 +0000
Subject: [PATCH 20/92] fix: the type of an output intent is a name

---
 src/document.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/document.cpp b/src/document.cpp
index f4423ce..2237dfc 100644
--- a/src/document.cpp
+++ b/src/document.cpp
@@ -1160,7 +1160,7 @@ void PdfDocument::create_output_intent() {
     const char *gts =
         std::holds_alternative<CapyPDF_PDFX_Type>(docprops.subtype) ? "/GTS_PDFX" : "/GTS_PDFA1";
     fmt.begin_dict();
-    fmt.add_token_pair("/Type", "OutputIntent");
+    fmt.add_token_pair("/Type", "/OutputIntent");
     fmt.add_token_pair("/S", gts);
     fmt.add_token("/OutputConditionIdentifier");
     fmt.add_token(utf8_to_pdfutf16be(docprops.intent_condition_identifier));
-- 
2.43.0


From cd4ab2cf9bcae08de8d7b39cccf9b1c6dabbaee3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:20 +0000
Subject: [PATCH 21/92] fix: NeedAppearances belongs in the form dictionary

---
 src/document.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/document.cpp b/src/document.cpp
index 2237dfc..e46f928 100644
--- a/src/document.cpp
+++ b/src/document.cpp
@@ -1086,8 +1086,8 @@ rvoe<NoReturnValue> PdfDocument::create_catalog() {
             }
         }
         fmt.end_array();
-        fmt.end_dict();
         fmt.add_token_pair("/NeedAppearances", "true");
+        fmt.end_dict();
     }
     if(!ocg_items.empty()) {
         fmt.add_token("/OCProperties");
-- 
2.43.0


From 68406b7cc44eb2fab9ef99d576a7788ad780e65f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:20 +0000
Subject: [PATCH 22/92] fix: the structure tree root refers to its parent tree,
 all root items and role types

---
 src/document.cpp | 23 +++++++++--------------
 1 file changed, 9 insertions(+), 14 deletions(-)

diff --git a/src/document.cpp b/src/document.cpp
index e46f928..da82af9 100644
--- a/src/document.cpp
+++ b/src/document.cpp
@@ -1253,35 +1253,30 @@ rvoe<int32_t> PdfDocument::create_outlines() {
 }
 
 void PdfDocument::create_structure_root_dict() {
-    std::optional<CapyPDF_StructureItemId> rootobj;
-
     if(!structure_parent_tree_object) {
         fprintf(stderr, "Internal error!\n");
         std::abort();
     }
-    for(int32_t i = 0; i < (int32_t)structure_items.size(); ++i) {
-        if(!structure_items[i].parent) {
-            rootobj = CapyPDF_StructureItemId{i};
-            break;
-        }
-        // FIXME, check that there is only one.
-    }
-    assert(rootobj);
-    // /ParentTree
     ObjectFormatter fmt;
     fmt.begin_dict();
     fmt.add_token_pair("/Type", "/StructTreeRoot");
     fmt.add_token("/K");
     fmt.begin_array();
-    fmt.add_object_ref(structure_items[rootobj->id].obj_id);
+    for(const auto &item : structure_items) {
+        if(!item.parent) {
+            fmt.add_object_ref(item.obj_id);
+        }
+    }
     fmt.end_array();
-    fmt.add_token_pair("/ParentTree", structure_parent_tree_object.value());
+    fmt.add_token("/ParentTree");
+    fmt.add_object_ref(structure_parent_tree_object.value());
     fmt.add_token_pair("/ParentTreeNextKey", structure_parent_tree_items.size());
     if(!rolemap.empty()) {
         fmt.add_token("/RoleMap");
         fmt.begin_dict();
         for(const auto &i : rolemap) {
-            fmt.add_token_pair(bytes2pdfstringliteral(i.name), structure_type_names.at(i.builtin));
+            fmt.add_token(bytes2pdfstringliteral(i.name));
+            fmt.add_token_with_slash(structure_type_names.at(i.builtin));
         }
         fmt.end_dict();
     }
-- 
2.43.0


From b86fe6a80692535c567cb506caadee56bf9363e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:20 +0000
Subject: [PATCH 23/92] fix: the rendering intent of a graphics state

---
 src/document.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/document.cpp b/src/document.cpp
index da82af9..8a70cb8 100644
--- a/src/document.cpp
+++ b/src/document.cpp
@@ -1684,7 +1684,7 @@ rvoe<CapyPDF_GraphicsStateId> PdfDocument::add_graphics_state(const GraphicsStat
         fmt.add_token_pair("/ML", *state.ML);
     }
     if(state.RI) {
-        fmt.add_token_pair("/RenderingIntent", rendering_intent_names.at(*state.RI));
+        fmt.add_token_pair("/RI", std::string{"/"} + rendering_intent_names.at(*state.RI));
     }
     if(state.OP) {
         fmt.add_token_pair("/OP", *state.OP ? "true" : "false");
-- 
2.43.0


From 08abd3efb560b4bf92a4423714b49299cdbcbbff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:20 +0000
Subject: [PATCH 24/92] fix: subtype and file specification of embedded files

---
 src/document.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/document.cpp b/src/document.cpp
index 8a70cb8..4063139 100644
--- a/src/document.cpp
+++ b/src/document.cpp
@@ -2094,8 +2094,7 @@ rvoe<CapyPDF_EmbeddedFileId> PdfDocument::embed_file(EmbeddedFile &ef) {
         fmt.begin_dict();
         fmt.add_token_pair("/Type", "/EmbeddedFile");
         if(!ef.subtype.empty()) {
-            auto quoted = pdfname_quote(ef.subtype.sv());
-            fmt.add_token_pair("/Subtype", quoted);
+            fmt.add_token_pair("/Subtype", bytes2pdfstringliteral(ef.subtype.sv(), true));
         }
         fileobj_id = add_object(DeflatePDFObject{std::move(fmt), RawData(std::move(ef.contents))});
     }
@@ -2104,7 +2103,7 @@ rvoe<CapyPDF_EmbeddedFileId> PdfDocument::embed_file(EmbeddedFile &ef) {
         ObjectFormatter fmt;
         fmt.begin_dict();
         fmt.add_token_pair("/Type", "/Filespec");
-        fmt.add_token_pair("/F", pdfstring_quote(ef.pdfname.sv()));
+        fmt.add_token_pair("/F", u8str2filespec(ef.pdfname));
         fmt.add_token("/EF");
         fmt.begin_dict();
         fmt.add_token("/F");
-- 
2.43.0


From a87abcb0bf07440db6f818f363ac762a0a3c2e66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:51 +0000
Subject: [PATCH 25/92] fix: collection schemas have all field types and quoted
 field names

---
 src/document.cpp        | 9 ++++++---
 src/objectformatter.cpp | 2 +-
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/document.cpp b/src/document.cpp
index 4063139..a786604 100644
--- a/src/document.cpp
+++ b/src/document.cpp
@@ -150,7 +150,10 @@ const std::array<const char *, 3> blackpt_names{
     "/DEFAULT",
 };
 
-const std::array<const char *, 6> collection_view_subtype_names{
+const std::array<const char *, 9> collection_view_subtype_names{
+    "/S",
+    "/D",
+    "/N",
     "/F",
     "/Desc",
     "/ModDate",
@@ -1126,7 +1129,7 @@ rvoe<NoReturnValue> PdfDocument::create_catalog() {
             fmt.begin_dict();
             const auto &schema = c.schema.value();
             for(const auto &[key, value] : schema.entries) {
-                fmt.add_token_with_slash(key.c_str());
+                fmt.add_token(bytes2pdfstringliteral(key.sv()));
                 fmt.begin_dict();
                 fmt.add_token("/Subtype");
                 fmt.add_token(collection_view_subtype_names.at(value.subtype));
@@ -2159,7 +2162,7 @@ PdfDocument::add_optional_content_group(const OptionalContentGroup &g) {
     ObjectFormatter fmt;
     fmt.begin_dict();
     fmt.add_token_pair("/Type", "/OCG");
-    fmt.add_token_pair("/Name", pdfstring_quote(g.name));
+    fmt.add_token_pair("/Name", u8str2u8textstring(g.name));
     fmt.end_dict();
     auto id = add_object(FullPDFObject{fmt.steal(), {}});
     ocg_items.push_back(id);
diff --git a/src/objectformatter.cpp b/src/objectformatter.cpp
index 6443a75..6afa8d1 100644
--- a/src/objectformatter.cpp
+++ b/src/objectformatter.cpp
@@ -98,6 +98,7 @@ void ObjectFormatter::add_token(uint64_t number) {
 void ObjectFormatter::add_token(bool value) {
     check_indent();
     buf += value ? "true" : "false";
+    added_item();
 }
 
 void ObjectFormatter::add_token_with_slash(const char *name) {
@@ -172,7 +173,6 @@ void ObjectFormatter::add_pdfstring(const asciistring &str) {
 void ObjectFormatter::add_bytestring(const std::string_view str) {
     auto quoted = pdfstring_quote(str);
     add_token(quoted);
-    added_item();
 }
 
 void ObjectFormatter::add_utf8_string(const u8string &ustr) {
-- 
2.43.0


From 849f66be0b4a9e83b51c744dbe496c9b2d19c6a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:51 +0000
Subject: [PATCH 26/92] fix: mesh shadings with continuation patches or
 unsupported colours do not abort

---
 src/capi.cpp      |  1 +
 src/document.cpp  | 29 +++++++++++++----------------
 src/pdfcommon.hpp |  2 +-
 3 files changed, 15 insertions(+), 17 deletions(-)

diff --git a/src/capi.cpp b/src/capi.cpp
index 44f5155..d390c26 100644
--- a/src/capi.cpp
+++ b/src/capi.cpp
@@ -2630,6 +2630,7 @@ CAPYPDF_PUBLIC CapyPDF_EC capy_type6_shading_extend(CapyPDF_Shading *shade,
         }
         ContinuationCoonsPatch ccp;
         grab_coons_data(ccp, coords, colors);
+        ccp.flag = flag;
         sh6->elements.emplace_back(std::move(ccp));
     } else {
         return conv_err(ErrorCode::BadEnum);
diff --git a/src/document.cpp b/src/document.cpp
index a786604..c7a3dd4 100644
--- a/src/document.cpp
+++ b/src/document.cpp
@@ -211,8 +211,7 @@ rvoe<std::string> serialize_shade4(const ShadingType4 &shade) {
             ERCV(append_floatvalue<uint16_t>(s, cmyk->y.v()));
             ERCV(append_floatvalue<uint16_t>(s, cmyk->k.v()));
         } else {
-            fprintf(stderr, "Color space not supported yet.");
-            std::abort();
+            RETERR(ColorspaceMismatch);
         }
     }
     return rvoe<std::string>{std::move(s)};
@@ -220,18 +219,9 @@ rvoe<std::string> serialize_shade4(const ShadingType4 &shade) {
 
 rvoe<std::string> serialize_shade6(const ShadingType6 &shade) {
     std::string s;
-    for(const auto &eh : shade.elements) {
-        if(!std::holds_alternative<FullCoonsPatch>(eh)) {
-            fprintf(stderr, "Continuation patches not yet supported.\n");
-            std::abort();
-        }
-        const auto &e = std::get<FullCoonsPatch>(eh);
-        char flag = 0; //(char)e.flag;
-        assert(flag >= 0 && flag < 3);
-        const char *ptr;
-        ptr = (const char *)(&flag);
-        s.append(ptr, ptr + sizeof(char));
-
+    auto serialize_patch = [&shade, &s](const char flag,
+                                        const auto &e) -> rvoe<NoReturnValue> {
+        s.push_back(flag);
         for(const auto &p : e.p) {
             const double xratio =
                 std::clamp((p.x - shade.minx) / (shade.maxx - shade.minx), 0.0, 1.0);
@@ -270,6 +260,15 @@ rvoe<std::string> serialize_shade6(const ShadingType6 &shade) {
                 std::abort();
             }
         }
+        RETOK;
+    };
+    for(const auto &eh : shade.elements) {
+        if(const auto *full = std::get_if<FullCoonsPatch>(&eh)) {
+            ERCV(serialize_patch(0, *full));
+        } else {
+            const auto &cont = std::get<ContinuationCoonsPatch>(eh);
+            ERCV(serialize_patch((char)cont.flag, cont));
+        }
     }
     return s;
 }
@@ -1952,7 +1951,6 @@ rvoe<int32_t> PdfDocument::serialize_shading(const ShadingType4 &shade) {
     fmt.add_token_pair("/BitsPerCoordinate", 32);
     fmt.add_token_pair("/BitsPerComponent", 16);
     fmt.add_token_pair("/BitsPerFlag", 8);
-    fmt.add_token_pair("/Length", serialized.length());
     fmt.add_token("/Decode");
     fmt.begin_array(2);
     fmt.add_token(shade.minx);
@@ -1988,7 +1986,6 @@ rvoe<int32_t> PdfDocument::serialize_shading(const ShadingType6 &shade) {
     fmt.add_token_pair("/BitsPerCoordinate", 32);
     fmt.add_token_pair("/BitsPerComponent", 16);
     fmt.add_token_pair("/BitsPerFlag", 8);
-    fmt.add_token_pair("/Length", serialized.length());
     fmt.add_token("/Decode");
     fmt.begin_array(2);
     fmt.add_token(shade.minx);
diff --git a/src/pdfcommon.hpp b/src/pdfcommon.hpp
index 0e0473e..8897e7a 100644
--- a/src/pdfcommon.hpp
+++ b/src/pdfcommon.hpp
@@ -518,7 +518,7 @@ struct FullCoonsPatch {
 };
 
 struct ContinuationCoonsPatch {
-    int flag;
+    int flag = 1;
     std::array<Point, 8> p;
     std::array<Color, 2> c;
 };
-- 
2.43.0


From 0f3720c33621d49a79bdd8ffda09cfba170a6539 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:51 +0000
Subject: [PATCH 27/92] fix: interpolation functions of unsupported colours are
 refused

---
 src/document.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/document.cpp b/src/document.cpp
index c7a3dd4..c7bb7b7 100644
--- a/src/document.cpp
+++ b/src/document.cpp
@@ -285,7 +285,7 @@ int32_t num_channels_for(const CapyPDF_Image_Colorspace cs) {
     std::abort();
 }
 
-void color2numbers(ObjectFormatter &fmt, const Color &c) {
+rvoe<NoReturnValue> color2numbers(ObjectFormatter &fmt, const Color &c) {
     if(auto *rgb = std::get_if<DeviceRGBColor>(&c)) {
         fmt.add_token(rgb->r.v());
         fmt.add_token(rgb->g.v());
@@ -298,9 +298,9 @@ void color2numbers(ObjectFormatter &fmt, const Color &c) {
         fmt.add_token(cmyk->y.v());
         fmt.add_token(cmyk->k.v());
     } else {
-        fprintf(stderr, "Colorspace not supported yet.\n");
-        std::abort();
+        RETERR(ColorspaceMismatch);
     }
+    RETOK;
 }
 
 template<typename T1, typename T2> static void append_value_or_null(T1 &fmt, const T2 &val) {
@@ -1768,11 +1768,11 @@ rvoe<int32_t> PdfDocument::serialize_function(const FunctionType2 &func) {
 
     fmt.add_token("/C0");
     fmt.begin_array();
-    color2numbers(fmt, func.C0);
+    ERCV(color2numbers(fmt, func.C0));
     fmt.end_array();
     fmt.add_token("/C1");
     fmt.begin_array();
-    color2numbers(fmt, func.C1);
+    ERCV(color2numbers(fmt, func.C1));
     fmt.end_array();
     fmt.end_dict();
 
-- 
2.43.0


From 2a7ba8f0dd6f9219f3db002cd48bf0041db5e44a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:51 +0000
Subject: [PATCH 28/92] fix: parents of outlines and form fields and roles of
 structure items must exist

---
 src/document.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/document.cpp b/src/document.cpp
index c7bb7b7..fa87119 100644
--- a/src/document.cpp
+++ b/src/document.cpp
@@ -2067,6 +2067,9 @@ rvoe<CapyPDF_OutlineId> PdfDocument::add_outline(const Outline &o) {
     if(o.title.empty()) {
         RETERR(EmptyTitle);
     }
+    if(o.parent) {
+        CHECK_INDEXNESS_V(o.parent->id, outlines.items);
+    }
     const auto cur_id = (int32_t)outlines.items.size();
     const auto par_id = o.parent.value_or(CapyPDF_OutlineId{-1}).id;
     outlines.parent[cur_id] = par_id;
@@ -2076,6 +2079,9 @@ rvoe<CapyPDF_OutlineId> PdfDocument::add_outline(const Outline &o) {
 }
 
 rvoe<CapyPDF_FormFieldId> PdfDocument::add_form_field(FormField &field) {
+    if(field.parent) {
+        CHECK_INDEXNESS_V(field.parent->id, form_fields);
+    }
     auto field_id = (int32_t)form_fields.size();
     auto obj_id = add_object(DelayedFormField{{field_id}, std::move(field)});
     form_fields.push_back((int32_t)obj_id);
@@ -2144,6 +2150,7 @@ rvoe<CapyPDF_StructureItemId>
 PdfDocument::add_structure_item(const CapyPDF_RoleId role,
                                 std::optional<CapyPDF_StructureItemId> parent,
                                 std::optional<StructItemExtraData> extra) {
+    CHECK_INDEXNESS_V(role.id, rolemap);
     if(parent) {
         CHECK_INDEXNESS_V(parent->id, structure_items);
     }
-- 
2.43.0


From ea8915870d24c9ce7b5c967cfc12c725880c4bd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:32 +0000
Subject: [PATCH 29/92] fix: special characters in language tags and media
 types are escaped

---
 src/objectformatter.cpp | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/objectformatter.cpp b/src/objectformatter.cpp
index 6afa8d1..49277ee 100644
--- a/src/objectformatter.cpp
+++ b/src/objectformatter.cpp
@@ -164,10 +164,7 @@ void ObjectFormatter::check_indent() {
 }
 
 void ObjectFormatter::add_pdfstring(const asciistring &str) {
-    // FIXME: add quoting for special characters.
-    check_indent();
-    std::format_to(app, "({})", str.c_str());
-    added_item();
+    add_token(pdfstring_quote(str.sv()));
 }
 
 void ObjectFormatter::add_bytestring(const std::string_view str) {
-- 
2.43.0


From e571f1fb20ee33e97c01e12055497ae84bab73f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:01 +0000
Subject: [PATCH 30/92] fix: a structure item with both children and content
 keeps both

---
 src/pdfwriter.cpp | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/src/pdfwriter.cpp b/src/pdfwriter.cpp
index a384b57..3aafc80 100644
--- a/src/pdfwriter.cpp
+++ b/src/pdfwriter.cpp
@@ -1202,6 +1202,11 @@ rvoe<NoReturnValue> PdfWriter::write_delayed_structure_item(int obj_num,
     fmt.add_token("/P");
     fmt.add_object_ref(parent_object);
 
+    const auto it = doc.structure_use.find(dsi.sid);
+    if(it != doc.structure_use.end()) {
+        fmt.add_token("/Pg");
+        fmt.add_object_ref(doc.pages.at(it->second.page_num).page_obj_num);
+    }
     if(!children.empty()) {
         fmt.add_token("/K");
         fmt.begin_array(1);
@@ -1209,17 +1214,13 @@ rvoe<NoReturnValue> PdfWriter::write_delayed_structure_item(int obj_num,
         for(const auto &c : children) {
             fmt.add_object_ref(doc.structure_items.at(c.id).obj_id);
         }
-        fmt.end_array();
-    } else {
-        // FIXME. Maybe not correct? Assumes that a struct item
-        // either has children or is used on a page. Not both.
-        const auto it = doc.structure_use.find(dsi.sid);
+        // An item with children can be used on a page, too.
         if(it != doc.structure_use.end()) {
-            const auto &[page_num, mcid_num] = it->second;
-            fmt.add_token("/Pg");
-            fmt.add_object_ref(doc.pages.at(page_num).page_obj_num);
-            fmt.add_token_pair("/K", mcid_num);
+            fmt.add_token(it->second.mcid_num);
         }
+        fmt.end_array();
+    } else if(it != doc.structure_use.end()) {
+        fmt.add_token_pair("/K", it->second.mcid_num);
     }
 
     // Extra elements.
-- 
2.43.0


From d6da6d84060a43f5f72790793a7bd08348eca33c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:01 +0000
Subject: [PATCH 31/92] fix: ToUnicode maps have surrogate pairs for characters
 outside the BMP

---
 src/pdfwriter.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/pdfwriter.cpp b/src/pdfwriter.cpp
index 3aafc80..2e24f4c 100644
--- a/src/pdfwriter.cpp
+++ b/src/pdfwriter.cpp
@@ -109,7 +109,16 @@ endcodespacerange
                     unicode_codepoint = std::get<RegularGlyph>(g).unicode_codepoint;
                 }
             }
-            std::format_to(appender, "<{:04X}> <{:04X}>\n", i, unicode_codepoint);
+            if(unicode_codepoint > 0xFFFF) {
+                const uint32_t reduced = unicode_codepoint - 0x10000;
+                std::format_to(appender,
+                               "<{:04X}> <{:04X}{:04X}>\n",
+                               i,
+                               0xD800 + (reduced >> 10),
+                               0xDC00 + (reduced & 0x3FF));
+            } else {
+                std::format_to(appender, "<{:04X}> <{:04X}>\n", i, unicode_codepoint);
+            }
         }
     }
     buf += R"(endbfchar
-- 
2.43.0


From 832d305dff78a80c56411e39f2baffc867e1bc66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:01 +0000
Subject: [PATCH 32/92] fix: overlong encodings and surrogates are not valid
 UTF-8

---
 src/utils.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/utils.cpp b/src/utils.cpp
index 3673a2c..49a6700 100644
--- a/src/utils.cpp
+++ b/src/utils.cpp
@@ -57,6 +57,12 @@ bool is_valid_uf8_character(std::string_view input, size_t cur, const UtfDecodeS
         assert((unpacked & subsequent_data_mask) == 0);
         unpacked |= subsequent & subsequent_data_mask;
     }
+    // Overlong encodings, surrogates and values past the end of Unicode.
+    const uint32_t smallest[4] = {0, 0x80, 0x800, 0x10000};
+    if(unpacked < smallest[par.num_subsequent_bytes] || unpacked > 0x10FFFF ||
+       (unpacked >= 0xD800 && unpacked <= 0xDFFF)) {
+        return false;
+    }
 
     return true;
 }
-- 
2.43.0


From 5741ea3018d05e2779dd8a5924dc7f55c25fde2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:30 +0000
Subject: [PATCH 33/92] fix: a glyph is reused only for the same glyph and text

---
 src/fontsubsetter.cpp | 30 ++++++++----------------------
 src/fontsubsetter.hpp |  4 ++--
 2 files changed, 10 insertions(+), 24 deletions(-)

diff --git a/src/fontsubsetter.cpp b/src/fontsubsetter.cpp
index 183aecc..2b09c47 100644
--- a/src/fontsubsetter.cpp
+++ b/src/fontsubsetter.cpp
@@ -82,7 +82,7 @@ rvoe<FontSubsetInfo> FontSubsetter::get_glyph_subset(uint32_t codepoint,
             return *existing_gid;
         }
     } else {
-        auto trial = find_glyph_with_codepoint(codepoint);
+        auto trial = find_glyph_with_codepoint(codepoint, FT_Get_Char_Index(face, codepoint));
         if(trial) {
             return trial.value();
         }
@@ -111,10 +111,6 @@ rvoe<FontSubsetInfo> FontSubsetter::get_glyph_subset(const u8string &text,
         }
         return *existing_gid;
     }
-    auto trial = find_glyph(text);
-    if(trial) {
-        return trial.value();
-    }
     return unchecked_insert_glyph_to_last_subset(text, glyph_id);
 }
 
@@ -187,6 +183,8 @@ std::optional<FontSubsetInfo> FontSubsetter::find_existing_glyph(uint32_t gid) c
                 if(std::get<RegularGlyph>(ttg).glyph_index == gid) {
                     return true;
                 }
+            } else if(std::holds_alternative<LigatureGlyph>(ttg)) {
+                return std::get<LigatureGlyph>(ttg).glyph_index == gid;
             }
             return false;
         });
@@ -196,25 +194,13 @@ std::optional<FontSubsetInfo> FontSubsetter::find_existing_glyph(uint32_t gid) c
     return {};
 }
 
-std::optional<FontSubsetInfo> FontSubsetter::find_glyph_with_codepoint(uint32_t codepoint) const {
+std::optional<FontSubsetInfo> FontSubsetter::find_glyph_with_codepoint(uint32_t codepoint,
+                                                                       uint32_t gid) const {
     auto loc = std::find_if(
-        subset.glyphs.cbegin(), subset.glyphs.cend(), [&codepoint](const TTGlyphs &ttg) {
+        subset.glyphs.cbegin(), subset.glyphs.cend(), [&codepoint, &gid](const TTGlyphs &ttg) {
             if(std::holds_alternative<RegularGlyph>(ttg)) {
-                return std::get<RegularGlyph>(ttg).unicode_codepoint == codepoint;
-            }
-            return false;
-        });
-    if(loc != subset.glyphs.cend()) {
-        return FontSubsetInfo{int32_t(loc - subset.glyphs.cbegin())};
-    }
-    return {};
-}
-
-std::optional<FontSubsetInfo> FontSubsetter::find_glyph(const u8string &text) const {
-    auto loc =
-        std::find_if(subset.glyphs.cbegin(), subset.glyphs.cend(), [&text](const TTGlyphs &ttg) {
-            if(std::holds_alternative<LigatureGlyph>(ttg)) {
-                return std::get<LigatureGlyph>(ttg).text == text;
+                const auto &rg = std::get<RegularGlyph>(ttg);
+                return rg.unicode_codepoint == codepoint && rg.glyph_index == gid;
             }
             return false;
         });
diff --git a/src/fontsubsetter.hpp b/src/fontsubsetter.hpp
index 10c5c03..265ba94 100644
--- a/src/fontsubsetter.hpp
+++ b/src/fontsubsetter.hpp
@@ -59,8 +59,8 @@ private:
     FT_Face face;
     FontProperties props;
     std::optional<FontSubsetInfo> find_existing_glyph(uint32_t gid) const;
-    std::optional<FontSubsetInfo> find_glyph_with_codepoint(uint32_t codepoint) const;
-    std::optional<FontSubsetInfo> find_glyph(const u8string &text) const;
+    std::optional<FontSubsetInfo> find_glyph_with_codepoint(uint32_t codepoint,
+                                                            uint32_t gid) const;
 
     FontSubsetData subset;
 };
-- 
2.43.0


From 111e0b2743b38ea023aecc4f6839e3cfcaa86c4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:14 +0000
Subject: [PATCH 34/92] fix: annotations can only be put on pages and
 navigation can not be set twice

---
 src/drawcontext.cpp   | 6 +++++-
 src/errorhandling.cpp | 1 +
 src/errorhandling.hpp | 1 +
 3 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/drawcontext.cpp b/src/drawcontext.cpp
index 839df34..25adac0 100644
--- a/src/drawcontext.cpp
+++ b/src/drawcontext.cpp
@@ -247,6 +247,10 @@ void PdfDrawContext::build_resource_dict(ObjectFormatter &fmt) {
 }
 
 rvoe<NoReturnValue> PdfDrawContext::annotate(CapyPDF_AnnotationId annotation) {
+    if(context_type != CAPY_DC_PAGE) {
+        RETERR(InvalidDrawContextType);
+    }
+    CHECK_INDEXNESS(annotation.id, doc->annotations);
     if(used_annotations.find(annotation) != used_annotations.end()) {
         RETERR(AnnotationReuse);
     }
@@ -1207,7 +1211,7 @@ PdfDrawContext::add_simple_navigation(std::span<const CapyPDF_OptionalContentGro
         RETERR(InvalidDrawContextType);
     }
     if(!sub_navigations.empty()) {
-        std::abort();
+        RETERR(NavigationExists);
     }
     for(const auto &sn : navs) {
         if(used_ocgs.find(sn) == used_ocgs.end()) {
diff --git a/src/errorhandling.cpp b/src/errorhandling.cpp
index 11d2fce..7825873 100644
--- a/src/errorhandling.cpp
+++ b/src/errorhandling.cpp
@@ -106,6 +106,7 @@ const std::array<const char *, (std::size_t)ErrorCode::NumErrors> error_texts{
 "Collection object already exists.",
 "Output file too big for xref table. Please report this issue in CapyPDF bug tracker.",
 "Number is not finite.",
+"The page already has navigation.",
 };
 
 // clang-format on
diff --git a/src/errorhandling.hpp b/src/errorhandling.hpp
index ec17c62..ce02e16 100644
--- a/src/errorhandling.hpp
+++ b/src/errorhandling.hpp
@@ -104,6 +104,7 @@ enum class ErrorCode : int32_t {
     CollectionExists,
     XRefOffsetTooBig,
     NonFiniteNumber,
+    NavigationExists,
 
     // When you add an error code here, also add the string representation in the .cpp file.
     NumErrors,
-- 
2.43.0


From 764e87a2ba2c1af51cfa4e02b2fb2935fcfd320f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:14 +0000
Subject: [PATCH 35/92] fix: objects that annotations refer to must exist

---
 src/document.cpp | 25 +++++++++++++++++++++++++
 src/document.hpp |  2 ++
 2 files changed, 27 insertions(+)

diff --git a/src/document.cpp b/src/document.cpp
index fa87119..16bbf60 100644
--- a/src/document.cpp
+++ b/src/document.cpp
@@ -949,6 +949,7 @@ rvoe<CapyPDF_3DStreamId> PdfDocument::add_3d_stream(ThreeDStream stream) {
     fmt.end_dict();
     const auto obj_num =
         add_object(FullPDFObject{fmt.steal(), RawData(std::move(stream.model_data))});
+    threed_streams.insert(obj_num);
     return CapyPDF_3DStreamId{obj_num};
 }
 
@@ -2122,10 +2123,34 @@ rvoe<CapyPDF_EmbeddedFileId> PdfDocument::embed_file(EmbeddedFile &ef) {
     return CapyPDF_EmbeddedFileId{(int32_t)embedded_files.size() - 1};
 }
 
+rvoe<NoReturnValue> PdfDocument::check_annotation_targets(const Annotation &a) const {
+    if(const auto *file = std::get_if<FileAttachmentAnnotation>(&a.sub)) {
+        CHECK_INDEXNESS(file->fileid.id, embedded_files);
+    } else if(const auto *screen = std::get_if<ScreenAnnotation>(&a.sub)) {
+        CHECK_INDEXNESS(screen->mediafile.id, embedded_files);
+    } else if(const auto *mark = std::get_if<PrintersMarkAnnotation>(&a.sub)) {
+        CHECK_INDEXNESS(mark->appearance.id, form_xobjects);
+    } else if(const auto *threed = std::get_if<ThreeDAnnotation>(&a.sub)) {
+        if(threed_streams.find(threed->stream.id) == threed_streams.end()) {
+            RETERR(BadId);
+        }
+    } else if(const auto *widget = std::get_if<WidgetAnnotation>(&a.sub)) {
+        if(widget->parent) {
+            CHECK_INDEXNESS(widget->parent->id, form_fields);
+        }
+        if(widget->buttoninfo) {
+            CHECK_INDEXNESS(widget->buttoninfo->on_state.id, form_xobjects);
+            CHECK_INDEXNESS(widget->buttoninfo->off_state.id, form_xobjects);
+        }
+    }
+    RETOK;
+}
+
 rvoe<CapyPDF_AnnotationId> PdfDocument::add_annotation(const Annotation &a) {
     if(!a.rect) {
         RETERR(AnnotationMissingRect);
     }
+    ERCV(check_annotation_targets(a));
     auto annot_id = (int32_t)annotations.size();
     auto obj_id = add_object(DelayedAnnotation{{annot_id}, a});
     annotations.push_back((int32_t)obj_id);
diff --git a/src/document.hpp b/src/document.hpp
index 0e186e4..a3ec4f5 100644
--- a/src/document.hpp
+++ b/src/document.hpp
@@ -530,6 +530,7 @@ public:
 
     // Annotations.
     rvoe<CapyPDF_AnnotationId> add_annotation(const Annotation &a);
+    rvoe<NoReturnValue> check_annotation_targets(const Annotation &a) const;
 
     // Structure itemsconst std::array<const char *, 3> colorspace_names
     rvoe<CapyPDF_StructureItemId> add_structure_item(const CapyPDF_Structure_Type stype,
@@ -637,6 +638,7 @@ private:
     // Ids of these types are plain object numbers.
     std::unordered_set<int32_t> graphics_states;
     std::unordered_set<int32_t> patterns;
+    std::unordered_set<int32_t> threed_streams;
     std::unordered_set<int32_t> lab_colorspaces;
     std::vector<RolemapEnty> rolemap;
 
-- 
2.43.0


From 62876bd9b689d9e1b3eb2906542740c0034fb5de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:14 +0000
Subject: [PATCH 36/92] fix: an empty ICC profile is refused

---
 src/document.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/document.cpp b/src/document.cpp
index 16bbf60..7f41e0d 100644
--- a/src/document.cpp
+++ b/src/document.cpp
@@ -1394,7 +1394,7 @@ rvoe<CapyPDF_IccColorSpaceId> PdfDocument::add_icc_profile(std::span<std::byte>
         return existing.value();
     }
     if(contents.empty()) {
-        return CapyPDF_IccColorSpaceId{-1};
+        RETERR(InvalidICCProfile);
     }
     ObjectFormatter fmt;
     fmt.begin_dict();
-- 
2.43.0


From 414ce0988766f20f885a13260ddc15cc0d6a40c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:38 +0000
Subject: [PATCH 37/92] fix: sized buffers need no terminator

---
 src/capi.cpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/capi.cpp b/src/capi.cpp
index d390c26..a2414dc 100644
--- a/src/capi.cpp
+++ b/src/capi.cpp
@@ -93,11 +93,13 @@ rvoe<std::string> validate_cstring(const char *buf, int32_t strsize) {
     if(strsize < -1) {
         RETERR(InvalidBufsize);
     }
-    std::string converted = buf;
-    if(strsize != -1) {
-        if(converted.size() != (size_t)strsize) {
-            RETERR(EmbeddedNullInString);
-        }
+    if(strsize == -1) {
+        return std::string(buf);
+    }
+    // The buffer need not be null terminated.
+    std::string converted(buf, strsize);
+    if(converted.find('\0') != std::string::npos) {
+        RETERR(EmbeddedNullInString);
     }
     return converted;
 }
-- 
2.43.0


From b272491f4ada120af3ca875191f5d5e63286dd56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:18 +0000
Subject: [PATCH 38/92] fix: names of optional content groups are validated and
 written as text strings

---
 src/capi.cpp      | 7 +++++--
 src/document.cpp  | 2 +-
 src/pdfcommon.hpp | 2 +-
 3 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/capi.cpp b/src/capi.cpp
index a2414dc..bab8a03 100644
--- a/src/capi.cpp
+++ b/src/capi.cpp
@@ -2027,9 +2027,12 @@ CAPYPDF_PUBLIC CapyPDF_EC capy_transition_destroy(CapyPDF_Transition *transition
 CAPYPDF_PUBLIC CapyPDF_EC capy_optional_content_group_new(CapyPDF_OptionalContentGroup **out_ptr,
                                                           const char *name) CAPYPDF_NOEXCEPT {
     API_BOUNDARY_START;
-    // FIXME check for ASCIIness (or even more strict?)
+    auto u8name = u8string::from_cstr(name);
+    if(!u8name) {
+        return conv_err(u8name);
+    }
     auto *ocg = new OptionalContentGroup();
-    ocg->name = name;
+    ocg->name = std::move(u8name.value());
     *out_ptr = ocg;
     RETNOERR;
     API_BOUNDARY_END;
diff --git a/src/document.cpp b/src/document.cpp
index 7f41e0d..9c79b02 100644
--- a/src/document.cpp
+++ b/src/document.cpp
@@ -2191,7 +2191,7 @@ PdfDocument::add_optional_content_group(const OptionalContentGroup &g) {
     ObjectFormatter fmt;
     fmt.begin_dict();
     fmt.add_token_pair("/Type", "/OCG");
-    fmt.add_token_pair("/Name", u8str2u8textstring(g.name));
+    fmt.add_token_pair("/Name", utf8_to_pdfutf16be(g.name));
     fmt.end_dict();
     auto id = add_object(FullPDFObject{fmt.steal(), {}});
     ocg_items.push_back(id);
diff --git a/src/pdfcommon.hpp b/src/pdfcommon.hpp
index 8897e7a..b48112e 100644
--- a/src/pdfcommon.hpp
+++ b/src/pdfcommon.hpp
@@ -565,7 +565,7 @@ struct Transition : public _capyPDF_Transition {
 };
 
 struct OptionalContentGroup : public _capyPDF_OptionalContentGroup {
-    std::string name;
+    u8string name;
     // std::string intent;
     //  Usage usage;
 };
-- 
2.43.0


From 1d6b81e388cdb9fec2a2f45c828f1d291016fc90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:18 +0000
Subject: [PATCH 39/92] fix: ampersands in metadata are written as ampersands

---
 src/utils.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils.cpp b/src/utils.cpp
index 49a6700..3e74a86 100644
--- a/src/utils.cpp
+++ b/src/utils.cpp
@@ -469,7 +469,7 @@ void quote_xml_element_data_unchecked_into(const std::string_view &content, std:
             result += "&gt;";
             break;
         case '&':
-            result += "&quot;";
+            result += "&amp;";
             break;
         default:
             result += c;
-- 
2.43.0


From 95f4e6ad4b330c75f990613158d940c7a64dad3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:18 +0000
Subject: [PATCH 40/92] fix: the rectangle of a viewport is its BBox

---
 src/pdfwriter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pdfwriter.cpp b/src/pdfwriter.cpp
index 2e24f4c..199945c 100644
--- a/src/pdfwriter.cpp
+++ b/src/pdfwriter.cpp
@@ -198,7 +198,7 @@ void serialize_viewports(ObjectFormatter &fmt, const std::vector<Viewport> &vps)
         fmt.begin_dict();
         fmt.add_token_pair("/Type", "/Viewport");
         if(vp.bbox) {
-            fmt.write_rectangle("bbox", vp.bbox.value());
+            fmt.write_rectangle("BBox", vp.bbox.value());
         }
         if(!vp.name.empty()) {
             fmt.add_token("/Name");
-- 
2.43.0


From 5f0ae37e1b763abb92c6f0412bbd45ecf085ba93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:03 +0000
Subject: [PATCH 41/92] fix: a failed write leaves no temporary file behind

---
 src/pdfwriter.cpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/pdfwriter.cpp b/src/pdfwriter.cpp
index 199945c..5d53bda 100644
--- a/src/pdfwriter.cpp
+++ b/src/pdfwriter.cpp
@@ -223,6 +223,18 @@ void serialize_viewports(ObjectFormatter &fmt, const std::vector<Viewport> &vps)
     fmt.end_array();
 }
 
+// Removes the temporary file unless it has been renamed to its final name.
+struct TemporaryFileRemover {
+    std::filesystem::path path;
+    bool renamed = false;
+    ~TemporaryFileRemover() {
+        if(!renamed) {
+            std::error_code ec;
+            std::filesystem::remove(path, ec);
+        }
+    }
+};
+
 } // namespace
 
 PdfWriter::PdfWriter(PdfDocument &doc_) : doc(doc_) {
@@ -244,6 +256,7 @@ rvoe<NoReturnValue> PdfWriter::write_to_file(const char *ofilename) {
         perror(nullptr);
         RETERR(CouldNotOpenFile);
     }
+    TemporaryFileRemover tempremover{tempfname, false};
     std::unique_ptr<FILE, int (*)(FILE *)> fcloser(out_file, fclose);
 
     ERCV(write_to_file(out_file));
@@ -276,6 +289,7 @@ rvoe<NoReturnValue> PdfWriter::write_to_file(const char *ofilename) {
         fprintf(stderr, "%s\n", ec.category().message(ec.value()).c_str());
         RETERR(FileWriteError);
     }
+    tempremover.renamed = true;
     RETOK;
 }
 
-- 
2.43.0


From 420c85ad1a837238fd639a114c9f636025a21a79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:57 +0000
Subject: [PATCH 42/92] fix: an added ICC profile must be one, with the stated
 number of channels

---
 src/document.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/document.cpp b/src/document.cpp
index 9c79b02..bc8c560 100644
--- a/src/document.cpp
+++ b/src/document.cpp
@@ -1389,13 +1389,17 @@ PdfDocument::find_icc_profile(std::span<std::byte> contents) {
 
 rvoe<CapyPDF_IccColorSpaceId> PdfDocument::add_icc_profile(std::span<std::byte> contents,
                                                            int32_t num_channels) {
+    if(contents.empty()) {
+        RETERR(InvalidICCProfile);
+    }
+    ERC(profile_channels, cm.get_num_channels(contents));
+    if(profile_channels != num_channels) {
+        RETERR(IncorrectColorChannelCount);
+    }
     auto existing = find_icc_profile(contents);
     if(existing) {
         return existing.value();
     }
-    if(contents.empty()) {
-        RETERR(InvalidICCProfile);
-    }
     ObjectFormatter fmt;
     fmt.begin_dict();
     fmt.add_token_pair("/N", num_channels);
-- 
2.43.0


From 4db790432fb072da83dd4181c212cd29cb68cf7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:59 +0000
Subject: [PATCH 43/92] fix: names of form field values and button states are
 quoted

---
 src/objectformatter.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/objectformatter.cpp b/src/objectformatter.cpp
index 49277ee..ff6fb2a 100644
--- a/src/objectformatter.cpp
+++ b/src/objectformatter.cpp
@@ -87,7 +87,14 @@ void ObjectFormatter::add_token(double number) {
     added_item();
 }
 
-void ObjectFormatter::add_token(const PdfName &name) { add_token(name.sv()); }
+void ObjectFormatter::add_token(const PdfName &name) {
+    // The stored name has a leading slash but is not quoted.
+    auto sv = name.sv();
+    if(!sv.empty()) {
+        sv.remove_prefix(1);
+    }
+    add_token(bytes2pdfstringliteral(sv, true));
+}
 
 void ObjectFormatter::add_token(uint64_t number) {
     check_indent();
-- 
2.43.0


From bdffee68357bbc3d9a37fe76bd761afddd429399 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:03 +0000
Subject: [PATCH 44/92] fix: number formats, measures, viewports and collection
 fields stay usable after use

---
 src/capi.cpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/capi.cpp b/src/capi.cpp
index bab8a03..9bb8317 100644
--- a/src/capi.cpp
+++ b/src/capi.cpp
@@ -1506,7 +1506,7 @@ CAPYPDF_PUBLIC CapyPDF_EC capy_dc_append_viewport(CapyPDF_DrawContext *ctx,
     API_BOUNDARY_START;
     auto *dc = static_cast<PdfDrawContext *>(ctx);
     auto *vp = static_cast<Viewport *>(vport);
-    auto rc = dc->append_viewport(std::move(*vp));
+    auto rc = dc->append_viewport(*vp);
     return conv_err(rc);
     API_BOUNDARY_END;
 }
@@ -3469,7 +3469,7 @@ CAPYPDF_PUBLIC CapyPDF_EC capy_viewport_set_measure(CapyPDF_Viewport *vp,
     API_BOUNDARY_START;
     auto *vport = static_cast<Viewport *>(vp);
     auto *m = static_cast<RectilinearMeasure *>(measure);
-    vport->measure = std::move(*m);
+    vport->measure = *m;
     RETNOERR;
     API_BOUNDARY_END;
 }
@@ -3493,7 +3493,7 @@ CAPYPDF_PUBLIC CapyPDF_EC capy_measure_append_X(CapyPDF_Measure *m,
     API_BOUNDARY_START;
     auto *meas = static_cast<RectilinearMeasure *>(m);
     auto *nf = static_cast<NumberFormat *>(f);
-    meas->X.push_back(std::move(*nf));
+    meas->X.push_back(*nf);
     RETNOERR;
     API_BOUNDARY_END;
 }
@@ -3503,7 +3503,7 @@ CAPYPDF_PUBLIC CapyPDF_EC capy_measure_append_Y(CapyPDF_Measure *m,
     API_BOUNDARY_START;
     auto *meas = static_cast<RectilinearMeasure *>(m);
     auto *nf = static_cast<NumberFormat *>(f);
-    meas->Y.push_back(std::move(*nf));
+    meas->Y.push_back(*nf);
     RETNOERR;
     API_BOUNDARY_END;
 }
@@ -3513,7 +3513,7 @@ CAPYPDF_PUBLIC CapyPDF_EC capy_measure_append_D(CapyPDF_Measure *m,
     API_BOUNDARY_START;
     auto *meas = static_cast<RectilinearMeasure *>(m);
     auto *nf = static_cast<NumberFormat *>(f);
-    meas->D.push_back(std::move(*nf));
+    meas->D.push_back(*nf);
     RETNOERR;
     API_BOUNDARY_END;
 }
@@ -3523,7 +3523,7 @@ CAPYPDF_PUBLIC CapyPDF_EC capy_measure_append_A(CapyPDF_Measure *m,
     API_BOUNDARY_START;
     auto *meas = static_cast<RectilinearMeasure *>(m);
     auto *nf = static_cast<NumberFormat *>(f);
-    meas->A.push_back(std::move(*nf));
+    meas->A.push_back(*nf);
     RETNOERR;
     API_BOUNDARY_END;
 }
@@ -3585,7 +3585,7 @@ CAPYPDF_PUBLIC CapyPDF_EC capy_collection_set_schema(
     API_BOUNDARY_START;
     auto *c = static_cast<Collection *>(coll);
     auto *s = static_cast<CollectionSchema *>(schema);
-    c->schema = std::move(*s);
+    c->schema = *s;
     RETNOERR;
     API_BOUNDARY_END;
 }
@@ -3631,7 +3631,7 @@ CAPYPDF_PUBLIC CapyPDF_EC capy_collection_schema_add_entry(CapyPDF_CollectionSch
     if(n.empty() || n.front() == '/') {
         return conv_err(ErrorCode::SlashStart);
     }
-    s->entries[n] = std::move(*f);
+    s->entries[n] = *f;
     *f = CollectionField{};
     RETNOERR;
     API_BOUNDARY_END;
-- 
2.43.0


From cb55a1522ecd2fdac261a7acf3a4ce7868817233 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:06 +0000
Subject: [PATCH 45/92] fix: the cmap table of a subset font holds its glyph
 ids, not memory contents

---
 src/ft_subsetter.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/ft_subsetter.cpp b/src/ft_subsetter.cpp
index 506df11..0c49f16 100644
--- a/src/ft_subsetter.cpp
+++ b/src/ft_subsetter.cpp
@@ -835,7 +835,9 @@ std::vector<std::byte> gen_cmap(const std::vector<TTGlyphs> &glyphs) {
     append_bytes(buf, cmap_head);
     append_bytes(buf, enc);
     append_bytes(buf, glyphencoding);
-    append_bytes(buf, glyphids);
+    for(const auto gid : glyphids) {
+        append_bytes(buf, gid);
+    }
 
     return buf;
 }
-- 
2.43.0


From 6dec5ceca2b8eb7bf49dd906e70a0aeac9873a82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:06 +0000
Subject: [PATCH 46/92] fix: the tables of a subset font have their checksums

---
 src/ft_subsetter.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ft_subsetter.cpp b/src/ft_subsetter.cpp
index 0c49f16..3c1b27d 100644
--- a/src/ft_subsetter.cpp
+++ b/src/ft_subsetter.cpp
@@ -791,7 +791,8 @@ std::vector<std::byte> serialize_font(TrueTypeFontFile &tf,
     std::byte *directory_start = odata.data() + sizeof(TTOffsetTable);
     std::span<std::byte> full_view(odata.data(), odata.size());
     for(int i = 0; i < (int)directory.size(); ++i) {
-        e.checksum = ttf_checksum(full_view.subspan(e.offset, e.length));
+        directory[i].checksum =
+            ttf_checksum(full_view.subspan(directory[i].offset, directory[i].length));
         directory[i].swap_endian();
         memcpy(directory_start + i * sizeof(TTDirEntry), &directory[i], sizeof(TTDirEntry));
     }
-- 
2.43.0


From df7031004465d2770e3b1775d1fe7dc39530ad95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:06 +0000
Subject: [PATCH 47/92] fix: the bounding box of a glyph of a variable font

---
 src/ft_subsetter.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ft_subsetter.cpp b/src/ft_subsetter.cpp
index 3c1b27d..1f81e0c 100644
--- a/src/ft_subsetter.cpp
+++ b/src/ft_subsetter.cpp
@@ -582,8 +582,8 @@ GlyphBoundingBox get_glyph_bb(FT_Outline outline) {
         const auto &px = outline.points[i].x;
         const auto &py = outline.points[i].y;
         bb.xMin = std::min(bb.xMin, px);
-        bb.xMax = std::max(bb.xMax, py);
-        bb.yMin = std::min(bb.yMin, px);
+        bb.xMax = std::max(bb.xMax, px);
+        bb.yMin = std::min(bb.yMin, py);
         bb.yMax = std::max(bb.yMax, py);
     }
     return bb;
-- 
2.43.0


From df7a069130fc69d8812d7b2af414f0aa7b56df72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:24 +0000
Subject: [PATCH 48/92] fix: text that can not be rendered adds no glyphs to
 its fonts

---
 src/drawcontext.cpp   | 8 ++++++++
 src/fontsubsetter.cpp | 9 +++++++++
 src/fontsubsetter.hpp | 3 +++
 3 files changed, 20 insertions(+)

diff --git a/src/drawcontext.cpp b/src/drawcontext.cpp
index 25adac0..a1aefcd 100644
--- a/src/drawcontext.cpp
+++ b/src/drawcontext.cpp
@@ -1069,6 +1069,11 @@ rvoe<NoReturnValue> PdfDrawContext::render_text(const PdfText &textobj) {
     const auto saved_gstates = used_gstates;
     const auto saved_patterns = used_patterns;
     const auto saved_structures = used_structures;
+    std::vector<size_t> saved_subset_sizes;
+    saved_subset_sizes.reserve(doc->fonts.size());
+    for(const auto &f : doc->fonts) {
+        saved_subset_sizes.push_back(f.subsets.subset_size());
+    }
     auto render_events = [&]() -> rvoe<NoReturnValue> {
         ERCV(cmds.BT());
         for(const auto &e : textobj.get_events()) {
@@ -1084,6 +1089,9 @@ rvoe<NoReturnValue> PdfDrawContext::render_text(const PdfText &textobj) {
         used_gstates = saved_gstates;
         used_patterns = saved_patterns;
         used_structures = saved_structures;
+        for(size_t i = 0; i < saved_subset_sizes.size(); ++i) {
+            doc->fonts[i].subsets.shrink_subset(saved_subset_sizes[i]);
+        }
     }
     return rc;
 }
diff --git a/src/fontsubsetter.cpp b/src/fontsubsetter.cpp
index 2b09c47..f791e97 100644
--- a/src/fontsubsetter.cpp
+++ b/src/fontsubsetter.cpp
@@ -210,6 +210,15 @@ std::optional<FontSubsetInfo> FontSubsetter::find_glyph_with_codepoint(uint32_t
     return {};
 }
 
+void FontSubsetter::shrink_subset(size_t old_size) {
+    subset.glyphs.erase(subset.glyphs.begin() + old_size, subset.glyphs.end());
+    subset.font_index_mapping.clear();
+    // The first one is .notdef, which is not in the mapping.
+    for(size_t i = 1; i < subset.glyphs.size(); ++i) {
+        subset.font_index_mapping[font_id_for_glyph(subset.glyphs[i])] = (uint32_t)i;
+    }
+}
+
 rvoe<std::vector<std::byte>> FontSubsetter::generate_subset(const TrueTypeFontFile &source) const {
     return generate_font(source, props, face, subset.glyphs, subset.font_index_mapping);
 }
diff --git a/src/fontsubsetter.hpp b/src/fontsubsetter.hpp
index 265ba94..c61e1f1 100644
--- a/src/fontsubsetter.hpp
+++ b/src/fontsubsetter.hpp
@@ -50,6 +50,9 @@ public:
 
     size_t subset_size() const { return subset.glyphs.size(); }
 
+    // Forgets every glyph added after the subset had the given size.
+    void shrink_subset(size_t old_size);
+
     rvoe<std::vector<std::byte>> generate_subset(const TrueTypeFontFile &source) const;
 
 private:
-- 
2.43.0


From 2fb2d85a64fc6733a9516561f1eb578ec4c96c53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:55 +0000
Subject: [PATCH 49/92] fix: Python enumeration values that were tuples

---
 python/capypdf.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/python/capypdf.py b/python/capypdf.py
index faf7094..0d30dd0 100644
--- a/python/capypdf.py
+++ b/python/capypdf.py
@@ -22,7 +22,7 @@ class LineAnnotationEndStyle(Enum):
     Circle = 1
     Diamond = 2
     OpenArrow = 3
-    ClosedArrow = 4,
+    ClosedArrow = 4
     NoEnding = 5 # Because "None" is a Python keyword
     Butt = 6
     ROpenAreow = 7
@@ -178,8 +178,8 @@ class StructureType(Enum):
     Document = 0
     DocumentFragment = 1
 
-    Part = 2,
-    Sect = 3,
+    Part = 2
+    Sect = 3
     Div = 4
     Aside = 5
     Nonstruct = 6
-- 
2.43.0


From 0a33273e3b4bd2a079e90925e8aa5526a3b8fcd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:55 +0000
Subject: [PATCH 50/92] fix: setting the page mode in Python

---
 python/capypdf.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/python/capypdf.py b/python/capypdf.py
index 0d30dd0..2b03e80 100644
--- a/python/capypdf.py
+++ b/python/capypdf.py
@@ -831,10 +831,10 @@ class DocumentProperties:
             raise CapyPDFException('Argument must be a PageLayout enum.')
         check_error(libfile.capy_document_properties_set_page_layout(self, layout.value))
 
-    def set_page_mode(self, model):
-        if not isinstance(layout, PageMode):
+    def set_page_mode(self, mode):
+        if not isinstance(mode, PageMode):
             raise CapyPDFException('Argument must be a PageMode enum.')
-        check_error(libfile.capy_document_properties_set_page_mode(self, model.value))
+        check_error(libfile.capy_document_properties_set_page_mode(self, mode.value))
 
     def set_metadata_xml(self, xmldata):
         xmlbytes = xmldata.encode('UTF-8')
-- 
2.43.0


From 2a95436cd8eb1105429e3c452f95450c356ad96d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:55 +0000
Subject: [PATCH 51/92] fix: Python transition setters use their arguments

---
 python/capypdf.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/python/capypdf.py b/python/capypdf.py
index 2b03e80..3b7169b 100644
--- a/python/capypdf.py
+++ b/python/capypdf.py
@@ -1575,10 +1575,10 @@ class Transition:
         check_error(libfile.capy_transition_set_D(self, d))
 
     def set_Dn(self, dm):
-        check_error(libfile.capy_transition_set_Dm(self, Dm.value))
+        check_error(libfile.capy_transition_set_Dm(self, dm.value))
 
     def set_M(self, m):
-        check_error(libfile.capy_transition_set_M(self, M.value))
+        check_error(libfile.capy_transition_set_M(self, m.value))
 
     def set_Di(self, Di):
         check_error(libfile.capy_transition_set_Di(self, Di))
@@ -1587,7 +1587,7 @@ class Transition:
         check_error(libfile.capy_transition_set_SS(self, ss))
 
     def set_B(self, B):
-        check_error(libfile.capy_transition_set_S(self, int(B)))
+        check_error(libfile.capy_transition_set_B(self, int(B)))
 
     def __del__(self):
         check_error(libfile.capy_transition_destroy(self))
-- 
2.43.0


From de64864a8d6e301aaa0c6a75ff6889413435c45f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:55 +0000
Subject: [PATCH 52/92] fix: contents of embedded files in Python

---
 python/capypdf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/capypdf.py b/python/capypdf.py
index 3b7169b..06e8761 100644
--- a/python/capypdf.py
+++ b/python/capypdf.py
@@ -2086,7 +2086,7 @@ class EmbeddedFile:
     def set_contents(self, contents):
         if not isinstance(contents, bytes):
             raise CapyPDFException('Contents must be raw bytes.')
-        check_error(libfile.capy_embedded_file_set_contents(ctypes.pointer(o), contents, len(contents)))
+        check_error(libfile.capy_embedded_file_set_contents(self, contents, len(contents)))
 
     def set_subtype(self, subtype):
         sbytes = subtype.encode('UTF-8')
-- 
2.43.0


From 8f6577f61f9398adca4206e2e6ca28e111c30bc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:55 +0000
Subject: [PATCH 53/92] fix: default document of a collection in Python

---
 python/capypdf.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/python/capypdf.py b/python/capypdf.py
index 06e8761..a4e7fda 100644
--- a/python/capypdf.py
+++ b/python/capypdf.py
@@ -2194,11 +2194,11 @@ class Collection:
         check_error(libfile.capy_collection_destroy(self))
 
     def set_D(self, text):
-        if isinstance(V, bytes):
-            vbytes = V
+        if isinstance(text, bytes):
+            tbytes = text
         else:
-            vbytes = V.encode('UTF-8')
-        check_error(libfile.capy_collection_set_D(self, vbytes, len(vbytes)))
+            tbytes = text.encode('UTF-8')
+        check_error(libfile.capy_collection_set_D(self, tbytes, len(tbytes)))
 
     def set_view(self, view):
         if not isinstance(view, CollectionView):
-- 
2.43.0


From 2c1be0efe6a29455e355dfbecae9f5e21268b368 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:55 +0000
Subject: [PATCH 54/92] fix: parent of a form field in Python

---
 python/capypdf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/capypdf.py b/python/capypdf.py
index a4e7fda..3ea84c0 100644
--- a/python/capypdf.py
+++ b/python/capypdf.py
@@ -2161,7 +2161,7 @@ class FormField:
     def set_parent(self, parent_field):
         if not isinstance(parent_field, FormFieldId):
             raise CapyPDFException('Argument must be a FormFieldId.')
-        check_error(libfile.capy_form_field_set_parent(self, parent_field.value))
+        check_error(libfile.capy_form_field_set_parent(self, parent_field))
 
     def set_Ff(self, Ff):
         if not isinstance(Ff, FormFieldFlags):
-- 
2.43.0


From 011bc7ebafc244d5f1381cf649568adf002288d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:55 +0000
Subject: [PATCH 55/92] fix: image interpolation in Python

---
 python/capypdf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/capypdf.py b/python/capypdf.py
index 3ea84c0..caa3636 100644
--- a/python/capypdf.py
+++ b/python/capypdf.py
@@ -2001,7 +2001,7 @@ class ImagePdfProperties:
     def set_interpolate(self, ival):
         if not isinstance(ival, ImageInterpolation):
             raise CapyPDFException('Argument must be image interpolation enum.')
-        check_error(libfile.capy_image_lpdf_properties_set_interpolate(self, ival.value))
+        check_error(libfile.capy_image_pdf_properties_set_interpolate(self, ival.value))
 
 
 class Destination:
-- 
2.43.0


From 793d09d35f3cccd4c4abbaca8b27d7be7c9e9b85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:55 +0000
Subject: [PATCH 56/92] fix: optional content group names in Python can be any
 text

---
 python/capypdf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/capypdf.py b/python/capypdf.py
index caa3636..e7cf6bd 100644
--- a/python/capypdf.py
+++ b/python/capypdf.py
@@ -1708,7 +1708,7 @@ class GraphicsState:
 class OptionalContentGroup:
     def __init__(self, name):
         self._as_parameter_ = None
-        in_bytes = name.encode('ASCII')
+        in_bytes = name.encode('UTF-8')
         opt = ctypes.c_void_p()
         check_error(libfile.capy_optional_content_group_new(ctypes.pointer(opt), in_bytes))
         self._as_parameter_ = opt
-- 
2.43.0


From 875e49df0ce1c5e2fe36604baafe2de32eb53065 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:55 +0000
Subject: [PATCH 57/92] fix: Python text objects on groups and patterns

---
 python/capypdf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/capypdf.py b/python/capypdf.py
index e7cf6bd..7eaebbd 100644
--- a/python/capypdf.py
+++ b/python/capypdf.py
@@ -1448,7 +1448,7 @@ class TextSequence:
 
 class Text:
     def __init__(self, dc):
-        if not isinstance(dc, DrawContext):
+        if not isinstance(dc, DrawContextBase):
             raise CapyPDFException('Argument must be a DrawingContext (preferably use its .text_new() method instead).')
         self._as_parameter_ = None
         opt = ctypes.c_void_p()
-- 
2.43.0


From 21e507dd522ee4a99cfe82012cbfd4464779e5ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:13 +0000
Subject: [PATCH 58/92] fix: the temporary file never has the name of the
 output file

---
 src/pdfwriter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pdfwriter.cpp b/src/pdfwriter.cpp
index 5d53bda..c9bd82d 100644
--- a/src/pdfwriter.cpp
+++ b/src/pdfwriter.cpp
@@ -250,7 +250,7 @@ rvoe<NoReturnValue> PdfWriter::write_to_file(const char *ofilename) {
     }
     doc.write_attempted = true;
     std::filesystem::path tempfname(ofilename);
-    tempfname.replace_extension(".pdf~");
+    tempfname += "~"; // Must differ from the output file name whatever that is.
     FILE *out_file = fopen(tempfname.string().c_str(), "wb");
     if(!out_file) {
         perror(nullptr);
-- 
2.43.0


From a2d887653e58bae8cf3d5b435cc1a5fcc36fbf75 Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Thu, 19 Nov 2026 18:49:47 +0000
Subject: [PATCH 59/92] fix: composite glyphs with scaled components

---
 src/ft_subsetter.cpp | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/ft_subsetter.cpp b/src/ft_subsetter.cpp
index 1f81e0c..8d0c0a5 100644
--- a/src/ft_subsetter.cpp
+++ b/src/ft_subsetter.cpp
@@ -1042,6 +1042,21 @@ rvoe<bool> is_composite_glyph(const std::vector<std::byte> &buf) {
     return is_composite_glyph(sp);
 }
 
+// Size of the transformation that follows the arguments of a component.
+static int64_t composite_transform_size(uint16_t component_flag) {
+    const uint16_t WE_HAVE_A_SCALE = 0x08;
+    const uint16_t WE_HAVE_AN_X_AND_Y_SCALE = 0x40;
+    const uint16_t WE_HAVE_A_TWO_BY_TWO = 0x80;
+    if(component_flag & WE_HAVE_A_SCALE) {
+        return sizeof(int16_t);
+    } else if(component_flag & WE_HAVE_AN_X_AND_Y_SCALE) {
+        return 2 * sizeof(int16_t);
+    } else if(component_flag & WE_HAVE_A_TWO_BY_TWO) {
+        return 4 * sizeof(int16_t);
+    }
+    return 0;
+}
+
 rvoe<std::vector<uint32_t>> composite_subglyphs(std::span<const std::byte> buf) {
     std::vector<uint32_t> subglyphs;
     assert(num_contours(buf).value() < 0);
@@ -1063,6 +1078,7 @@ rvoe<std::vector<uint32_t>> composite_subglyphs(std::span<const std::byte> buf)
         } else {
             composite_offset += 2 * sizeof(int8_t);
         }
+        composite_offset += composite_transform_size(component_flag);
         subglyphs.push_back(glyph_index);
     } while(component_flag & MORE_COMPONENTS);
     return subglyphs;
@@ -1092,6 +1108,7 @@ reassign_composite_glyph_numbers(std::span<std::byte> buf,
         } else {
             composite_offset += 2 * sizeof(int8_t);
         }
+        composite_offset += composite_transform_size(component_flag);
         auto it = mapping.find(glyph_index);
         if(it == mapping.end()) {
             fprintf(stderr, "FAILfailFAIL\n");
-- 
2.43.0


From 4f93a668883b279ade5dfb39b9b9863448fbbf16 Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Thu, 19 Nov 2026 18:49:47 +0000
Subject: [PATCH 60/92] fix: glyph ids are checked for CFF fonts, too

---
 src/fontsubsetter.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/fontsubsetter.cpp b/src/fontsubsetter.cpp
index f791e97..822a01d 100644
--- a/src/fontsubsetter.cpp
+++ b/src/fontsubsetter.cpp
@@ -132,20 +132,20 @@ FontSubsetter::unchecked_insert_glyph_to_last_subset(const uint32_t codepoint,
 }
 
 rvoe<NoReturnValue> FontSubsetter::handle_subglyphs(uint32_t glyph_index) {
-    if(ttfile.in_cff_format()) {
-        RETOK;
-    }
     if(glyph_index == 0) {
         fprintf(stderr, "Glyph id zero is not valid.\n");
         RETERR(MissingGlyph);
     }
-    if(glyph_index >= ttfile.glyphs.size()) {
+    if(glyph_index >= (uint32_t)ttfile.num_glyphs()) {
         fprintf(stderr,
                 "Glyph index points past the end of glyps: %d/%d.\n",
                 glyph_index,
-                (int)ttfile.glyphs.size());
+                (int)ttfile.num_glyphs());
         RETERR(MissingGlyph);
     }
+    if(ttfile.in_cff_format()) {
+        RETOK;
+    }
     ERC(iscomp, is_composite_glyph(ttfile.glyphs.at(glyph_index)));
     if(iscomp) {
         ERC(subglyphs, get_all_subglyphs(glyph_index, ttfile));
-- 
2.43.0


From fbaa4e57ad015b17268d3d29aaaa3933336a0350 Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Thu, 19 Nov 2026 18:49:47 +0000
Subject: [PATCH 61/92] fix: a glyph without a code point is still that glyph

---
 src/ft_subsetter.cpp | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/ft_subsetter.cpp b/src/ft_subsetter.cpp
index 8d0c0a5..169566e 100644
--- a/src/ft_subsetter.cpp
+++ b/src/ft_subsetter.cpp
@@ -988,11 +988,7 @@ rvoe<std::vector<std::byte>> generate_cff_font(const TrueTypeFontFile &source,
     uint32_t counter = 0;
     for(const auto &g : glyphs) {
         if(const auto *rg = std::get_if<RegularGlyph>(&g)) {
-            if(rg->unicode_codepoint == 0) {
-                converted.emplace_back(0, 0);
-            } else {
-                converted.emplace_back(rg->unicode_codepoint, rg->glyph_index);
-            }
+            converted.emplace_back(rg->unicode_codepoint, font_id_for_glyph(g));
         } else if(const auto *lg = std::get_if<LigatureGlyph>(&g)) {
             // The glyph represented something bigger than one codepoint,
             // such as "ffi". Just write a random value in the private
@@ -1124,7 +1120,8 @@ reassign_composite_glyph_numbers(std::span<std::byte> buf,
 uint32_t font_id_for_glyph(const TTGlyphs &g) {
     if(std::holds_alternative<RegularGlyph>(g)) {
         auto &rg = std::get<RegularGlyph>(g);
-        if(rg.unicode_codepoint == 0) {
+        if(rg.glyph_index == (uint32_t)-1) {
+            // The .notdef glyph that starts every subset.
             return 0;
         } else {
             return rg.glyph_index;
-- 
2.43.0


From f86c3b6b5da34d017c0992c235976db82d020a55 Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Thu, 19 Nov 2026 18:50:02 +0000
Subject: [PATCH 62/92] fix: embedded variable fonts have the metrics of their
 instance

---
 src/ft_subsetter.cpp | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/ft_subsetter.cpp b/src/ft_subsetter.cpp
index 169566e..c16f85b 100644
--- a/src/ft_subsetter.cpp
+++ b/src/ft_subsetter.cpp
@@ -671,14 +671,26 @@ subset_glyphs(const TrueTypeFontFile &source,
     return subset;
 }
 
-TTHmtx subset_hmtx(const TrueTypeFontFile &source, const std::vector<TTGlyphs> &glyphs) {
+rvoe<TTHmtx> subset_hmtx(const TrueTypeFontFile &source,
+                         FT_Face face,
+                         const std::vector<TTGlyphs> &glyphs) {
     TTHmtx subset;
     assert(source.hmtx.longhor.size() + source.hmtx.left_side_bearings.size() ==
            source.maxp.num_glyphs());
     assert(!source.hmtx.longhor.empty());
     for(const auto &g : glyphs) {
         const auto gid = font_id_for_glyph(g);
-        if(gid < source.hmtx.longhor.size()) {
+        if(FT_HAS_MULTIPLE_MASTERS(face)) {
+            // The metrics in the file are those of the default instance.
+            auto rc = FT_Load_Glyph(face, gid, FT_LOAD_NO_SCALE | FT_LOAD_NO_BITMAP);
+            if(rc != 0) {
+                print_freetype_error(rc);
+                RETERR(FreeTypeError);
+            }
+            const auto bbox = get_glyph_bb(face->glyph->outline);
+            subset.longhor.emplace_back(TTLongHorMetric{
+                uint16_t(face->glyph->metrics.horiAdvance), int16_t(bbox.xMin)});
+        } else if(gid < source.hmtx.longhor.size()) {
             subset.longhor.push_back(source.hmtx.longhor[gid]);
         } else {
             const auto sidebear_index = gid - source.hmtx.longhor.size();
@@ -968,7 +980,8 @@ generate_truetype_font(const TrueTypeFontFile &source,
     dest.hhea = source.hhea;
     dest.maxp = source.maxp;
     dest.maxp.set_num_glyphs(subglyphs.size());
-    dest.hmtx = subset_hmtx(source, glyphs);
+    ERC(hmtx, subset_hmtx(source, face, glyphs));
+    dest.hmtx = std::move(hmtx);
     dest.hhea.num_hmetrics = dest.hmtx.longhor.size();
     dest.head.index_to_loc_format = 1;
     dest.cvt = source.cvt;
-- 
2.43.0


From b3259c274fae773d9d24f7cca5ca07e890d37abc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:23 +0000
Subject: [PATCH 63/92] fix: font descriptor values are in thousandths of an em

---
 src/pdfwriter.cpp | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/pdfwriter.cpp b/src/pdfwriter.cpp
index c9bd82d..762c9cc 100644
--- a/src/pdfwriter.cpp
+++ b/src/pdfwriter.cpp
@@ -784,6 +784,10 @@ rvoe<NoReturnValue> PdfWriter::write_subset_font_descriptor(int32_t object_num,
                                                             int32_t subset_number) {
     auto face = font.face.get();
     const uint32_t fflags = 4;
+    // Font descriptors use a fixed scale of 1000 units per em.
+    auto to_pdf_units = [face](FT_Pos value) {
+        return (int)((int64_t)value * 1000 / face->units_per_EM);
+    };
     ObjectFormatter fmt;
     fmt.begin_dict();
     fmt.add_token_pair("/Type", "/FontDescriptor");
@@ -792,15 +796,15 @@ rvoe<NoReturnValue> PdfWriter::write_subset_font_descriptor(int32_t object_num,
     fmt.add_token_pair("/Flags", fflags);
     fmt.add_token("/FontBBox");
     fmt.begin_array();
-    fmt.add_token((int)face->bbox.xMin);
-    fmt.add_token((int)face->bbox.yMin);
-    fmt.add_token((int)face->bbox.xMax);
-    fmt.add_token((int)face->bbox.yMax);
+    fmt.add_token(to_pdf_units(face->bbox.xMin));
+    fmt.add_token(to_pdf_units(face->bbox.yMin));
+    fmt.add_token(to_pdf_units(face->bbox.xMax));
+    fmt.add_token(to_pdf_units(face->bbox.yMax));
     fmt.end_array();
     fmt.add_token_pair("/ItalicAngle", "0");                // Cairo always sets this to zero.
     fmt.add_token_pair("/Ascent", "0");                     // face->ascender
     fmt.add_token_pair("/Descent", "0");                    // face->descender
-    fmt.add_token_pair("/CapHeight", (int)face->bbox.yMax); // Copying what Cairo does.
+    fmt.add_token_pair("/CapHeight", to_pdf_units(face->bbox.yMax)); // Copying what Cairo does.
     fmt.add_token_pair("/StemV", 80);                       // Cairo always sets these to 80.
     fmt.add_token_pair("/StemH", 80);
     fmt.add_token("/FontFile3");
-- 
2.43.0


From abbf4a6485fe4533ca86ea30d5b5a004bd58be67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:09 +0000
Subject: [PATCH 64/92] fix: Unicode maps have at most 100 entries per section

---
 src/pdfwriter.cpp | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/src/pdfwriter.cpp b/src/pdfwriter.cpp
index 762c9cc..7aced5a 100644
--- a/src/pdfwriter.cpp
+++ b/src/pdfwriter.cpp
@@ -76,7 +76,7 @@ std::string create_cidfont_subset_cmap(const std::vector<TTGlyphs> &glyphs) {
     // When you have to have a PDF that humans can read but AI bros
     // can't easily steal.
     const bool scrape_protection = getenv("CAPY_SCRAPE_PROTECT");
-    std::string buf = std::format(R"(/CIDInit /ProcSet findresource begin
+    std::string buf = R"(/CIDInit /ProcSet findresource begin
 12 dict begin
 begincmap
 /CIDSystemInfo
@@ -89,12 +89,19 @@ begincmap
 1 begincodespacerange
 <0000> <ffff>
 endcodespacerange
-{} beginbfchar
-)",
-                                  glyphs.size() - 1);
+)";
+    // A CMap section may have at most this many entries.
+    const size_t max_section_size = 100;
     // Glyph zero is not mapped.
     auto appender = std::back_inserter(buf);
     for(size_t i = 1; i < glyphs.size(); ++i) {
+        if((i - 1) % max_section_size == 0) {
+            if(i > 1) {
+                buf += "endbfchar\n";
+            }
+            std::format_to(
+                appender, "{} beginbfchar\n", std::min(max_section_size, glyphs.size() - i));
+        }
         const auto &g = glyphs[i];
         if(std::holds_alternative<LigatureGlyph>(g)) {
             const auto &lg = std::get<LigatureGlyph>(g);
@@ -121,8 +128,10 @@ endcodespacerange
             }
         }
     }
-    buf += R"(endbfchar
-endcmap
+    if(glyphs.size() > 1) {
+        buf += "endbfchar\n";
+    }
+    buf += R"(endcmap
 CMapName currentdict /CMap defineresource pop
 end
 end
-- 
2.43.0


From 8619e953a34f4113aeb457e40ee154fa6e164f84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:08 +0000
Subject: [PATCH 65/92] fix: text widths at sizes FreeType can not scale to

---
 src/document.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/document.cpp b/src/document.cpp
index bc8c560..b568275 100644
--- a/src/document.cpp
+++ b/src/document.cpp
@@ -2240,12 +2240,13 @@ rvoe<CapyPDF_SoftMaskId> PdfDocument::add_soft_mask(const SoftMask &sm) {
 std::optional<double>
 PdfDocument::glyph_advance(CapyPDF_FontId fid, double pointsize, uint32_t codepoint) const {
     FT_Face face = fonts.at(fid.id).fontdata.face.get();
-    FT_Set_Char_Size(face, 0, (FT_F26Dot6)(pointsize * 64), 300, 300);
-    if(FT_Load_Char(face, codepoint, FT_LOAD_NO_HINTING | FT_LOAD_NO_BITMAP) != 0) {
+    // Unscaled, because FreeType limits the sizes it can scale to.
+    if(FT_Load_Char(face, codepoint, FT_LOAD_NO_SCALE | FT_LOAD_NO_HINTING | FT_LOAD_NO_BITMAP) !=
+       0) {
         return {};
     }
     const auto font_unit_advance = face->glyph->metrics.horiAdvance;
-    return (font_unit_advance / 64.0) / 300.0 * 72.0;
+    return double(font_unit_advance) * pointsize / face->units_per_EM;
 }
 
 rvoe<CapyPDF_FontId>
-- 
2.43.0


From 1f9246a55bfbfbde8f342fa33c3a44c789477470 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:41 +0000
Subject: [PATCH 66/92] fix: refuse to load a directory as a file

---
 src/utils.cpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/utils.cpp b/src/utils.cpp
index 3e74a86..6ba63f8 100644
--- a/src/utils.cpp
+++ b/src/utils.cpp
@@ -13,6 +13,7 @@
 #include <sys/time.h>
 #endif
 
+#include <filesystem>
 #include <format>
 #include <memory>
 #include <random>
@@ -90,6 +91,12 @@ bool needs_quoting(const unsigned char c) {
     return false;
 }
 
+// Opening a directory succeeds on many platforms, but its "size" is bogus.
+bool is_directory(const char *fname) {
+    std::error_code ec;
+    return std::filesystem::is_directory(fname, ec);
+}
+
 template<typename T> rvoe<T> do_file_load(FILE *f) {
     if(fseek(f, 0, SEEK_END) != 0) {
         perror(nullptr);
@@ -160,6 +167,9 @@ rvoe<std::vector<std::byte>> flate_compress(std::span<std::byte> data) {
 }
 
 rvoe<std::string> load_file_as_string(const char *fname) {
+    if(is_directory(fname)) {
+        RETERR(CouldNotOpenFile);
+    }
     FILE *f = fopen(fname, "rb");
     if(!f) {
         perror(nullptr);
@@ -172,6 +182,9 @@ rvoe<std::string> load_file_as_string(const char *fname) {
 rvoe<std::string> load_file_as_string(FILE *f) { return do_file_load<std::string>(f); }
 
 rvoe<std::vector<std::byte>> load_file_as_bytes(const std::string &fname) {
+    if(is_directory(fname.c_str())) {
+        RETERR(CouldNotOpenFile);
+    }
     FILE *f = fopen(fname.c_str(), "rb");
     if(!f) {
         perror(nullptr);
-- 
2.43.0


From 371d681f8965974672ac8fc4cd471ae49617348d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:45 +0000
Subject: [PATCH 67/92] fix: text widths need a valid font id also for empty
 texts

---
 src/generator.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/generator.cpp b/src/generator.cpp
index 4e62f3d..615bdaa 100644
--- a/src/generator.cpp
+++ b/src/generator.cpp
@@ -172,6 +172,7 @@ PdfDrawContext *PdfGen::new_color_pattern(const PdfRectangle &rect) {
 
 rvoe<double>
 PdfGen::utf8_text_width(const u8string &txt, CapyPDF_FontId fid, double pointsize) const {
+    CHECK_INDEXNESS(fid.id, pdoc.font_objects);
     if(txt.empty()) {
         return 0;
     }
-- 
2.43.0


From 199c76054a847d2d864c701da38fbf3728d5f195 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:42 +0000
Subject: [PATCH 68/92] fix: the text of a raw glyph is a Unicode character

---
 src/capi.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/capi.cpp b/src/capi.cpp
index 9bb8317..642d35d 100644
--- a/src/capi.cpp
+++ b/src/capi.cpp
@@ -1641,6 +1641,9 @@ CAPYPDF_PUBLIC CapyPDF_EC capy_text_sequence_append_raw_glyph(CapyPDF_TextSequen
     if(glyph_id == 0) {
         return conv_err(ErrorCode::MissingGlyph);
     }
+    if(codepoint > 0x10FFFF || (codepoint >= 0xD800 && codepoint <= 0xDFFF)) {
+        return conv_err(ErrorCode::IndexOutOfBounds);
+    }
     auto rc = ts->append_raw_glyph(glyph_id, codepoint);
     return conv_err(rc);
     API_BOUNDARY_END;
-- 
2.43.0


From 74c672d337f50ddaca6f5004b44e48a1d7555205 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:47 +0000
Subject: [PATCH 69/92] fix: the largest glyph id is not the missing glyph

---
 src/fontsubsetter.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/fontsubsetter.cpp b/src/fontsubsetter.cpp
index 822a01d..17de84b 100644
--- a/src/fontsubsetter.cpp
+++ b/src/fontsubsetter.cpp
@@ -177,8 +177,9 @@ rvoe<FontSubsetInfo> FontSubsetter::unchecked_insert_glyph_to_last_subset(const
 }
 
 std::optional<FontSubsetInfo> FontSubsetter::find_existing_glyph(uint32_t gid) const {
+    // The first one is .notdef, whose glyph index is a placeholder that matches nothing.
     auto loc =
-        std::find_if(subset.glyphs.cbegin(), subset.glyphs.cend(), [&gid](const TTGlyphs &ttg) {
+        std::find_if(subset.glyphs.cbegin() + 1, subset.glyphs.cend(), [&gid](const TTGlyphs &ttg) {
             if(std::holds_alternative<RegularGlyph>(ttg)) {
                 if(std::get<RegularGlyph>(ttg).glyph_index == gid) {
                     return true;
-- 
2.43.0


From cbe7fa3369750c07e07cc47b7a67687b1aea1781 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:54 +0000
Subject: [PATCH 70/92] fix: palette images that are not black and white, or
 transparent, are misread

---
 src/imagefileops.cpp | 69 +++++++++++++++++++++++++++-----------------
 1 file changed, 43 insertions(+), 26 deletions(-)

diff --git a/src/imagefileops.cpp b/src/imagefileops.cpp
index 100f125..4cb9e46 100644
--- a/src/imagefileops.cpp
+++ b/src/imagefileops.cpp
@@ -93,24 +93,42 @@ void load_ga_png(png_struct *png_ptr, png_info *info_ptr, RawPixelImage &result)
 
 bool is_white(const png_color *c) { return c->red == 255 && c->green == 255 && c->blue == 255; }
 bool is_white(const png_color &c) { return is_white(&c); }
+bool is_black(const png_color &c) { return c.red == 0 && c.green == 0 && c.blue == 0; }
+
+// A palette image can only be stored with one bit per pixel if every
+// visible color is either black or white and if transparency is all or nothing.
+bool is_monochrome(std::span<png_color> palette, std::span<unsigned char> alpha) {
+    for(size_t i = 0; i < palette.size(); ++i) {
+        const unsigned char a = i < alpha.size() ? alpha[i] : 255;
+        if(a != 0 && a != 255) {
+            return false;
+        }
+        if(a == 255 && !is_white(palette[i]) && !is_black(palette[i])) {
+            return false;
+        }
+    }
+    return true;
+}
 
-void load_mono_png(png_struct *png_ptr,
-                   png_info *info_ptr,
-                   std::span<png_color> palette,
-                   RawPixelImage &result) {
+rvoe<NoReturnValue> load_mono_png(png_struct *png_ptr,
+                                  png_info *info_ptr,
+                                  std::span<png_color> palette,
+                                  RawPixelImage &result) {
     unsigned char **rows = png_get_rows(png_ptr, info_ptr);
     const size_t final_size = (result.md.w + 7) / 8 * result.md.h;
     result.pixels.reserve(final_size);
     result.md.pixel_depth = 1;
     result.md.cs = CAPY_IMAGE_CS_GRAY;
     const int num_padding_bits = (result.md.w % 8) == 0 ? 0 : 8 - result.md.w % 8;
-    const int white_pixel = is_white(palette[0]) ? 0 : 1;
     for(uint32_t j = 0; j < result.md.h; ++j) {
         unsigned char current_byte = 0;
         auto current_row = rows[j];
         for(uint32_t i = 0; i < result.md.w; ++i) {
             current_byte <<= 1;
-            if(current_row[i] != white_pixel) {
+            if(current_row[i] >= palette.size()) {
+                RETERR(UnsupportedFormat);
+            }
+            if(!is_white(palette[current_row[i]])) {
                 current_byte |= 1;
             }
             if((i % 8 == 0) && i > 0) {
@@ -127,15 +145,7 @@ void load_mono_png(png_struct *png_ptr,
         result.pixels.push_back(std::byte(~current_byte));
     }
     assert(result.pixels.size() == final_size);
-}
-
-template<typename T> bool span_contains(std::span<T> &span, const T &value) {
-    for(const auto &e : span) {
-        if(e == value) {
-            return true;
-        }
-    }
-    return false;
+    return NoReturnValue{};
 }
 
 // Special case for images that have 1-bit monochrome colors and a 1-bit alpha channel.
@@ -160,16 +170,19 @@ rvoe<NoReturnValue> try_load_mono_alpha_png(png_struct *png_ptr,
             current_byte <<= 1;
             current_mask_byte <<= 1;
             auto input_value = current_row[i];
-            assert(input_value < palette.size()); // Span has .at only at c++26.
+            // Span has .at only at c++26.
+            if(input_value >= palette.size()) {
+                RETERR(UnsupportedFormat);
+            }
             bool is_white_p = is_white(palette[input_value]);
-            bool is_trans_p = span_contains(alpha, current_row[i]);
+            bool is_trans_p = input_value < alpha.size() && alpha[input_value] == 0;
             if(!is_white_p) {
                 current_byte |= 1;
             }
             if(is_trans_p) {
                 current_mask_byte |= 1;
             }
-            if((i % 8 == 0) && i > 0) {
+            if(i % 8 == 7) {
                 result.pixels.push_back(std::byte(~current_byte));
                 result.alpha.push_back(std::byte(~current_mask_byte));
                 current_byte = 0;
@@ -181,9 +194,9 @@ rvoe<NoReturnValue> try_load_mono_alpha_png(png_struct *png_ptr,
         if(num_padding_bits > 0) {
             current_byte <<= num_padding_bits;
             current_mask_byte <<= num_padding_bits;
+            result.pixels.push_back(std::byte(~current_byte));
+            result.alpha.push_back(std::byte(~current_mask_byte));
         }
-        result.pixels.push_back(std::byte(current_byte));
-        result.alpha.push_back(std::byte(~current_mask_byte));
     }
     assert(result.pixels.size() == final_size);
     assert(result.alpha.size() == final_size);
@@ -225,16 +238,20 @@ rvoe<RasterImage> do_png_load(png_struct *png_ptr, png_info *info_ptr) {
         if(num_channels != 1) {
             RETERR(UnsupportedFormat);
         }
-        if(palette_size == 2) {
-            // FIXME: validate that the two entries in the file are in fact black and white.
-
+        std::span<unsigned char> aspan;
+        if(trns_rc == PNG_INFO_tRNS) {
+            aspan = std::span<unsigned char>(trans, num_trans);
+        }
+        if(!is_monochrome(pspan, aspan)) {
+            RETERR(NonBWColormap);
+        }
+        if(palette_size == 2 && trns_rc != PNG_INFO_tRNS) {
             // Some programs write ICC profiles to monochrome images. They confuse
             // PDF renderers quite a bit so delete.
             image.icc_profile.clear();
             // white
-            load_mono_png(png_ptr, info_ptr, pspan, image);
-        } else if((palette_size == 3 || palette_size == 4) && trns_rc == PNG_INFO_tRNS) {
-            std::span<unsigned char> aspan(trans, num_trans);
+            ERCV(load_mono_png(png_ptr, info_ptr, pspan, image));
+        } else if(palette_size >= 2 && palette_size <= 4 && trns_rc == PNG_INFO_tRNS) {
             image.icc_profile.clear();
             ERCV(try_load_mono_alpha_png(png_ptr, info_ptr, pspan, aspan, image));
         } else {
-- 
2.43.0


From 0b655ca9369552142e0ac533a2f8e2d0067e20d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:20 +0000
Subject: [PATCH 71/92] fix: PNG images with other than 8 bits per sample or a
 transparent color are misread

---
 src/imagefileops.cpp | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/src/imagefileops.cpp b/src/imagefileops.cpp
index 4cb9e46..f36d2c5 100644
--- a/src/imagefileops.cpp
+++ b/src/imagefileops.cpp
@@ -473,7 +473,28 @@ rvoe<RasterImage> load_png_file(FILE *f) {
         RETERR(UnsupportedFormat);
     }
     png_init_io(pclose.p, f);
-    png_read_png(pclose.p, pclose.i, PNG_TRANSFORM_PACKING, nullptr);
+    png_read_info(pclose.p, pclose.i);
+    if(png_get_color_type(pclose.p, pclose.i) == PNG_COLOR_TYPE_PALETTE) {
+        // One palette index per byte.
+        png_set_packing(pclose.p);
+    } else {
+        // One byte per sample, a transparent color becomes an alpha channel.
+        png_set_expand(pclose.p);
+        png_set_scale_16(pclose.p);
+    }
+    png_set_interlace_handling(pclose.p);
+    png_read_update_info(pclose.p, pclose.i);
+    const auto num_rows = png_get_image_height(pclose.p, pclose.i);
+    const auto rowbytes = png_get_rowbytes(pclose.p, pclose.i);
+    // Owned by libpng so they get freed even if decoding fails.
+    auto **rows = (unsigned char **)png_calloc(pclose.p, num_rows * sizeof(unsigned char *));
+    png_set_rows(pclose.p, pclose.i, rows);
+    png_data_freer(pclose.p, pclose.i, PNG_DESTROY_WILL_FREE_DATA, PNG_FREE_ROWS);
+    for(uint32_t i = 0; i < num_rows; ++i) {
+        rows[i] = (unsigned char *)png_malloc(pclose.p, rowbytes);
+    }
+    png_read_image(pclose.p, rows);
+    png_read_end(pclose.p, pclose.i);
     return do_png_load(pclose.p, pclose.i);
 }
 
-- 
2.43.0


From 5ff2b0860d4a1ba68de5c7b9f364c5ff8b0911ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:20 +0000
Subject: [PATCH 72/92] fix: the alpha channel of a TIFF image is that of its
 first pixel

---
 src/imagefileops.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/imagefileops.cpp b/src/imagefileops.cpp
index f36d2c5..01a5e06 100644
--- a/src/imagefileops.cpp
+++ b/src/imagefileops.cpp
@@ -274,7 +274,7 @@ void separate_tif_alpha(RawPixelImage &image, const size_t num_color_channels) {
         for(size_t j = 0; j < num_color_channels; ++j) {
             colors.push_back(image.pixels[i + j]);
         }
-        image.alpha.push_back(image.pixels[num_color_channels]);
+        image.alpha.push_back(image.pixels[i + num_color_channels]);
     }
     image.pixels = std::move(colors);
 }
-- 
2.43.0


From 659c11bf588f2ab91a10393b6a102fbf7a914843 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:20 +0000
Subject: [PATCH 73/92] fix: TIFF images with separate planes are read as if
 they were interleaved

---
 src/imagefileops.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/imagefileops.cpp b/src/imagefileops.cpp
index 01a5e06..c897c3a 100644
--- a/src/imagefileops.cpp
+++ b/src/imagefileops.cpp
@@ -324,7 +324,9 @@ rvoe<RasterImage> do_tiff_load(TIFF *tif) {
     if(TIFFGetField(tif, TIFFTAG_PLANARCONFIG, &planarconf) != 1) {
         RETERR(UnsupportedTIFF);
     }
-    // Maybe fail for this?
+    if(planarconf != PLANARCONFIG_CONTIG && samplesperpixel > 1) {
+        RETERR(UnsupportedTIFF);
+    }
 
     if(TIFFGetField(tif, TIFFTAG_ICCPROFILE, &icc_count, &icc_data) == 1) {
         result.icc_profile = std::vector<std::byte>((const std::byte *)icc_data,
-- 
2.43.0


From ab9d0d1d8950825a2da483fe0d54953d3c3e6083 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:20 +0000
Subject: [PATCH 74/92] fix: loading an image that can not be opened crashes

---
 src/imagefileops.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/imagefileops.cpp b/src/imagefileops.cpp
index c897c3a..5a17291 100644
--- a/src/imagefileops.cpp
+++ b/src/imagefileops.cpp
@@ -640,6 +640,11 @@ rvoe<jpg_image> load_jpg_from_memory(const char *buf, int64_t bufsize) {
 
 rvoe<RasterImage> load_image_file(const char *fname) {
     std::filesystem::path fobj(fname);
+    std::error_code ec;
+    // Opening a directory succeeds on many platforms.
+    if(std::filesystem::is_directory(fobj, ec)) {
+        RETERR(CouldNotOpenFile);
+    }
     auto extension = fobj.extension();
     if(extension == ".png" || extension == ".PNG") {
         return load_png_file(fname);
@@ -658,6 +663,9 @@ rvoe<RasterImage> load_image_file(const char *fname) {
     char buf[bufsize];
     buf[0] = 0;
     FILE *f = fopen(fname, "rb");
+    if(!f) {
+        RETERR(CouldNotOpenFile);
+    }
     auto rc = fread(buf, 1, bufsize, f);
     fclose(f);
     if(rc != bufsize) {
-- 
2.43.0


From 0700d3dd7f9d38c502f43ada50d75950fec82b1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:21 +0000
Subject: [PATCH 75/92] fix: CMYK JPEG images not written by Adobe applications
 are inverted

---
 src/imagefileops.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/imagefileops.cpp b/src/imagefileops.cpp
index 5a17291..55ac473 100644
--- a/src/imagefileops.cpp
+++ b/src/imagefileops.cpp
@@ -591,9 +591,11 @@ rvoe<jpg_image> load_jpg_metadata(FILE *f, const char *buf, int64_t bufsize) {
         break;
     case JCS_CMYK:
         im.cs = CAPY_DEVICE_CS_CMYK;
-        // FIXME: should detect whether to invert or not:
+        // Adobe applications write inverted values and mark their files.
         // https://graphicdesign.stackexchange.com/questions/12894/cmyk-jpegs-extracted-from-pdf-appear-inverted
-        im.decode = std::vector<double>{1, 0, 1, 0, 1, 0, 1, 0};
+        if(cinfo.saw_Adobe_marker) {
+            im.decode = std::vector<double>{1, 0, 1, 0, 1, 0, 1, 0};
+        }
         break;
     case JCS_YCCK:
         im.cs = CAPY_DEVICE_CS_CMYK;
-- 
2.43.0


From 5f4982386531c61ab4d514e7fafae3a5b935ea79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:55 +0000
Subject: [PATCH 76/92] fix: converting an image reads past its pixels

---
 src/colorconverter.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/colorconverter.cpp b/src/colorconverter.cpp
index 8a967e6..e68642b 100644
--- a/src/colorconverter.cpp
+++ b/src/colorconverter.cpp
@@ -239,8 +239,15 @@ rvoe<RawPixelImage> PdfColorConverter::convert_image_to(RawPixelImage ri,
     cmsHPROFILE input_profile;
     const uint32_t input_pixelformat = pixelformat_for(ri.md.cs);
     const uint32_t output_pixelformat = pixelformat_for(output_format);
-    assert(ri.md.w > 0);
-    assert(ri.md.h > 0);
+    if(ri.md.w < 1 || ri.md.h < 1) {
+        RETERR(InvalidImageSize);
+    }
+    if(ri.md.pixel_depth != 8 || ri.md.compression != CAPY_COMPRESSION_NONE) {
+        RETERR(UnsupportedFormat);
+    }
+    if(ri.pixels.size() / num_bytes_for((CapyPDF_Device_Colorspace)ri.md.cs) / ri.md.h < ri.md.w) {
+        RETERR(MissingPixels);
+    }
     const uint64_t num_pixels = ((uint64_t)ri.md.w) * ri.md.h;
     LcmsHolder icc_holder;
     if(ri.icc_profile.empty()) {
-- 
2.43.0


From e67d83b13a8636a9a3f61bded1c76a88ad1a02e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:55 +0000
Subject: [PATCH 77/92] fix: refused images leave their soft mask behind

---
 src/document.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/document.cpp b/src/document.cpp
index b568275..015aeb7 100644
--- a/src/document.cpp
+++ b/src/document.cpp
@@ -1523,6 +1523,12 @@ rvoe<CapyPDF_ImageId> PdfDocument::add_image(RawPixelImage image,
     if(params.as_mask && !image.alpha.empty()) {
         RETERR(MaskAndAlpha);
     }
+    // Can fail, so do this before adding anything else.
+    std::optional<CapyPDF_IccColorSpaceId> icc;
+    if(!image.icc_profile.empty()) {
+        ERC(icc_id, add_icc_profile(image.icc_profile, num_channels_for(image.md.cs)));
+        icc = icc_id;
+    }
     if(!image.alpha.empty()) {
         ImageObjectMetadata md;
         md.copy_common_from(image);
@@ -1533,12 +1539,11 @@ rvoe<CapyPDF_ImageId> PdfDocument::add_image(RawPixelImage image,
         ERC(imobj, add_image_object(md, {}, params, image.alpha));
         smask_id = get(imobj).obj;
     }
-    if(!image.icc_profile.empty()) {
-        ERC(icc_id, add_icc_profile(image.icc_profile, num_channels_for(image.md.cs)));
+    if(icc) {
         ImageObjectMetadata md;
         md.copy_common_from(image);
         md.depth = image.md.pixel_depth;
-        md.cs = icc_id;
+        md.cs = icc.value();
         return add_image_object(md, smask_id, params, image.pixels);
     } else {
         ImageObjectMetadata md;
-- 
2.43.0


From b5b3cd2b52677b23fb6a1c1f35e0095137a373ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:55 +0000
Subject: [PATCH 78/92] fix: JPEG images can not be used as masks

---
 src/document.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/document.cpp b/src/document.cpp
index 015aeb7..17c9272 100644
--- a/src/document.cpp
+++ b/src/document.cpp
@@ -1625,6 +1625,10 @@ rvoe<CapyPDF_ImageId> PdfDocument::add_image_object(const ImageObjectMetadata &m
 }
 
 rvoe<CapyPDF_ImageId> PdfDocument::embed_jpg(jpg_image jpg, const ImagePDFProperties &props) {
+    if(props.as_mask) {
+        // Mask images have one bit per pixel.
+        RETERR(UnsupportedFormat);
+    }
     ObjectFormatter fmt;
     fmt.begin_dict();
     fmt.add_token_pair("/Type", "/XObject");
-- 
2.43.0


From 0d170ca853ee98b49fe169f6db7a828b39e94669 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:55 +0000
Subject: [PATCH 79/92] fix: PDF/X documents accept RGB JPEG images

---
 src/document.cpp | 7 ++++---
 src/document.hpp | 2 +-
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/document.cpp b/src/document.cpp
index 17c9272..7d0d395 100644
--- a/src/document.cpp
+++ b/src/document.cpp
@@ -1518,7 +1518,7 @@ rvoe<CapyPDF_ImageId> PdfDocument::add_image(RawPixelImage image,
     if(image.pixels.empty()) {
         RETERR(MissingPixels);
     }
-    ERCV(validate_format(image));
+    ERCV(validate_format(image.md.cs));
     std::optional<int32_t> smask_id;
     if(params.as_mask && !image.alpha.empty()) {
         RETERR(MaskAndAlpha);
@@ -1629,6 +1629,7 @@ rvoe<CapyPDF_ImageId> PdfDocument::embed_jpg(jpg_image jpg, const ImagePDFProper
         // Mask images have one bit per pixel.
         RETERR(UnsupportedFormat);
     }
+    ERCV(validate_format((CapyPDF_Image_Colorspace)jpg.cs));
     ObjectFormatter fmt;
     fmt.begin_dict();
     fmt.add_token_pair("/Type", "/XObject");
@@ -2322,10 +2323,10 @@ PdfDocument::load_font(FT_Library ft, const char *fname, FontProperties props) {
     return fid;
 }
 
-rvoe<NoReturnValue> PdfDocument::validate_format(const RawPixelImage &ri) const {
+rvoe<NoReturnValue> PdfDocument::validate_format(CapyPDF_Image_Colorspace cs) const {
     // Check that the image has the correct format.
     if(std::holds_alternative<CapyPDF_PDFX_Type>(docprops.subtype)) {
-        if(ri.md.cs == CAPY_IMAGE_CS_RGB) {
+        if(cs == CAPY_IMAGE_CS_RGB) {
             // Later versions of PDFX permit rgb images with ICC colors, but let's start simple.
             RETERR(ImageFormatNotPermitted);
         }
diff --git a/src/document.hpp b/src/document.hpp
index a3ec4f5..1c73a65 100644
--- a/src/document.hpp
+++ b/src/document.hpp
@@ -598,7 +598,7 @@ private:
     rvoe<NoReturnValue> generate_info_object();
     int32_t add_document_metadata_object();
 
-    rvoe<NoReturnValue> validate_format(const RawPixelImage &ri) const;
+    rvoe<NoReturnValue> validate_format(CapyPDF_Image_Colorspace cs) const;
 
     // Typed getters for less typing.
     IccInfo &get(CapyPDF_IccColorSpaceId id) { return icc_profiles.at(id.id); }
-- 
2.43.0


From c3e2fd4b7566eb25746efd61dadafac51680e15f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:08 +0000
Subject: [PATCH 80/92] fix: mask images are checked like other images

---
 src/document.cpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/document.cpp b/src/document.cpp
index 7d0d395..58f9294 100644
--- a/src/document.cpp
+++ b/src/document.cpp
@@ -1502,6 +1502,15 @@ rvoe<CapyPDF_ImageId> PdfDocument::add_mask_image(RawPixelImage image,
     if(!params.as_mask) {
         std::abort();
     }
+    if(image.md.w < 1 || image.md.h < 1) {
+        RETERR(InvalidImageSize);
+    }
+    if(image.pixels.empty()) {
+        RETERR(MissingPixels);
+    }
+    if(!image.alpha.empty()) {
+        RETERR(MaskAndAlpha);
+    }
     ImageObjectMetadata md;
     md.copy_common_from(image);
     md.depth = image.md.pixel_depth;
@@ -1520,9 +1529,6 @@ rvoe<CapyPDF_ImageId> PdfDocument::add_image(RawPixelImage image,
     }
     ERCV(validate_format(image.md.cs));
     std::optional<int32_t> smask_id;
-    if(params.as_mask && !image.alpha.empty()) {
-        RETERR(MaskAndAlpha);
-    }
     // Can fail, so do this before adding anything else.
     std::optional<CapyPDF_IccColorSpaceId> icc;
     if(!image.icc_profile.empty()) {
-- 
2.43.0


From d041609b282b54abcac437ec3ac9f9ff6dace675 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:23 +0000
Subject: [PATCH 81/92] fix: empty streams are streams in readable files too

With CAPY_DEBUG_PDF set a page, form or pattern without content was
written as a dictionary inside the object stream.
---
 src/pdfwriter.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pdfwriter.cpp b/src/pdfwriter.cpp
index 7aced5a..219bf11 100644
--- a/src/pdfwriter.cpp
+++ b/src/pdfwriter.cpp
@@ -369,7 +369,9 @@ rvoe<std::vector<ObjectOffset>> PdfWriter::write_objects() {
 
         [&](const DeflatePDFObject &pobj) -> rvoe<NoReturnValue> {
             ObjectFormatter &fmt = const_cast<ObjectFormatter &>(pobj.unclosed_dictionary);
-            if(pobj.leave_uncompressed_in_debug && !doc.docprops.compress_streams) {
+            // An empty stream can not be told apart from an object without one, so it is compressed.
+            if(pobj.leave_uncompressed_in_debug && !doc.docprops.compress_streams &&
+               !pobj.stream.empty()) {
                 fmt.add_token_pair("/Length", pobj.stream.size());
                 fmt.end_dict();
                 ERCV(write_finished_object(i, fmt.steal(), pobj.stream.span()));
-- 
2.43.0


From 3a4a4e89bf911dee0b238323001739fa6c036768 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:53 +0000
Subject: [PATCH 82/92] fix: CFF fonts without optional top dictionary entries
 can be embedded

---
 src/cffsubsetter.cpp | 16 +++++++++-------
 src/ft_subsetter.cpp |  2 +-
 2 files changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/cffsubsetter.cpp b/src/cffsubsetter.cpp
index 5344fb9..4420851 100644
--- a/src/cffsubsetter.cpp
+++ b/src/cffsubsetter.cpp
@@ -600,7 +600,7 @@ rvoe<NoReturnValue> CFFWriter::create() {
     output.assign((std::byte *)header, (std::byte *)header + 4);
     append_index(source.name);
 
-    create_topdict();
+    ERCV(create_topdict());
     append_index(source.string);
     append_index(source.global_subr);
     fixups.charsets.value = output.size();
@@ -757,8 +757,8 @@ rvoe<NoReturnValue> CFFWriter::create_topdict() {
     copy_dict_item_if_exists(topdict, DictOperator::Weight);
     copy_dict_item_if_exists(topdict, DictOperator::FontBBox);
     if(source.is_cid) {
-        ERCV(copy_dict_item(topdict, DictOperator::CIDFontVersion));
-        ERCV(copy_dict_item(topdict, DictOperator::CIDCount));
+        copy_dict_item_if_exists(topdict, DictOperator::CIDFontVersion);
+        copy_dict_item_if_exists(topdict, DictOperator::CIDCount);
         ERCV(copy_dict_item(topdict, DictOperator::FDArray));  // offset needs to be fixed in post.
         ERCV(copy_dict_item(topdict, DictOperator::FDSelect)); // offset needs to be fixed in post.
     } else {
@@ -782,10 +782,12 @@ rvoe<NoReturnValue> CFFWriter::create_topdict() {
     auto offsets = append_index(wrapper);
     assert(offsets.size() == 1);
     const auto dict_start = offsets.front();
-    fixups.fdarray.offset = serialization.offsets.at(8) + 1 + dict_start;
-    fixups.fdselect.offset = serialization.offsets.at(9) + 1 + dict_start;
-    fixups.charsets.offset = serialization.offsets.at(10) + 1 + dict_start;
-    fixups.charstrings.offset = serialization.offsets.at(11) + 1 + dict_start;
+    // Many of the other entries are optional, but the ones with offsets are always the last four.
+    const auto first_fixup = serialization.offsets.size() - 4;
+    fixups.fdarray.offset = serialization.offsets.at(first_fixup) + 1 + dict_start;
+    fixups.fdselect.offset = serialization.offsets.at(first_fixup + 1) + 1 + dict_start;
+    fixups.charsets.offset = serialization.offsets.at(first_fixup + 2) + 1 + dict_start;
+    fixups.charstrings.offset = serialization.offsets.at(first_fixup + 3) + 1 + dict_start;
 
     /*
     uint32_t sanity_check_be;
diff --git a/src/ft_subsetter.cpp b/src/ft_subsetter.cpp
index c16f85b..e585d76 100644
--- a/src/ft_subsetter.cpp
+++ b/src/ft_subsetter.cpp
@@ -1013,7 +1013,7 @@ rvoe<std::vector<std::byte>> generate_cff_font(const TrueTypeFontFile &source,
         }
     }
     CFFWriter w(source_data, converted);
-    w.create();
+    ERCV(w.create());
     return w.steal();
 }
 
-- 
2.43.0


From 14db733810158002063a91265ade90f581d0311d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:53 +0000
Subject: [PATCH 83/92] fix: two byte numbers in CFF dictionaries are signed

---
 src/cffsubsetter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cffsubsetter.cpp b/src/cffsubsetter.cpp
index 4420851..a8cfad8 100644
--- a/src/cffsubsetter.cpp
+++ b/src/cffsubsetter.cpp
@@ -187,7 +187,7 @@ rvoe<CFFDict> unpack_dictionary(std::span<std::byte> dataspan_orig) {
             } else if(b0 == 28) {
                 const int32_t b1 = (uint8_t)dataspan.at(offset++);
                 const int32_t b2 = (uint8_t)dataspan.at(offset++);
-                unpacked_operand = b1 << 8 | b2;
+                unpacked_operand = (int16_t)(b1 << 8 | b2);
             } else if(b0 == 29) {
                 const int32_t b1 = (uint8_t)dataspan.at(offset++);
                 const int32_t b2 = (uint8_t)dataspan.at(offset++);
-- 
2.43.0


From 594af630dc5a8e28429bb8f33a8e488d836d87fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:53 +0000
Subject: [PATCH 84/92] fix: real numbers in CFF dictionaries keep their values

---
 src/cffsubsetter.cpp | 35 +++++++++++++++++++++++++----------
 src/cffsubsetter.hpp |  4 +++-
 2 files changed, 28 insertions(+), 11 deletions(-)

diff --git a/src/cffsubsetter.cpp b/src/cffsubsetter.cpp
index a8cfad8..44e4b1d 100644
--- a/src/cffsubsetter.cpp
+++ b/src/cffsubsetter.cpp
@@ -159,6 +159,7 @@ rvoe<CFFDict> unpack_dictionary(std::span<std::byte> dataspan_orig) {
     CFFDict dict;
     size_t offset = 0;
     std::vector<int32_t> operands;
+    std::vector<std::vector<std::byte>> reals;
     // span.at() is not available yet. Change back to span once it is.
     auto dataspan = span2sv(dataspan_orig);
     while(offset < dataspan.size()) {
@@ -171,11 +172,14 @@ rvoe<CFFDict> unpack_dictionary(std::span<std::byte> dataspan_orig) {
                 const int32_t b1 = (uint8_t)dataspan.at(offset++);
                 unpacked_operator = b0 << 8 | b1;
             }
-            dict.entries.emplace_back(std::move(operands), (DictOperator)unpacked_operator);
+            dict.entries.emplace_back(
+                std::move(operands), (DictOperator)unpacked_operator, std::move(reals));
             operands.clear();
+            reals.clear();
         } else if((b0 >= 28 && b0 <= 30) || (b0 >= 32 && b0 <= 254)) {
             // Is an operand.
             int32_t unpacked_operand;
+            std::vector<std::byte> real;
             if(b0 >= 32 && b0 <= 246) {
                 unpacked_operand = b0 - 139;
             } else if(b0 >= 247 && b0 <= 250) {
@@ -195,16 +199,19 @@ rvoe<CFFDict> unpack_dictionary(std::span<std::byte> dataspan_orig) {
                 const int32_t b4 = (uint8_t)dataspan.at(offset++);
                 unpacked_operand = b1 << 24 | b2 << 16 | b3 << 8 | b4;
             } else if(b0 == 30) {
-                // Floating point.
+                // Floating point. Kept as is, because it only needs to be copied.
                 uint8_t b1;
+                real.push_back(std::byte(b0));
                 do {
                     b1 = (uint8_t)dataspan.at(offset++);
+                    real.push_back(std::byte(b1));
                 } while((b1 & 0xf) != 0xf);
-                unpacked_operand = -1; // FIXME
+                unpacked_operand = -1;
             } else {
                 std::abort();
             }
             operands.push_back(unpacked_operand);
+            reals.push_back(std::move(real));
         }
     }
     if(!operands.empty()) {
@@ -579,15 +586,23 @@ rvoe<CFFont> parse_cff_file(const char *fname) {
 }
 
 void CFFDictWriter::append_command(const std::vector<int32_t> &operands, DictOperator op) {
+    append_command(CFFDictItem{operands, op, {}});
+}
+
+void CFFDictWriter::append_command(const CFFDictItem &e) {
     o.offsets.push_back(o.output.size());
-    for(const auto opr : operands) {
-        o.output.push_back(std::byte{29});
-        swap_and_append_bytes(o.output, opr);
+    for(size_t i = 0; i < e.operand.size(); ++i) {
+        if(i < e.real.size() && !e.real[i].empty()) {
+            append_bytes(o.output, e.real[i]);
+        } else {
+            o.output.push_back(std::byte{29});
+            swap_and_append_bytes(o.output, e.operand[i]);
+        }
     }
-    if((uint16_t)op > 0xFF) {
+    if((uint16_t)e.opr > 0xFF) {
         o.output.push_back(std::byte{0xc});
     }
-    o.output.push_back(std::byte((uint16_t)op & 0xFF));
+    o.output.push_back(std::byte((uint16_t)e.opr & 0xFF));
 }
 
 CFFWriter::CFFWriter(const CFFont &source_, const std::vector<SubsetGlyphs> &sub_)
@@ -811,14 +826,14 @@ rvoe<NoReturnValue> CFFWriter::copy_dict_item(CFFDictWriter &w, DictOperator op)
     if(!e) {
         RETERR(MissingCFFDictItem);
     }
-    w.append_command(e->operand, e->opr);
+    w.append_command(*e);
     RETOK;
 }
 
 void CFFWriter::copy_dict_item_if_exists(CFFDictWriter &w, DictOperator op) {
     auto *e = find_command(source, op);
     if(e) {
-        w.append_command(e->operand, e->opr);
+        w.append_command(*e);
     }
 }
 
diff --git a/src/cffsubsetter.hpp b/src/cffsubsetter.hpp
index c5aadbc..838e284 100644
--- a/src/cffsubsetter.hpp
+++ b/src/cffsubsetter.hpp
@@ -92,6 +92,8 @@ struct CFFIndex {
 struct CFFDictItem {
     std::vector<int32_t> operand;
     DictOperator opr; // "operator" is a reserved word
+    // Original encoding of those operands that are real numbers, empty for integers.
+    std::vector<std::vector<std::byte>> real;
 };
 
 struct CFFDict {
@@ -187,7 +189,7 @@ struct Fixups {
 class CFFDictWriter {
 public:
     void append_command(const std::vector<int32_t> &operands, DictOperator op);
-    void append_command(const CFFDictItem &e) { append_command(e.operand, e.opr); };
+    void append_command(const CFFDictItem &e);
 
     DictOutput steal() { return std::move(o); }
 
-- 
2.43.0


From c15031133381d7bd1b959e38b8aa372680025ec1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:53 +0000
Subject: [PATCH 85/92] fix: embedded CFF fonts have the font matrix of the
 original

---
 src/cffsubsetter.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/cffsubsetter.cpp b/src/cffsubsetter.cpp
index 44e4b1d..2f66979 100644
--- a/src/cffsubsetter.cpp
+++ b/src/cffsubsetter.cpp
@@ -771,6 +771,7 @@ rvoe<NoReturnValue> CFFWriter::create_topdict() {
     copy_dict_item_if_exists(topdict, DictOperator::FamilyName);
     copy_dict_item_if_exists(topdict, DictOperator::Weight);
     copy_dict_item_if_exists(topdict, DictOperator::FontBBox);
+    copy_dict_item_if_exists(topdict, DictOperator::FontMatrix);
     if(source.is_cid) {
         copy_dict_item_if_exists(topdict, DictOperator::CIDFontVersion);
         copy_dict_item_if_exists(topdict, DictOperator::CIDCount);
-- 
2.43.0


From 812a76e289fabde1c7172ec82c81c9c2ba7e3719 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:53 +0000
Subject: [PATCH 86/92] fix: local subroutines can be anywhere in a private
 dictionary

---
 src/cffsubsetter.cpp | 23 +++--------------------
 1 file changed, 3 insertions(+), 20 deletions(-)

diff --git a/src/cffsubsetter.cpp b/src/cffsubsetter.cpp
index 2f66979..40c8cf2 100644
--- a/src/cffsubsetter.cpp
+++ b/src/cffsubsetter.cpp
@@ -139,22 +139,6 @@ rvoe<CFFIndex> load_index(std::span<std::byte> dataspan, size_t &offset) {
     return index;
 }
 
-rvoe<CFFPrivateDict>
-build_pdict_from_dict(std::span<std::byte> dataspan, size_t priv_dict_offset, CFFDict raw_pdict) {
-    CFFPrivateDict priv(std::move(raw_pdict), {});
-    if(priv.entries.entries.size() > 0) {
-        // This seems to always be last.
-        const auto &subrs = priv.entries.entries.back();
-        if(subrs.opr == DictOperator::Subrs) {
-            size_t local_subrs_offset = priv_dict_offset + subrs.operand.front();
-            ERC(rsdata, load_index(dataspan, local_subrs_offset));
-            priv.subr = std::move(rsdata);
-            priv.entries.entries.pop_back();
-        }
-    }
-    return priv;
-}
-
 rvoe<CFFDict> unpack_dictionary(std::span<std::byte> dataspan_orig) {
     CFFDict dict;
     size_t offset = 0;
@@ -508,14 +492,13 @@ rvoe<CFFont> parse_cff_data(DataSource source) {
 
     auto *priv = find_command(f, DictOperator::Private);
     if(priv) {
-        if(priv->operand.empty()) {
+        if(priv->operand.size() != 2) {
             RETERR(MalformedFontFile);
         }
         auto dict_offset = priv->operand[1];
         auto dict_size = priv->operand[0];
-        ERC(raw_pdict, unpack_dictionary(dataspan.subspan(dict_offset, dict_size)));
-        ERC(processed_pdict, build_pdict_from_dict(dataspan, dict_offset, raw_pdict));
-        f.pdict = std::move(processed_pdict);
+        ERC(pdict, load_private_dict(dataspan, dict_offset, dict_size));
+        f.pdict = std::move(pdict);
     }
 
     auto *fda = find_command(f, DictOperator::FDArray);
-- 
2.43.0


From 915817c85280fe405252728bda286456f199cd2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:53 +0000
Subject: [PATCH 87/92] fix: CID fonts can list the font dictionary of every
 glyph

---
 src/cffsubsetter.cpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/cffsubsetter.cpp b/src/cffsubsetter.cpp
index 40c8cf2..31d1cb1 100644
--- a/src/cffsubsetter.cpp
+++ b/src/cffsubsetter.cpp
@@ -254,11 +254,13 @@ rvoe<std::vector<CFFSelectRange3>> unpack_fdselect(std::span<std::byte> dataspan
     size_t offset = 0;
     const uint8_t format = (uint8_t)dataspan[offset++];
     if(format == 0) {
-        std::vector<std::byte> selector_array{dataspan.begin() + offset,
-                                              dataspan.begin() + offset + num_glyphs};
-        // FIXME. OR maybe not. This seems to be used in generated
-        // subset fonts only.
-        return ranges;
+        ERC(selectors, safe_subspan(dataspan, offset, num_glyphs));
+        for(uint32_t i = 0; i < num_glyphs; ++i) {
+            const auto fd = (uint8_t)selectors[i];
+            if(ranges.empty() || ranges.back().fd != fd) {
+                ranges.emplace_back((uint16_t)i, fd);
+            }
+        }
     } else if(format == 3) {
         ERC(nRg, extract_and_swap<uint16_t>(dataspan, offset));
         const uint32_t nRanges = nRg;
-- 
2.43.0


From c810c2440969730edb5fb225cf721c0913ccfb38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:53 +0000
Subject: [PATCH 88/92] fix: tables after an empty table of a CFF font are
 found

---
 src/cffsubsetter.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/cffsubsetter.cpp b/src/cffsubsetter.cpp
index 31d1cb1..7e7bcd1 100644
--- a/src/cffsubsetter.cpp
+++ b/src/cffsubsetter.cpp
@@ -91,10 +91,10 @@ rvoe<CFFIndex> load_index(std::span<std::byte> dataspan, size_t &offset) {
     CFFIndex index;
     ERC(cnt, extract<uint16_t>(dataspan, offset));
     const uint32_t count = std::byteswap(cnt);
+    offset += sizeof(uint16_t);
     if(count == 0) {
         return index;
     }
-    offset += sizeof(uint16_t);
     ERC(offSize, extract<uint8_t>(dataspan, offset));
     ++offset;
     std::vector<size_t> offsets;
@@ -308,8 +308,11 @@ void print_info(const CFFont &cff) {
 
 std::vector<uint32_t> append_index_to(std::vector<std::byte> &output, const CFFIndex &index) {
     swap_and_append_bytes<uint16_t>(output, index.size());
-    output.push_back(std::byte{4});
     std::vector<uint32_t> offsets;
+    if(index.entries.empty()) {
+        return offsets;
+    }
+    output.push_back(std::byte{4});
     uint32_t offset = 1;
     for(const auto &e : index.entries) {
         swap_and_append_bytes(output, offset);
-- 
2.43.0


From 401cc27d3204d9b65d43e6dcd99b3c5db1bd2b31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:49 +0000
Subject: [PATCH 89/92] fix: number signs in font names are written as PDF
 requires

---
 src/pdfwriter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pdfwriter.cpp b/src/pdfwriter.cpp
index 219bf11..9c9c4b8 100644
--- a/src/pdfwriter.cpp
+++ b/src/pdfwriter.cpp
@@ -68,7 +68,7 @@ std::string subsetfontname2pdfname(std::string_view original, const int32_t subs
         out += 'A' + (buf[i] - '0');
     }
     out += "+";
-    out += fontname2pdfname(original);
+    out += bytes2pdfstringliteral(fontname2pdfname(original), false);
     return out;
 }
 
-- 
2.43.0


From 9e9f56d6d0cd13b3c607605a8b5151d8964abdbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:49 +0000
Subject: [PATCH 90/92] fix: fonts without a PostScript name can be embedded

---
 src/pdfwriter.cpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/pdfwriter.cpp b/src/pdfwriter.cpp
index 9c9c4b8..3ca2155 100644
--- a/src/pdfwriter.cpp
+++ b/src/pdfwriter.cpp
@@ -72,6 +72,12 @@ std::string subsetfontname2pdfname(std::string_view original, const int32_t subs
     return out;
 }
 
+// Fonts are not required to have a PostScript name.
+const char *postscript_name(FT_Face face) {
+    const char *name = FT_Get_Postscript_Name(face);
+    return name ? name : "Unnamed";
+}
+
 std::string create_cidfont_subset_cmap(const std::vector<TTGlyphs> &glyphs) {
     // When you have to have a PDF that humans can read but AI bros
     // can't easily steal.
@@ -710,7 +716,7 @@ rvoe<NoReturnValue> PdfWriter::write_subset_font(int32_t object_num,
     fmt.add_token_pair("/Type", "/Font");
     fmt.add_token_pair("/Subtype", "/Type0");
     fmt.add_token("/BaseFont");
-    fmt.add_token_with_slash(subsetfontname2pdfname(FT_Get_Postscript_Name(face), subset_id));
+    fmt.add_token_with_slash(subsetfontname2pdfname(postscript_name(face), subset_id));
     const int32_t ciddict_obj = object_num + 1; // FIXME
     fmt.add_token_pair("/Encoding", "/Identity-H");
     fmt.add_token("/DescendantFonts");
@@ -738,7 +744,7 @@ rvoe<NoReturnValue> PdfWriter::write_cid_dict(int32_t object_num,
     fmt.add_token_pair("/Subtype",
                        font.fontdata.fontdata.in_cff_format() ? "/CIDFontType0" : "/CIDFontType2");
     fmt.add_token("/BaseFont");
-    fmt.add_token_with_slash(subsetfontname2pdfname(FT_Get_Postscript_Name(face), subset_id));
+    fmt.add_token_with_slash(subsetfontname2pdfname(postscript_name(face), subset_id));
     fmt.add_token("/CIDSystemInfo");
     fmt.begin_dict();
     fmt.add_token_pair("/Registry", "(Adobe)");
@@ -803,7 +809,7 @@ rvoe<NoReturnValue> PdfWriter::write_subset_font_descriptor(int32_t object_num,
     fmt.begin_dict();
     fmt.add_token_pair("/Type", "/FontDescriptor");
     fmt.add_token("/FontName");
-    fmt.add_token_with_slash(subsetfontname2pdfname(FT_Get_Postscript_Name(face), subset_number));
+    fmt.add_token_with_slash(subsetfontname2pdfname(postscript_name(face), subset_number));
     fmt.add_token_pair("/Flags", fflags);
     fmt.add_token("/FontBBox");
     fmt.begin_array();
-- 
2.43.0


From b6596bb6ed1e2c3b12cbf2691debe68c8b41c2f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:31 +0000
Subject: [PATCH 91/92] fix: structure items are only marked on pages

---
 src/drawcontext.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/drawcontext.cpp b/src/drawcontext.cpp
index a1aefcd..baa631d 100644
--- a/src/drawcontext.cpp
+++ b/src/drawcontext.cpp
@@ -1262,6 +1262,10 @@ rvoe<NoReturnValue> PdfDrawContext::set_group_matrix(const PdfMatrix &mat) {
 }
 
 rvoe<int32_t> PdfDrawContext::add_bcd_structure(CapyPDF_StructureItemId sid) {
+    // Structure items are connected to the pages they are used on.
+    if(context_type != CAPY_DC_PAGE) {
+        RETERR(InvalidDrawContextType);
+    }
     for(const auto &id : used_structures) {
         if(id == sid) {
             RETERR(StructureReuse);
-- 
2.43.0


From 2c8b68aca3f416da1a6d030ec18b4c5232a7ea55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:07 +0000
Subject: [PATCH 92/92] fix: Python classes of transition dimensions and
 motions are enumerations

---
 python/capypdf.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/python/capypdf.py b/python/capypdf.py
index 7eaebbd..9dc888a 100644
--- a/python/capypdf.py
+++ b/python/capypdf.py
@@ -75,12 +75,12 @@ class TransitionType(Enum):
     Uncover = 10
     Fade = 11
 
-class TransitionDimension:
-    H = 0,
+class TransitionDimension(Enum):
+    H = 0
     V = 1
 
-class TransitionMotion:
-    I = 0,
+class TransitionMotion(Enum):
+    I = 0
     O = 1
 
 class PageBox(Enum):
-- 
2.43.0

