#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the source text of the properties is here)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files, "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
                          "mechanism": [dict(zip(("name", "where"), m)) for m in mech],
                          "observe_at": list(observe), "hook_needed": hook}})
OUT = "the written PDF file, read back by an independent reader"
RC = "the return code of every public C call"

p("P01", "Committed content streams are always properly nested",
  "In every page, form, transparency group and tiling pattern that is committed, save/restore, text-object and marked-content operators open and close in strict last-in-first-out order, no text object contains another and no marked content contains another (other than the spans a text sequence itself adds). A call that would break this returns an error, and so does committing a drawing context in which anything is still open. Every call sequence that respects these rules is accepted.",
  ["histories"], "all sequences of drawing, text and commit calls on any kind of drawing context, including sequences with refused calls in the middle",
  "Tests draw a few correct, short sequences; the rule must hold for every interleaving of q/Q, marked content and text, with refused calls in between.",
  ["src/commandstreamformatter.cpp", "src/drawcontext.cpp", "src/generator.cpp", "src/document.cpp"],
  [("nesting stack checked on every open and close", "src/commandstreamformatter.cpp indent/dedent"), ("commit refuses open state", "src/generator.cpp add_page, add_form_xobject; src/document.cpp add_tiling_pattern, add_transparency_group")],
  [("nesting stack", "open scopes of one drawing context", "src/commandstreamformatter.hpp")], [OUT, RC])
p("P02", "Drawing operators appear exactly as called, in order",
  "The operators of a committed content stream are exactly the accepted drawing and text calls made on that context since it was created or last committed, in call order, each with the operands the caller passed (colour components limited to 0..1). Nothing is added, dropped, reordered, merged or altered, apart from the text object that surrounds rendered text.",
  ["histories", "inputs"], "all sequences of drawing/text calls with all finite operand values and all enumeration values, on every kind of drawing context",
  "Tests compare a few rendered pages; an operator swapped, dropped or given the wrong operand order only under particular arguments or after particular calls is not rendered by any of them.",
  ["src/drawcontext.cpp", "src/commandstreamformatter.cpp", "src/capi.cpp", "src/pdftext.hpp"],
  [("one operator appended per call", "src/drawcontext.cpp cmd_*"), ("text events serialized in order", "src/drawcontext.cpp render_text")],
  [("command stream", "operators emitted so far", "src/commandstreamformatter.hpp")], [OUT, RC])
p("P03", "Every resource a content stream uses is present and is the right object",
  "Every resource name used by a committed content stream is defined in that stream's own resource dictionary, in the category its operator requires, and denotes exactly the object whose id the caller passed. The dictionary lists nothing the stream's accepted calls did not use. This holds for images, transparency groups, fonts, graphics states, shadings, patterns, colour spaces and optional content groups, on every kind of drawing context.",
  ["histories", "programs"], "all sequences that create resources and use them in any order, from any number of contexts, including reuse of a context after it was committed",
  "Tests use one or two resources per page; aliasing needs several objects of several kinds, and stale entries need context reuse.",
  ["src/drawcontext.cpp", "src/document.cpp"],
  [("resource use recorded at the call", "src/drawcontext.cpp used_* sets"), ("resource dictionary built at commit", "src/drawcontext.cpp build_resource_dict")],
  [("used resources", "per-context sets of used objects", "src/drawcontext.hpp")], [OUT])
p("P04", "Every written file is structurally valid PDF",
  "Every file a successful write produces is a well-formed PDF: correct header version, parsable objects, exact stream lengths, a cross-reference table or stream whose every entry points at the object it names, no missing or duplicate object, no dangling reference and no duplicate dictionary key, and a trailer with root, size and identifiers. It holds for both the classic and the compressed file layout, for any number and size of objects.",
  ["histories", "inputs", "configurations"], "all documents that can be built through the API, in every output version and conformance mode, with any object count and stream size",
  "Tests write small documents; boundary sizes (object counts, offsets and stream lengths that need wider fields) and rare object kinds are never combined.",
  ["src/pdfwriter.cpp", "src/objectformatter.cpp", "src/document.cpp"],
  [("offsets recorded when objects are written", "src/pdfwriter.cpp write_finished_object, write_cross_reference_table, write_cross_reference_stream"), ("dictionary/array builder", "src/objectformatter.cpp")],
  [("object table", "every numbered object of the document", "src/document.hpp document_objects")], [OUT])
p("P05", "A refused call changes nothing",
  "When a call returns an error, the document, the object it was called on and every argument object are exactly as before: all later calls return what they would have returned and the file finally written is the one that would have been written had the refused call never been made. (A document that has pages is finished by an attempt to write it, whether or not that succeeds.)",
  ["histories", "inputs"], "all call histories with any refused call at any point",
  "Tests check that a bad call returns an error and stop there; they do not continue the document afterwards.",
  ["src/drawcontext.cpp", "src/document.cpp", "src/generator.cpp", "src/capi.cpp"],
  [("validate before mutate", "src/drawcontext.cpp, src/document.cpp, src/capi.cpp")], [], [OUT, RC])
p("P06", "Commits are snapshots and reused contexts start clean",
  "Once a page, resource or object has been committed to a document, later changes to the drawing context or builder it came from do not alter it, and identifiers already returned keep denoting the same object. After a drawing context is committed it behaves exactly like a new one of the same kind and size. Documents that exist at the same time never influence each other.",
  ["histories"], "all histories in which contexts and builders are modified, committed, reused and destroyed in any order, over several documents",
  "Tests create a fresh context and builder for nearly everything.",
  ["src/generator.cpp", "src/drawcontext.cpp", "src/document.cpp", "src/capi.cpp"],
  [("context cleared after commit", "src/drawcontext.cpp clear"), ("objects serialized or copied when added", "src/document.cpp add_*")], [], [OUT, RC])
p("P07", "Annotations appear once, on their page, with the requested properties",
  "Each annotation that was put on a committed page appears in exactly that page's annotation list, in no other, and a second use of the same annotation is refused. Its dictionary holds exactly the type, rectangle, flags, text, destination or link target, line style, attachment, appearance and parent the caller set, referring to the right objects.",
  ["histories", "inputs"], "all annotation kinds with all combinations of properties, attached to any pages in any order",
  "Tests have a handful of annotations with one property combination each and never attach one twice across pages.",
  ["src/document.cpp", "src/drawcontext.cpp", "src/capi.cpp", "src/pdfwriter.cpp"],
  [("page of use recorded", "src/document.cpp add_page annotation_use"), ("annotation serialized per kind", "src/pdfwriter.cpp/document.cpp write_annotation")],
  [("annotation use", "page each annotation is on", "src/document.hpp annotation_use")], [OUT, RC])
p("P08", "Structure tree and marked content always agree",
  "Structure elements are marked in the content of pages only, and every structure marked-content identifier on a page leads, through the page's entry in the parent tree, to exactly the structure element the caller named there, and that element points back at that page and identifier; a structure element is used at most once and further uses are refused. The structure tree has the requested parent/child shape, element types, custom-role mapping and attributes, with children in creation order.",
  ["histories"], "all structure forests, all assignments of elements to marked content on any pages and in text, in any order",
  "Tests tag one page with a few elements; agreement between three separately written tables needs several pages, untagged pages between tagged ones and reused contexts.",
  ["src/document.cpp", "src/drawcontext.cpp", "src/pdfwriter.cpp"],
  [("identifier = order of use in the context", "src/drawcontext.cpp add_bcd_structure"), ("parent tree built from use", "src/document.cpp create_structure_parent_tree")],
  [("structure use", "page and identifier of each used element", "src/document.hpp structure_use")], [OUT, RC])
p("P09", "The outline tree is linked exactly as built",
  "The written outline has every added entry exactly once under the parent it was given, siblings in creation order, with first, last, next, previous and parent links that agree with each other and open-entry counts that follow from the shape. Each entry carries the title, destination, colour and style it was given.",
  ["histories", "inputs"], "all forests of outline entries with all property combinations",
  "Tests have one small outline; sibling chains, depth and count arithmetic need arbitrary shapes.",
  ["src/document.cpp", "src/pdfwriter.cpp"],
  [("children and links computed at write", "src/document.cpp create_outlines; src/pdfwriter.cpp write_outline")],
  [("outline tree", "parent/children maps", "src/document.hpp outlines")], [OUT, RC])
p("P10", "Interactive form fields and widgets are linked exactly as built",
  "Every form field that was added appears exactly once in the document's form hierarchy under the parent it was given, with its type, name, flags, value and options as set. Every widget is listed by the field it belongs to, refers back to it, and has the appearance states it was given.",
  ["histories", "inputs"], "all field hierarchies and widget assignments with all property combinations",
  "Tests have one small form.",
  ["src/document.cpp", "src/pdfwriter.cpp", "src/capi.cpp"],
  [("form widgets written from field and use tables", "src/pdfwriter.cpp write_form_field, write_annotation")],
  [("form fields", "fields, children and widget use", "src/document.hpp form_fields, form_use")], [OUT, RC])
p("P11", "Writing is all or nothing",
  "A write that returns success has put the complete document at the requested path and left no temporary file behind. A write that fails for any reason - file cannot be created, device full, flush or rename fails, document invalid - returns an error, leaves whatever was at the path before untouched and leaves no temporary file behind; nothing other than the target and its temporary is ever touched.",
  ["fault_sequences", "crash_points"], "a failure injected at every file operation of the write sequence, over documents in every layout and over existing and missing targets; the temporary is a file beside the target, not otherwise in use",
  "No test makes a file operation fail.",
  ["src/pdfwriter.cpp"],
  [("write to temporary, flush, rename", "src/pdfwriter.cpp write_to_file")],
  [("target and temporary file", "file system state", "src/pdfwriter.cpp")], ["return code of the write call", "directory contents before, at every point during, and after the write"])
p("P12", "Shown text decodes to exactly the text that was requested",
  "For every string shown with a loaded font, each character code in the written stream selects, through the embedded font it is used with, the glyph the font's own character map gives for the requested character (or the glyph the caller named), its declared width is that glyph's advance, and the embedded Unicode map turns it back into exactly the requested characters. A character the font lacks is refused. The width reported for a text is the sum of its glyphs' advances. It holds for any number of distinct characters and fonts, in any order of use.",
  ["inputs", "histories"], "all strings, kerned sequences, named glyphs and ligatures over any loaded fonts, shared between pages and contexts, including more distinct characters than one subset holds",
  "Tests check rendered images of a few Latin strings.",
  ["src/drawcontext.cpp", "src/document.cpp", "src/fontsubsetter.cpp", "src/pdfwriter.cpp", "src/utils.cpp"],
  [("glyph allocation", "src/fontsubsetter.cpp get_glyph_subset"), ("unicode map, widths", "src/fontsubsetter.cpp, src/pdfwriter.cpp write_subset_*")],
  [("font subset", "glyph list of each embedded font", "src/fontsubsetter.hpp")], [OUT, RC])
p("P13", "Embedded font programs are valid and keep the glyphs' shapes",
  "Every embedded font program is a well-formed font of its kind whose tables agree with one another, and each glyph in it has exactly the outline and advance it has in the source font at the requested face, including glyphs built from other glyphs or by subroutines, and is hinted by the same data. The font's name, kind and bounding box are declared as they are in the source font.",
  ["inputs"], "all sets of glyphs drawn from the loadable fonts, in any order",
  "Tests look at a few rendered strings; table corruption or a wrong component only shows for particular glyph sets.",
  ["src/ft_subsetter.cpp", "src/cffsubsetter.cpp", "src/fontsubsetter.cpp", "src/pdfwriter.cpp"],
  [("TrueType subset writer", "src/ft_subsetter.cpp generate_font"), ("CFF subset writer", "src/cffsubsetter.cpp")], [], [OUT])
p("P14", "Every argument is validated; no call ever crashes",
  "For every public function and every value of its arguments - any number including infinities and not-a-number, any enumeration value, any identifier, any string or size, any file name, null where the header allows it - the call returns normally: it succeeds when the arguments are in their documented domain and returns an error code with a message otherwise. No sequence of such calls crashes, aborts or corrupts memory.",
  ["inputs", "histories"], "all argument values at all functions, from any reachable state; handles are those returned by the library and not yet destroyed; files that are named may be missing or not files, but those that exist have well-formed contents",
  "Tests try a few wrong arguments.",
  ["src/capi.cpp", "src/errorhandling.cpp", "src/document.cpp", "src/drawcontext.cpp"],
  [("null, enum, index and string checks", "src/capi.cpp CHECK_*, src/errorhandling.hpp"), ("messages", "src/errorhandling.cpp")], [], [RC])
p("P15", "Pages keep their order, boxes and labels",
  "The page tree lists exactly the committed pages in commit order, each with the boxes in force for it: its own where it set them and the document defaults otherwise, plus its own transparency group and viewports. Page labels have exactly the ranges, styles, prefixes and start numbers that were added.",
  ["histories", "inputs"], "all sequences of page commits with all combinations of default and custom boxes, groups, viewports and labels",
  "Tests set one or two of these once.",
  ["src/document.cpp", "src/pdfwriter.cpp", "src/drawcontext.cpp"],
  [("page dictionary", "src/pdfwriter.cpp write_delayed_page"), ("label number tree", "src/document.cpp create_page_labels / pdfwriter")], [], [OUT, RC])
p("P16", "Page transitions, sub-page navigation and optional content are kept",
  "A page has exactly the transition and the chain of sub-page navigation steps set on its context, linked in order, each step showing the layer it names. Every optional content group appears once in the catalog's group list and configuration in creation order, with its name, and marked content refers to the right group.",
  ["histories", "inputs"], "all transitions and properties, all sequences of layers and navigation steps on any page",
  "Tests have one presentation and one layer file.",
  ["src/document.cpp", "src/drawcontext.cpp", "src/pdfwriter.cpp"],
  [("transition and navigation dictionaries", "src/document.cpp serialize_trans, create_subnavigation"), ("OCProperties", "src/document.cpp create_catalog")], [], [OUT, RC])
p("P17", "Raster images keep their pixels, geometry and alpha",
  "Every added image is one image object whose decoded samples, width, height, bits per component, colour space, interpolation and mask flag are exactly the supplied ones - converted only where the document's output colour space demands it - and whose soft mask holds exactly the supplied alpha. Image files (PNG, TIFF, JPEG) are decoded to the same pixels, transparency and embedded colour profile, JPEG data is embedded unchanged, converting an image changes its colours only as asked, and a file or kind of image that is not supported is refused.",
  ["inputs"], "all sizes, bit depths, colour spaces, alpha combinations, compressed or raw inputs and loadable image files",
  "Tests embed a few ordinary 8-bit images and look at the page.",
  ["src/document.cpp", "src/imagefileops.cpp", "src/capi.cpp"],
  [("image object written from raw pixels", "src/document.cpp add_image, add_image_object, process_*"), ("file decoding", "src/imagefileops.cpp")], [], [OUT, RC])
p("P18", "Colours and colour spaces are the ones requested",
  "Setting a stroke or fill colour selects exactly the requested device, ICC, Lab, separation or pattern colour for the right operator, and a colour whose component count does not fit its space is refused. Colour-space objects hold the requested parameters and profile data, are shared between uses of one id, and adding the same ICC profile again returns the same id.",
  ["histories", "inputs"], "all colours in all colour spaces, for stroke and fill, in graphics and in text, in any order",
  "Tests set a few colours.",
  ["src/drawcontext.cpp", "src/document.cpp", "src/colorconverter.cpp"],
  [("colour dispatch", "src/drawcontext.cpp set_color"), ("colour space objects", "src/document.cpp add_separation, add_lab_colorspace, add_icc_profile")], [], [OUT, RC])
p("P19", "Functions, shadings, patterns, graphics states and masks are kept exactly",
  "Every function, shading, pattern, soft mask, transparency group and graphics state that is added is written as an object of the right kind holding exactly the parameters the caller set and no others, referring to exactly the objects passed. Mesh shading data encodes exactly the supplied points (those outside the declared area moved to its border), flags and colours.",
  ["inputs", "histories"], "all parameter combinations, nestings (functions in functions, groups in masks in states) and orders of creation",
  "Tests create one of each with ordinary values.",
  ["src/document.cpp", "src/pdfcommon.hpp", "src/capi.cpp"],
  [("serialization per object kind", "src/document.cpp add_function, add_shading, add_graphics_state, add_soft_mask")], [], [OUT, RC])
p("P20", "Strings and names survive encoding unchanged",
  "Every text, byte string and name the caller passes - of any length and content, with sizes given or NUL-terminated - reads back from the written file as exactly the same characters or bytes, whatever characters need escaping or a different encoding. Text that is not valid UTF-8, contains an embedded NUL, or is not plain ASCII where ASCII is required is refused.",
  ["inputs"], "all strings over all of Unicode and all byte strings at every call that takes a string",
  "Tests use a few ASCII and one or two accented strings.",
  ["src/utils.cpp", "src/capi.cpp", "src/objectformatter.cpp", "src/pdfwriter.cpp"],
  [("string validation", "src/capi.cpp validate_utf8, validate_ascii, validate_pdfname; src/utils.cpp is_valid_utf8"), ("quoting and UTF-16 encoding", "src/utils.cpp pdfstring_quote, utf8_to_pdfutf16be, bytes2pdfstringliteral")], [], [OUT, RC])
p("P21", "Document properties and conformance declarations are exactly as set",
  "The file's version, information dictionary, XMP metadata, output intent, tagging, language, page layout and page mode are exactly what the document properties requested, and information and metadata never contradict each other. A document that declares a PDF/X or PDF/A level carries that level's required declarations and embedded output profile, and features that level forbids are refused.",
  ["configurations", "histories"], "all combinations of document properties and conformance levels, with any content",
  "Tests set a few property combinations; contradictions need unusual combinations.",
  ["src/document.cpp", "src/pdfwriter.cpp", "src/xmlformatter.cpp"],
  [("catalog, info and metadata creation", "src/document.cpp create_catalog, generate_info_object, create_output_intents"), ("conformance checks", "src/document.cpp construct, validate_format")], [], [OUT, RC])
p("P22", "Attachments, collections and 3D models carry their data unchanged",
  "Every embedded file and 3D model, given as data or loaded from disk, is present exactly once with its bytes unchanged, under the name and type given, and is reachable from the catalog's name tree or the annotation that uses it. A collection has exactly the schema, fields, order, visibility, view and default document that were set.",
  ["inputs", "histories"], "all file contents, names, types, collection schemas and combinations with annotations",
  "Tests embed one or two files.",
  ["src/document.cpp", "src/capi.cpp", "src/pdfwriter.cpp"],
  [("embedded file objects and name tree", "src/document.cpp embed_file, create_catalog"), ("collection dictionary", "src/document.cpp")], [], [OUT, RC])
p("P23", "Output is a function of the calls made",
  "The same sequence of calls with the same inputs and the same recorded time always produces byte-identical files, in one process or several, whatever other documents were made before or meanwhile. The random file identifier in the trailer is the only exception. Writing fails or succeeds identically too.",
  ["histories", "schedules"], "all call histories, repeated, and interleaved with any other documents' histories",
  "Tests write each document once.",
  ["src/pdfwriter.cpp", "src/document.cpp", "src/utils.cpp"],
  [("ordered containers and fixed time source", "src/document.cpp, src/utils.cpp current_date_string"), ("no global state", "src/generator.cpp")], [], ["bytes of the written files"])
p("P24", "The Python interface does exactly what the C calls do",
  "Every document built through the Python interface is the one the corresponding C calls build: each method passes every argument in the right place, each enumeration value has the C value, and an error from the library becomes an exception with the library's message and never a silent success.",
  ["programs", "inputs"], "all Python method calls and enumeration values, in any sequence",
  "Tests call each method at most once with symmetric arguments.",
  ["python/capypdf.py", "include/capypdf.h.in"],
  [("ctypes signatures and wrappers", "python/capypdf.py")], [], [OUT, "Python exceptions"])
os.chdir(os.path.dirname(os.path.abspath(__file__)) + '/..')
with open('properties.jsonl', 'w') as f:
    for x in P: f.write(json.dumps(x) + '\n')
