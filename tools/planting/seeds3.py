import sys; sys.path.insert(0, '/verif/tools/planting')
import mkseed
only = sys.argv[1:]
def mk(id, *a):
    if not only or id in only: mkseed.mk(id, *a)
D = 'src/document.cpp'; DC = 'src/drawcontext.cpp'; PW = 'src/pdfwriter.cpp'; U = 'src/utils.cpp'
mk('field-zero-parent', 'P10', PW, [("    if(field.parent) {\n        fmt.add_token(\"/Parent\");", "    if(field.parent && field.parent->id) {\n        fmt.add_token(\"/Parent\");")],
   'a field whose parent is the first field of the document', 'the child of the first field does not point back at it', """
g = capypdf.Generator(path('a.pdf')); d = g.page_draw_context()
a = capypdf.FormField(capypdf.FormFieldType.TX); a.set_T('top'); ai = g.add_form_field(a)
ids = []
for n in ('b', 'c'):
    f = capypdf.FormField(capypdf.FormFieldType.TX); f.set_T(n); f.set_parent(ai if n == 'b' else ids[0]); ids.append(g.add_form_field(f))
g.add_page(d); g.write(); o = objects(read('a.pdf'))
kids = [n for n in sorted(o) if b'/FT' in o[n][0]]
check(len(kids) == 3, 'three fields')
for n in kids:
    for k in re.findall(rb'(\\d+) 0 R', (re.search(rb'/Kids \\[(.*?)\\]', o[n][0], re.S) or [b'', b''])[1]):
        check(b'/Parent %d 0 R' % n in o[int(k)][0], 'a child points at its parent')
check(sum(b'/Parent' in o[n][0] for n in kids) == 2, 'two fields have a parent')
""")
mk('icc-size', 'P18', D, [("            if(stream_data->stream == contents) {", "            if(stream_data->stream.size() == contents.size()) {")],
   'two different ICC profiles of the same size', 'the second profile is taken for the first', """
import glob
src = open(T + '/icc/sRGB_parametric.icc' if os.path.exists(T + '/icc/sRGB_parametric.icc') else glob.glob(T + '/**/*.ic[cm]', recursive=True)[0], 'rb').read()
files = sorted(glob.glob(T + '/**/*.ic[cm]', recursive=True) + glob.glob('/usr/share/color/icc/**/*.ic[cm]', recursive=True))
rgb = [f for f in files if open(f, 'rb').read()[16:20] == b'RGB ']
check(rgb, 'there is an RGB profile'); b = open(rgb[0], 'rb').read()
open(path('one.icc'), 'wb').write(b)
c = bytearray(b); c[64:68] = bytes([0, 0, 0, (b[67] + 1) % 4]); open(path('two.icc'), 'wb').write(bytes(c))    # another rendering intent
g = capypdf.Generator(path('a.pdf')); d = g.page_draw_context()
p = g.load_icc_profile(path('one.icc')); q = g.load_icc_profile(path('two.icc')); r = g.load_icc_profile(path('one.icc'))
g.add_page(d); g.write()
check(p.id != q.id and p.id == r.id, 'different profiles are different colour spaces, equal ones the same')
s = [x for _, x in objects(read('a.pdf')).values() if x and x[36:40] == b'acsp']
check(b in s and bytes(c) in s, 'both profiles are in the file')
""")
mk('pattern-stroke-only', 'P03', DC, [("""    if(stroke) {
        ERCV(cmd_CS("/Pattern"));
    } else {
        ERCV(cmd_cs("/Pattern"));
    }
    used_patterns.insert(id.id);""", """    if(stroke) {
        ERCV(cmd_CS("/Pattern"));
        used_patterns.insert(id.id);
    } else {
        ERCV(cmd_cs("/Pattern"));
        if(context_type == CAPY_DC_PAGE) {
            used_patterns.insert(id.id);
        }
    }""")],
   'a pattern that only fills and is used in a form, group or pattern', 'the pattern is missing from the resources there', """
g = capypdf.Generator(path('a.pdf'))
t = g.create_tiling_pattern_context(0, 0, 10, 10) if hasattr(g, 'create_tiling_pattern_context') else capypdf.ColorPatternDrawContext(g, 0, 0, 10, 10)
t.cmd_re(0, 0, 4, 4); t.cmd_f(); pid = g.add_tiling_pattern(t) if hasattr(g, 'add_tiling_pattern') else g.add_color_pattern(t)
c = capypdf.Color(); c.set_pattern(pid)
x = capypdf.FormXObjectDrawContext(g, 0, 0, 100, 100); x.set_nonstroke(c); x.cmd_re(1, 1, 9, 9); x.cmd_f(); xid = g.add_form_xobject(x)
d = g.page_draw_context(); g.add_page(d); g.write(); o = objects(read('a.pdf'))
f = find(o, rb'/Subtype /Form')
check(len(f) == 1, 'one form')
used = re.findall(rb'/(Pattern-\\d+) scn', o[f[0]][1]); check(used, 'the form fills with a pattern')
check(b'/' + used[0] + b' ' in o[f[0]][0], 'the pattern is a resource of the form')
""")
mk('short-write', 'P11', PW, [("    if(fwrite(buf, 1, buf_size, ofile) != buf_size) {", "    if(buf_size > 0 && fwrite(buf, 1, buf_size, ofile) == 0) {")],
   'a write that fails once, in the middle of a large object, and works again afterwards', 'part of a stream is missing but the write reports success and replaces the old file', """
import subprocess
s = '''import sys, os; sys.path.insert(0, os.environ.get('CAPY_PY', '/repo/python')); import capypdf
g = capypdf.Generator(sys.argv[1]); d = g.page_draw_context()
e = capypdf.EmbeddedFile(); e.load_file(sys.argv[2]); e.set_pdf_name('d'); g.embed_file(e); g.add_page(d)
try: g.write()
except capypdf.CapyPDFException: sys.exit(7)
'''
open(path('w.py'), 'w').write(s); open(path('data.bin'), 'wb').write(os.urandom(60000))
env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1')
out = subprocess.run([sys.executable, path('w.py'), path('a.pdf'), path('data.bin')], env=env); check(out.returncode == 0, 'the write works')
full = os.path.getsize(path('a.pdf'))
bad = 0
for k in range(1, 12):
    open(path('a.pdf'), 'wb').write(b'old')
    if os.path.exists(path('a.pdf~')): os.remove(path('a.pdf~'))
    r = subprocess.run(['strace', '-f', '-o', path('log'), '-P', path('a.pdf~'), '-e', 'trace=write,writev', '-e', 'inject=write:error=ENOSPC:when=%d' % k, sys.executable, path('w.py'), path('a.pdf'), path('data.bin')], env=env)
    n = os.path.getsize(path('a.pdf'))
    check((r.returncode == 7 and read('a.pdf') == b'old') or (r.returncode == 0 and abs(n - full) < 4000 and n > 50000), 'failing write %d: the old file and an error, or all of the new' % k)
""")
mk('extend-both', 'P19', D, [("""    fmt.add_token(shade.r1);
    fmt.end_array();
    fmt.add_token("/Function");
    fmt.add_object_ref(functions.at(shade.function.id).object_number);
    if(shade.extend) {""", """    fmt.add_token(shade.r1);
    fmt.end_array();
    fmt.add_token("/Function");
    fmt.add_object_ref(functions.at(shade.function.id).object_number);
    if(shade.extend && (shade.extend->starting || shade.r1 > 0)) {""")],
   'a radial shading that ends in a point and does not extend before its start', 'its Extend entry is missing', """
def one(r0, r1, a, b):
    g = capypdf.Generator(path('a.pdf')); d = g.page_draw_context(); c = [capypdf.Color(), capypdf.Color()]; c[0].set_rgb(0, 0, 0); c[1].set_rgb(1, 1, 1)
    f = g.add_function(capypdf.Type2Function([0, 1], c[0], c[1], 1)); s = capypdf.Type3Shading(capypdf.DeviceColorspace.RGB, [0, 0, r0, 9, 9, r1], f)
    s.set_extend(a, b); d.cmd_sh(g.add_shading(s)); g.add_page(d); g.write(); o = objects(read('a.pdf')); n = find(o, rb'/ShadingType 3')[0]
    return re.search(rb'/Extend \\[\\s*(\\w+)\\s+(\\w+)', o[n][0])
for r in ((5, 0), (1, 5), (3, 3)):
    for a in (True, False):
        for b in (True, False):
            m = one(r[0], r[1], a, b); check(m and m.groups() == (str(a).lower().encode(), str(b).lower().encode()), 'extend %s %s of %s' % (a, b, r))
""")
mk('name-delimiter', 'P20', U, [("    if(c < '!' || c > '~') {\n        return true;", "    if(c < '!' || c >= 0x7F) {\n        return c < '!' || c != 0xA0;")],
   'a name with a byte A0 in it, as in the UTF-8 form of several letters', 'the byte is written as it is', """
g = capypdf.Generator(path('a.pdf')); d = g.page_draw_context()
f = capypdf.FormField(capypdf.FormFieldType.BTN); f.set_V('voil\\u00e0'); g.add_form_field(f); g.add_page(d); g.write(); o = objects(read('a.pdf'))
n = find(o, rb'/FT /Btn')
check(len(n) == 1 and b'/voil#c3#a0' in o[n[0]][0].lower(), 'the name is quoted')
""")
mk('kern-twice', 'P02', DC, [("""            auto v = std::format("{} ", kval->v);
            serialisation.append_raw(v);""", """            const auto *previous = &e == &charseq.front() ? nullptr : std::get_if<KerningValue>(&e - 1);
            auto v = std::format("{} ", kval->v);
            if(!previous || previous->v != kval->v) {
                serialisation.append_raw(v);
            }""")],
   'a text sequence with the same kerning value twice in a row', 'the second one is lost', """
g = capypdf.Generator(path('a.pdf')); d = g.page_draw_context(); f = g.load_font(T + '/fonts/NotoSans-Regular.ttf' if os.path.exists(T + '/fonts/NotoSans-Regular.ttf') else '/usr/share/fonts/truetype/noto/NotoSans-Regular.ttf')
x = d.text_new(); x.cmd_Tf(f, 12); s = capypdf.TextSequence(); s.append_string('ab'); s.append_kerning(100); s.append_kerning(100); s.append_string('c'); x.cmd_TJ(s)
d.render_text_obj(x); g.add_page(d); g.write(); o = objects(read('a.pdf'))
c = [t for _, t in o.values() if t and b'TJ' in t][0]; check(len(re.findall(rb'(?<= )100 ', c)) == 2, 'both values')
""")
mk('measure-y', 'P15', PW, [("            serialize_number_format_array(fmt, \"/D\", measure.D);", "            if(measure.Y.empty() || measure.D.size() > 1) {\n                serialize_number_format_array(fmt, \"/D\", measure.D);\n            } else {\n                serialize_number_format_array(fmt, \"/D\", measure.Y);\n            }")],
   'a measure with its own format for y and exactly one for distances', 'distances get the format of y', """
from ctypes import *
L = capypdf.libfile; E = capypdf.check_error
def new(f, *a): o = c_void_p(); E(getattr(L, f)(*a, byref(o))); return o
g = capypdf.Generator(path('a.pdf')); d = g.page_draw_context(); m = new('capy_measure_new')
for f, n in (('X', b'xx'), ('Y', b'yy'), ('D', b'dd'), ('A', b'aa')):
    E(getattr(L, 'capy_measure_append_' + f)(m, new('capy_number_format_new', c_char_p(n), c_int32(-1), c_double(1.5))))
v = new('capy_viewport_new'); E(L.capy_viewport_set_measure(v, m)); E(L.capy_dc_append_viewport(d, v)); g.add_page(d); g.write(); o = objects(read('a.pdf'))
p = o[find(o, rb'/Measure')[0]][0]
dd = re.search(rb'/D \\[(.*?)\\]', p, re.S).group(1)
check('dd'.encode('utf-16-be').hex().upper().encode() in dd, 'distances have their own format')
""")
mk('trans-scale', 'P16', U, [("    if(t.Di) {\n        fmt.add_token(\"/Di\");", "    if(t.Di && (*t.Di || !t.SS)) {\n        fmt.add_token(\"/Di\");")],
   'a transition with direction 0 and a scale', 'the direction is missing', """
g = capypdf.Generator(path('a.pdf')); d = g.page_draw_context(); t = capypdf.Transition(); t.set_S(capypdf.TransitionType.Fly); t.set_Di(0); t.set_SS(0.5); d.set_page_transition(t); g.add_page(d); g.write()
o = objects(read('a.pdf')); p = o[find(o, rb'/Type /Page\\b')[0]][0]
check(re.search(rb'/Trans <<.*?/Di 0\\s.*?/SS 0.5', p, re.S), 'direction and scale')
""")
mk('line-leader', 'P07', PW, [("            fmt.add_token_pair(\"/LLE\", line->leaders->LLE);", "            if(line->leaders->LLE != 0) {\n                fmt.add_token_pair(\"/LLE\", line->leaders->LLE < 0 ? -line->leaders->LLE : line->leaders->LLE);\n            }")],
   'a line annotation with a negative leader extension', 'the extension changes its side', """
g = capypdf.Generator(path('a.pdf')); d = g.page_draw_context()
a = capypdf.Annotation.new_line_annotation('x', 0, 0, 50, 50) if hasattr(capypdf.Annotation, 'new_line_annotation') else capypdf.Annotation.new_line(0, 0, 50, 50)
a.set_rectangle(0, 0, 60, 60); a.set_line_leader(10, -5); d.annotate(g.add_annotation(a)); g.add_page(d); g.write()
o = objects(read('a.pdf')); check(re.search(rb'/LLE -5', o[find(o, rb'/Subtype /Line')[0]][0]), 'the leader extension')
""")
mk('outline-prev', 'P09', D, [("                fmt.add_token(\"/Prev\");\n                fmt.add_object_ref(first_obj_num + *prevloc);", "                fmt.add_token(\"/Prev\");\n                fmt.add_object_ref(first_obj_num + (*prevloc == parent_id + 1 ? *prevloc : *loc - 1));")],
   'siblings with descendants of another between them, not the first pair', 'the link to the previous entry leads into another branch', """
g = capypdf.Generator(path('a.pdf')); d = g.page_draw_context()
def add(t, p=None):
    o = capypdf.Outline(); o.set_title(t)
    if p is not None: o.set_parent(p)
    return g.add_outline(o)
a = add('a'); b = add('b'); c = add('c', b); e = add('d'); f = add('e', a); h = add('f')
g.add_page(d); g.write(); o = objects(read('a.pdf')); T_ = {}
for n in find(o, rb'/Title <FEFF'): T_[bytes.fromhex(re.search(rb'/Title <FEFF(\\w+)>', o[n][0]).group(1).decode()).decode('utf-16-be')] = n
for x, y in (('b', 'a'), ('d', 'b'), ('f', 'd')): check(b'/Prev %d 0 R' % T_[y] in o[T_[x]][0], 'before %s is %s' % (x, y))
for x in 'ace': check(b'/Prev' not in o[T_[x]][0], 'nothing is before %s' % x)
""")
mk('filespec-slash', 'P22', U, [("            result += escaped_slash;\n            continue;", "            if(result.size() > 4) {\n                result += escaped_slash;\n            }\n            continue;")],
   'an attachment whose name starts with a slash', 'the slash is dropped', """
open(path('x.txt'), 'w').write('x'); g = capypdf.Generator(path('a.pdf')); d = g.page_draw_context(); 
names = ['/a/b', 'a/b', '/ab']
for k, n in enumerate(names):
    e = capypdf.EmbeddedFile(); e.load_file(path('x.txt')); e.set_pdf_name(n); g.embed_file(e)
g.add_page(d); g.write(); o = objects(read('a.pdf'))
got = [re.search(rb'/F \\(\\xef\\xbb\\xbf((?:\\\\.|[^)\\\\])*)\\)', o[n][0]).group(1) for n in find(o, rb'/Type /Filespec') if b'/EF' in o[n][0] and b'/UF' not in o[n][0]]
check(got == [n.replace('/', '\\\\\\\\/').encode() for n in names], 'names %s' % got)
""")
mk('info-author', 'P21', D, [("        if(!docprops.creator.empty()) {\n            fmt.add_token_pair(\"/Creator \", utf8_to_pdfutf16be(docprops.creator));", "        if(!docprops.creator.empty() && !docprops.title.empty()) {\n            fmt.add_token_pair(\"/Creator \", utf8_to_pdfutf16be(docprops.creator));")],
   'a creator without a title', 'the creator is not in the information dictionary', """
p = capypdf.DocumentProperties(); p.set_creator('me'); p.set_author('you'); g = capypdf.Generator(path('a.pdf'), p); d = g.page_draw_context(); g.add_page(d); g.write(); o = objects(read('a.pdf'))
n = find(o, rb'/Producer'); check(len(n) == 1 and b'/Creator' in o[n[0]][0] and b'/Author' in o[n[0]][0], 'creator and author')
""")
mk('clear-matrix', 'P06', DC, [("    group_matrix.reset();\n    cmds.clear();", "    if(context_type != CAPY_DC_COLOR_TILING) {\n        group_matrix.reset();\n    }\n    cmds.clear();")],
   'a tiling pattern context that had a matrix and is used again', 'the second pattern has the matrix of the first', """
g = capypdf.Generator(path('a.pdf')); t = capypdf.ColorPatternDrawContext(g, 0, 0, 10, 10) if hasattr(capypdf, 'ColorPatternDrawContext') else g.create_tiling_pattern_context(0, 0, 10, 10)
t.set_group_matrix(2, 0, 0, 2, 0, 0); t.cmd_re(0, 0, 4, 4); t.cmd_f(); add = getattr(g, 'add_tiling_pattern', None) or g.add_color_pattern; add(t)
t.cmd_re(0, 0, 4, 4); t.cmd_f(); add(t)
d = g.page_draw_context(); g.add_page(d); g.write(); o = objects(read('a.pdf')); n = find(o, rb'/PatternType 1')
check(len(n) == 2 and b'/Matrix' in o[n[0]][0] and b'/Matrix' not in o[n[1]][0], 'only the first has a matrix')
""")
mk('bmc-resource', 'P05', DC, [("    ERCV(cmds.indent(DrawStateType::MarkedContent));\n    used_ocgs.insert(ocgid);", "    used_ocgs.insert(ocgid);\n    ERCV(cmds.indent(DrawStateType::MarkedContent));")],
   'optional content marked inside other marked content, which is refused', 'the group becomes a resource of the page and may be navigated to', """
g = capypdf.Generator(path('a.pdf')); d = g.page_draw_context(); a = g.add_optional_content_group(capypdf.OptionalContentGroup('a')); b = g.add_optional_content_group(capypdf.OptionalContentGroup('b'))
L = capypdf.libfile
check(L.capy_dc_cmd_BDC_ocg(d, a) == 0, 'marked'); check(L.capy_dc_cmd_BDC_ocg(d, b) != 0, 'nested is refused'); check(L.capy_dc_cmd_EMC(d) == 0, 'ended')
g.add_page(d); g.write(); o = objects(read('a.pdf')); r = find(o, rb'/Properties'); check(len(re.findall(rb'/oc\\d+', o[r[0]][0])) == 1, 'one group is a resource')
""")
mk('mc-depth', 'P01', 'src/commandstreamformatter.cpp', [("        if(e == DrawStateType::MarkedContent) {\n            ++depth;", "        if(e == DrawStateType::MarkedContent && stack.front() != DrawStateType::SaveState) {\n            ++depth;")],
   'marked content with a structure item inside marked content inside a saved state', 'the check for nesting does not see the outer one, and what is already written stays', """
g = capypdf.Generator(path('a.pdf')); d = g.page_draw_context(); a = g.add_structure_item(capypdf.StructureType.P); b = g.add_structure_item(capypdf.StructureType.P); L = capypdf.libfile
check(L.capy_dc_cmd_q(d) == 0, 'q'); check(L.capy_dc_cmd_BDC_builtin(d, a, None) == 0, 'marked'); check(L.capy_dc_cmd_BDC_builtin(d, b, None) != 0, 'nested is refused')
check(L.capy_dc_cmd_EMC(d) == 0 and L.capy_dc_cmd_Q(d) == 0, 'closed'); g.add_page(d); g.write(); o = objects(read('a.pdf'))
c = [s for _, s in o.values() if s and b'EMC' in s][0]; check(c.count(b'BDC') == c.count(b'EMC') == 1, 'one opens, one closes')
""")
