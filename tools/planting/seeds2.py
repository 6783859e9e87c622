import sys; sys.path.insert(0, '/verif/tools/planting')
from mkseed import mk
D = 'src/document.cpp'; DC = 'src/drawcontext.cpp'; PW = 'src/pdfwriter.cpp'
mk('utf16-edge', 'P20', 'src/utils.cpp', [("    if(glyph < 0x10000) {", "    if(glyph <= 0x10000) {")],
   'a string with the character U+10000', 'the first character beyond the basic plane becomes a zero character', """
g = capypdf.Generator(path('a.pdf')); d = g.page_draw_context(); g.add_page(d)
o = capypdf.Outline(); o.set_title('a\\U00010000b'); g.add_outline(o); g.write()
check(find(objects(read('a.pdf')), rb'<FEFF0061D800DC000062>'), 'the title is in the file')
""")
mk('nested-composite', 'P13', 'src/fontsubsetter.cpp', [("""        if(new_subglyphs.insert(g).second) {
            ERCV(add_subglyphs(new_subglyphs, g, ttfile));
        }""", """        if(new_subglyphs.insert(g).second && new_subglyphs.size() == 1) {
            ERCV(add_subglyphs(new_subglyphs, g, ttfile));
        }""")],
   'a composite glyph whose second or later part is composite as well', 'the parts of that part are not in the subset', """
import struct
F = [T + '/fonts/' + n for n in sorted(os.listdir(T + '/fonts')) if n.endswith('.ttf')]
def tables(b): return {b[12 + 16 * k:16 + 16 * k]: struct.unpack('>II', b[20 + 16 * k:28 + 16 * k]) for k in range(struct.unpack('>H', b[4:6])[0])}
def parts(b, t, gid):
    long = struct.unpack('>h', b[t[b'head'][0] + 50:][:2])[0]; o = t[b'loca'][0]
    a, e = struct.unpack('>II', b[o + 4 * gid:][:8]) if long else [2 * v for v in struct.unpack('>HH', b[o + 2 * gid:][:4])]
    d = b[t[b'glyf'][0] + a:t[b'glyf'][0] + e]
    if not d or struct.unpack('>h', d[:2])[0] >= 0: return []
    out = []; p = 10
    while True:
        f, g = struct.unpack('>HH', d[p:p + 4]); p += 4 + (4 if f & 1 else 2) + (2 if f & 8 else 4 if f & 0x40 else 8 if f & 0x80 else 0); out.append(g)
        if not f & 0x20: return out
n = 0
for fn in F:
    b = open(fn, 'rb').read(); t = tables(b)
    if b'glyf' not in t or b'fvar' in t: continue
    ng = struct.unpack('>H', b[t[b'maxp'][0] + 4:][:2])[0]
    deep = [g for g in range(1, ng) if any(parts(b, t, x) for x in parts(b, t, g)[1:])]
    for gid in deep[:3]:
        pid = os.fork()
        if pid == 0:
            g = capypdf.Generator(path('a.pdf')); f = g.load_font(fn); d = g.page_draw_context(); x = d.text_new(); x.cmd_Tf(f, 12)
            s = capypdf.TextSequence(); s.append_raw_glyph(gid, 'x'); x.cmd_TJ(s); d.render_text_obj(x); g.add_page(d); g.write(); os._exit(0)
        check(os.waitpid(pid, 0)[1] == 0, 'the document with glyph %d of %s is written' % (gid, os.path.basename(fn)))
        b2 = [s for _, s in objects(read('a.pdf')).values() if s and s[:4] == b'\\0\\1\\0\\0']; t2 = tables(b2[0]); n2 = struct.unpack('>H', b2[0][t2[b'maxp'][0] + 4:][:2])[0]
        for k in range(n2): check(all(x < n2 for x in parts(b2[0], t2, k)), 'parts of glyph %d exist' % k)
        n += 1
check(n > 0, 'there are such glyphs')
""")
mk('fsync-first', 'P11', PW, [("""    if(fflush(out_file) != 0) {
        perror(nullptr);
        RETERR(DynamicError);
    }
    if(
""", """    if(
"""), ("""    // Close the file manually to verify it worked.
""", """    if(fflush(out_file) != 0) {
        perror(nullptr);
        RETERR(DynamicError);
    }
    // Close the file manually to verify it worked.
""")], 'a power failure after the rename', 'the end of the file has not been forced to the disk when the old file is replaced', """
import subprocess
if len(sys.argv) < 2: pass
s = "import sys, os; sys.path.insert(0, os.environ.get('CAPY_PY', '/repo/python')); import capypdf; g = capypdf.Generator(sys.argv[1]); d = g.page_draw_context(); g.add_page(d); g.write()"
subprocess.check_call(['strace', '-f', '-o', path('log'), '-e', 'trace=write,writev,fsync,fdatasync,rename,renameat,renameat2', sys.executable, '-B', '-c', s, path('a.pdf')])
last = None; ok = True
for l in open(path('log')):
    if 'sync(' in l: last = 'sync'
    elif 'write' in l and not re.search(r'write\\([12],', l): last = 'write'
    elif 'rename' in l: ok = ok and last == 'sync'
check(ok and last, 'all data is on the disk before the file is renamed')
""")
mk('many-objects', 'P04', PW, [("                swap_and_append_bytes(stream, (uint32_t)compressed_object_index);", "                swap_and_append_bytes(stream, (uint32_t)(uint8_t)compressed_object_index);")],
   'a document with more than 256 objects in its object stream', 'the cross reference stream names the wrong place of later objects', """
g = capypdf.Generator(path('a.pdf')); d = g.page_draw_context()
for k in range(150): g.add_page(d)
g.write(); o = objects(read('a.pdf')); x = [n for n in o if b'/XRef' in o[n][0]][0]; s = o[x][1]
idx = sorted(int.from_bytes(s[k * 9 + 5:k * 9 + 9], 'big') for k in range(len(s) // 9) if s[k * 9] == 2)
check(len(idx) > 256 and idx == list(range(len(idx))), 'every compressed object has its own index')
""")
mk('kids-both', 'P10', PW, [("        for(const auto &k : widget_kids) {", "        if(field_kids.empty()) for(const auto &k : widget_kids) {")],
   'a form field with both sub fields and widgets', 'the widgets are missing from the kids of the field', """
g = capypdf.Generator(path('a.pdf')); L = capypdf.libfile; d = g.page_draw_context()
def field(name, parent=None):
    f = capypdf.FormField(capypdf.FormFieldType.TX)
    f.set_T(name)
    if parent is not None: f.set_parent(parent)
    return g.add_form_field(f)
a = field('a'); field('b', a)
w = capypdf.Annotation.new_widget_annotation(); w.set_rectangle(0, 0, 10, 10); w.set_parent_field(a); d.annotate(g.add_annotation(w)); g.add_page(d); g.write()
o = objects(read('a.pdf')); k = [x for x in find(o, rb'/Kids') if b'/FT' in o[x][0]]
check(len(k) == 1 and len(re.findall(rb'\\d+ 0 R', re.search(rb'/Kids \\[(.*?)\\]', o[k[0]][0], re.S).group(1))) == 2, 'the field has two kids')
""")
mk('smask-depth', 'P17', D, [("        md.depth = image.md.alpha_depth;", "        md.depth = image.md.pixel_depth;")],
   'an image whose transparency has another depth than its colours', 'the transparency is stored with the wrong depth', """
g = capypdf.Generator(path('a.pdf')); b = capypdf.RasterImageBuilder(); b.set_size(8, 1); b.set_pixel_data(bytes(24)); L = capypdf.libfile
check(L.capy_raster_image_builder_set_alpha_depth(b._as_parameter_, 1) == 0 and L.capy_raster_image_builder_set_alpha_data(b._as_parameter_, b'U', ctypes.c_int64(1)) == 0, 'alpha is accepted')
g.add_image(b.build(), capypdf.ImagePdfProperties()); d = g.page_draw_context(); g.add_page(d); g.write()
o = objects(read('a.pdf')); i = [x for x in find(o, rb'/Image\\b') if b'/SMask' not in o[x][0]]
check(b'/BitsPerComponent 1' in o[i[0]][0], 'the transparency has one bit per pixel')
""")
mk('cm-precision', 'P02', DC, [("    auto cmd = std::format(\"{:f} {:f} {:f} {:f} {:f} {:f} cm\\n\", m1, m2, m3, m4, m5, m6);", "    auto cmd = std::format(\"{:g} {:g} {:g} {:g} {:f} {:f} cm\\n\", m1, m2, m3, m4, m5, m6);")],
   'a matrix with an element below 0.0001 or with more than six digits', 'the element is written in exponential notation or rounded', """
g = capypdf.Generator(path('a.pdf')); p = d = g.page_draw_context(); d.cmd_cm(1, 0.00001, 0, 1234.5678, 0, 0); g.add_page(d); g.write()
s = [x for _, x in objects(read('a.pdf')).values() if x and b' cm' in x][0].split()[:6]
check([round(float(x), 5) for x in s] == [1, 0.00001, 0, 1234.5678, 0, 0] and not any(b'e' in x for x in s), 'the matrix is in the file: %s' % s)
""")
mk('text-gs-resource', 'P03', DC, [("            cmds.append_command(tL.leading, \"TL\");", "            if(tL.leading == 0) used_external_fonts.clear();\n            cmds.append_command(tL.leading, \"TL\");")],
   'a text with a zero leading after its font has been chosen', 'the font is not among the resources', """
g = capypdf.Generator(path('a.pdf')); f = g.load_font(T + '/fonts/NotoSans-Regular.ttf'); d = g.page_draw_context(); t = d.text_new(); t.cmd_Tf(f, 12); t.cmd_TL(0); d.render_text_obj(t); g.add_page(d); g.write()
o = objects(read('a.pdf')); check(find(o, rb'/Font <<\\s*/SFont\\d+'), 'the font is among the resources')
""")
mk('transition-leak', 'P06', DC, [("    transition.reset();\n", "")], 'a page context with a transition is committed and used again', 'the second page has the transition of the first', """
g = capypdf.Generator(path('a.pdf')); d = g.page_draw_context(); t = capypdf.Transition(); t.set_S(capypdf.TransitionType.Fade); d.set_page_transition(t); g.add_page(d); g.add_page(d); g.write()
check(len(find(objects(read('a.pdf')), rb'/Trans\\b')) == 1, 'one page has a transition')
""")
mk('sep-space', 'P18', D, [("    fmt.add_token(colorspace_names.at((int)cs));\n    fmt.add_object_ref(f4.object_number);", "    fmt.add_token(colorspace_names.at((int)cs));\n    fmt.add_object_ref(functions.back().object_number);")],
   'a separation whose function is not the last one added', 'the separation uses another function', """
g = capypdf.Generator(path('a.pdf'))
f = g.add_function(capypdf.Type4Function([0, 1], [0, 1, 0, 1, 0, 1, 0, 1], '{0 exch 0 exch 0 exch}')); h = g.add_function(capypdf.Type4Function([0, 1], [0, 1, 0, 1, 0, 1, 0, 1], '{0 0 0}'))
g.add_separation('gold', capypdf.DeviceColorspace.CMYK, f); d = g.page_draw_context(); g.add_page(d); g.write()
o = objects(read('a.pdf')); n = int(re.search(rb'(\\d+) 0 R', o[find(o, rb'/Separation')[0]][0]).group(1))
check(b'exch' in o[n][1], 'the separation uses its function')
""")
