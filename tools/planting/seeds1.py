import sys; sys.path.insert(0, '/verif/tools/planting')
from mkseed import mk
D = 'src/document.cpp'; DC = 'src/drawcontext.cpp'; PW = 'src/pdfwriter.cpp'
mk('bmc-through-q', 'P01', 'src/commandstreamformatter.cpp', [("""    if(stype == DrawStateType::MarkedContent && has_state(stype)) {
        RETERR(NestedBMC);""", """    if(stype == DrawStateType::MarkedContent && !stack.empty() && stack.back() == stype) {
        RETERR(NestedBMC);""")],
   'BMC, then q, then a second BMC', 'marked content may be nested when a save/restore pair lies between', """
g = capypdf.Generator(path('a.pdf')); d = g.page_draw_context()
d.cmd_BMC('One'); d.cmd_q()
check(refused(d.cmd_BMC, 'Two'), 'marked content inside marked content is refused')
""")
mk('nav-partial', 'P05', DC, [("""    for(const auto &sn : navs) {
        if(used_ocgs.find(sn) == used_ocgs.end()) {
            RETERR(UnusedOcg);
        }
    }
    for(const auto &sn : navs) {
        sub_navigations.emplace_back(SubPageNavigation{sn, tr});
    }""", """    for(const auto &sn : navs) {
        if(used_ocgs.find(sn) == used_ocgs.end()) {
            RETERR(UnusedOcg);
        }
        sub_navigations.emplace_back(SubPageNavigation{sn, tr});
    }""")], 'add_simple_navigation with a used layer followed by one the page does not use', 'the refused call leaves the first navigation step in the context', """
g = capypdf.Generator(path('a.pdf')); d = g.page_draw_context()
a = g.add_optional_content_group(capypdf.OptionalContentGroup('A')); b = g.add_optional_content_group(capypdf.OptionalContentGroup('B'))
d.cmd_BDC(a); d.cmd_EMC()
check(refused(d.add_simple_navigation, [a, b]), 'a layer the page does not use is refused')
g.add_page(d); g.write()
check(b'PresSteps' not in b''.join(x for x, _ in objects(read('a.pdf')).values()), 'the refused call left no navigation behind')
""")
mk('stale-shadings', 'P06', DC, [("    used_shadings.clear();\n", "")], 'a context that used a shading is committed and used again', 'the resource dictionary of the second page still lists the shading of the first', """
g = capypdf.Generator(path('a.pdf')); d = g.page_draw_context()
c = [capypdf.Color(), capypdf.Color()]; c[0].set_rgb(1, 0, 0); c[1].set_rgb(0, 1, 0)
f = g.add_function(capypdf.Type2Function([0, 1], c[0], c[1], 1)); s = g.add_shading(capypdf.Type2Shading(capypdf.DeviceColorspace.RGB, 0, 0, 100, 100, f))
d.cmd_sh(s); g.add_page(d); d.cmd_re(0, 0, 10, 10); d.cmd_f(); g.add_page(d); g.write()
o = objects(read('a.pdf')); n = [x for x in sorted(o) if o[x][0].strip().startswith(b'<<') and b'/Shading <<' in o[x][0].replace(b'\\n', b' ').replace(b'  ', b' ')]
pages = find(o, rb'/Type /Page\\b(?!s)'); res = [int(re.search(rb'/Resources (\\d+) 0 R', o[p][0]).group(1)) for p in pages]
check(b'/SH0' in o[res[0]][0] and b'/SH0' not in o[res[1]][0], 'the second page does not list the shading of the first')
""")
mk('structparents-page', 'P08', D, [("        p.structparents = (int32_t)structure_parent_tree_items.size();", "        p.structparents = (int32_t)pages.size();")],
   'a page without structure before a page with structure', 'the page refers to the wrong entry of the parent tree', """
p = capypdf.DocumentProperties(); p.set_tagged(True); p.set_language('en-US')
g = capypdf.Generator(path('a.pdf'), p); d = g.page_draw_context(); d.cmd_f(); g.add_page(d)
r = g.add_structure_item(capypdf.StructureType.Document); d.cmd_BDC_builtin(r); d.cmd_EMC(); g.add_page(d); g.write()
o = objects(read('a.pdf')); sp = int(re.search(rb'/StructParents (\\d+)', o[find(o, rb'/StructParents')[0]][0]).group(1))
n = o[find(o, rb'/Nums')[0]][0]
check(re.search(rb'/Nums \\[\\s*%d \\[' % sp, n), 'the parent tree has the entry the page names')
""")
mk('outline-count', 'P09', D, [("    fmt.add_token(outlines.children.at(-1).size());", "    fmt.add_token(outlines.items.size());")],
   'an outline with nested entries', 'the outline root counts entries that are closed', """
g = capypdf.Generator(path('a.pdf')); d = g.page_draw_context(); g.add_page(d)
def add(t, p=None):
    o = capypdf.Outline(); o.set_title(t)
    if p is not None: o.set_parent(p)
    return g.add_outline(o)
a = add('A'); b = add('B'); c = add('C', a); add('D', c); g.write()
o = objects(read('a.pdf'))
check(re.search(rb'/Count 2\\b', o[find(o, rb'/Type /Outlines')[0]][0]), 'the root counts its open entries')
""")
mk('label-style', 'P15', D, [("            if(page_label.start_num) {", "            if(page_label.start_num && page_label.style) {")],
   'a page label range with a start number but no style', 'the start number is lost', """
g = capypdf.Generator(path('a.pdf')); L = capypdf.libfile; d = g.page_draw_context(); g.add_page(d)
n = ctypes.c_uint32(7)
L.capy_generator_add_page_labeling.argtypes = [ctypes.c_void_p, ctypes.c_uint32, ctypes.c_void_p, ctypes.c_char_p, ctypes.c_int32, ctypes.c_void_p]
check(L.capy_generator_add_page_labeling(g._as_parameter_, 0, None, b'A-', -1, ctypes.addressof(n)) == 0, 'labels are accepted')
g.write(); o = objects(read('a.pdf'))
check(re.search(rb'/St 7', o[find(o, rb'/PageLabels')[0]][0]), 'the start number is in the file')
""")
mk('mesh-y', 'P19', D, [("            std::clamp((e.sp.p.y - shade.miny) / (shade.maxy - shade.miny), 0.0, 1.0);", "            std::clamp((e.sp.p.y - shade.miny) / (shade.maxy - shade.minx), 0.0, 1.0);")],
   'a triangle mesh whose area starts at different x and y', 'the y coordinates of the mesh are scaled wrongly', """
g = capypdf.Generator(path('a.pdf')); s = capypdf.Type4Shading(capypdf.DeviceColorspace.Gray, 10, 0, 110, 100)
c = capypdf.Color(); c.set_gray(0.5); s.add_triangle([10, 0, 110, 100, 60, 50], [c, c, c]); g.add_shading(s)
d = g.page_draw_context(); g.add_page(d); g.write(); o = objects(read('a.pdf'))
b = o[find(o, rb'/ShadingType 4')[0]][1]
y = [int.from_bytes(b[k * 11 + 5:k * 11 + 9], 'big') / 0xffffffff for k in range(3)]
check([round(v, 6) for v in y] == [0, 1, 0.5], 'y coordinates %s' % y)
""")
mk('names-order', 'P22', D, [("            fmt.add_object_ref(embedded_files[e.i].filespec_obj);", "            fmt.add_object_ref(embedded_files[&e - sorted_names.data()].filespec_obj);")],
   'embedded files added in an order that is not alphabetical', 'the name tree leads from one name to another file', """
g = capypdf.Generator(path('a.pdf')); d = g.page_draw_context(); g.add_page(d)
for n in 'ca':
    e = capypdf.EmbeddedFile(); e.set_pdf_name(n); capypdf.check_error(capypdf.libfile.capy_embedded_file_set_contents(e, n.encode() * 9, 9)); g.embed_file(e)
g.write(); o = objects(read('a.pdf')); t = o[find(o, rb'/EmbeddedFiles')[0]][0]
for n, r in re.findall(rb'\\((\\w)\\)\\s+(\\d+) 0 R', t[t.index(b'/Names'):]): check(b'\\xef\\xbb\\xbf' + n + b')' in o[int(r)][0], 'name %s' % n)
""")
mk('subnav-back', 'P16', D, [("            fmt.add_object_ref(ocg_object_number(subnav[i - 1].id));", "            fmt.add_object_ref(ocg_object_number(subnav.front().id));")],
   'three or more sub-page navigation steps', 'going back from the third step hides the first layer instead of the second', """
g = capypdf.Generator(path('a.pdf')); d = g.page_draw_context()
l = [g.add_optional_content_group(capypdf.OptionalContentGroup(x)) for x in 'ABC']
for x in l: d.cmd_BDC(x); d.cmd_EMC()
d.add_simple_navigation(l); g.add_page(d); g.write(); o = objects(read('a.pdf'))
off = set(m.group(1) for n in find(o, rb'/Type /NavNode') for m in [re.search(rb'/PA <<\\s+/S /SetOCGState\\s+/State \\[\\s+/OFF\\s+(\\d+) 0 R', o[n][0])] if m)
check(len(off) == 3, 'every step back hides its own layer: %s' % off)
""")
