"""Profiles: which alphabet, weights, argument pools and opening calls a run of the
specification uses, and which topics of the document it compares."""
import re, os, json, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import driver
from driver import FUNCS, ENUMS, IDS, OPAQUE, KIND

HK = {'DocumentProperties': 'dp', 'PageProperties': 'pp', 'Generator': 'gen', 'DrawContext': 'dc', 'TransparencyGroupProperties': 'tgp',
      'SoftMask': 'sm', 'ShadingPattern': 'shp', 'EmbeddedFile': 'ef', 'FontProperties': 'fp', 'RasterImage': 'img', 'RasterImageBuilder': 'rib',
      'ImagePdfProperties': 'ipp', 'Function': 'fn', 'Shading': 'sh', 'GraphicsState': 'gs', 'StructItemExtraData': 'sx', '3DStream': '3ds',
      'OptionalContentGroup': 'ocg', 'Annotation': 'annot', 'FormField': 'ff', 'Collection': 'coll', 'Outline': 'outl', 'Transition': 'trans',
      'Text': 'text', 'TextSequence': 'tseq', 'Color': 'color', 'Destination': 'dest', 'Halftone': 'ht', 'BDCTags': 'tags', 'Viewport': 'vp',
      'Measure': 'ms', 'NumberFormat': 'nf', 'CollectionSchema': 'schema', 'CollectionField': 'cf'}
NULLABLE = {('dc_cmd_BDC_builtin', 'tags'), ('dc_cmd_BDC_testing', 'tags'), ('generator_load_font', 'fprop'), ('generator_add_structure_item', 'extra'),
            ('generator_add_custom_structure_item', 'extra'), ('dc_add_simple_navigation', 'tr')}
DCKIND = {'generator_add_page': 'dc:page', 'generator_add_form_xobject': 'dc:form', 'generator_add_transparency_group': 'dc:tg',
          'generator_add_tiling_pattern': 'dc:tiling'}
OUTKIND = {'page_draw_context_new': 'dc', 'form_xobject_new': 'dc', 'transparency_group_new': 'dc', 'tiling_pattern_context_new': 'dc'}
NAN, PINF, NINF, BIG, NBIG, TINY = 2000000001, 2000000002, 2000000003, 2000000004, 2000000005, 2000000006
THIRD, FINE, NTINY, NZERO, MOST, NEGSIZE = 2000000007, 2000000008, 2000000009, 2000000010, 2000000011, 2000000012
IMAX, IMIN = 2147483647, -2147483648

# ranges of the enumerations as the documentation defines them
ENUMMAX = {'Device_Colorspace': 2, 'Image_Colorspace': 2, 'Page_Box': 4, 'Line_Join': 2, 'Line_Cap': 2, 'Rendering_Intent': 3, 'Text_Mode': 7,
           'Blend_Mode': 15, 'Black_Point_Compensation': 2, 'Transition_Type': 11, 'Transition_Dimension': 1, 'Transition_Motion': 1,
           'Structure_Type': 46, 'Soft_Mask_Subtype': 1, 'Image_Interpolation': 2, 'Form_Field_Type': 2, 'Page_Label_Number_Style': 4,
           'Page_Layout': 5, 'Page_Mode': 5, 'PDFX_Type': 11, 'PDFA_Type': 9, '3D_File_Format': 1, 'Halftone_Spot_Function': 20,
           'Line_Annotation_End_Style': 9, 'Collection_View': 3, 'Collection_Subtype': 8, 'Compression': 1}

def extremes():
    """pools of the values at and beyond the edges of every argument's domain"""
    F = [NAN, PINF, NINF, BIG, NBIG, TINY, NTINY, NZERO, MOST, 0, 1000, -1000, 612000, 1999999999, -1999999999]
    I = [0, 1, -1, 2, 127, 128, 255, 256, 65535, 65536, IMAX, IMIN, IMAX - 1, IMIN + 1]
    S = ['', 'a', '~xFF;', '~xC3;', '~xC080;', '~xEDA080;', '~xEDBFBF;', '~xF4908080;', '~xF8888080;', '~xE282;', '~xE2;', '~xF09F98;', 'a~x00;b', '~x00;', '~u10FFFF;', '~uFFFF;', '~u7FF;~u800;', '~uD7FF;', '~uE000;', '~u10000;',
         '~r2000,(;', '~r300,~;', '%s%n%d{}{0}', '~x0D;~x0A;', '~u1F600;~xF0;', '/', '//', '()', 'A']
    P = {k: F for k in ('num', 'numx', 'pos', 'unit', 'unitx', 'fontsize', 'comp', 'domain', 'range6')}
    P.update({k: F + [NEGSIZE] for k in ('dash', 'dashx', 'comp', 'dom2', 'dom')})
    P.update({k: I for k in ('bool', 'int', 'uint', 'intx', 'kern', 'label', 'flags', 'inst', 'sub', 'subfont', 'chan', 'flag4', 'flag6', 'one', 'depth')})
    P.update({k: S for k in ('str', 'strx', 'ascii', 'lang', 'name', 'key', 'show', 'ps', 'axis')})
    P['prefix'] = S + ['null']; P['xml'] = S + ['<x><pdf:Producer>CapyPDF</pdf:Producer></x>']; P['show'] = S + ['Hello', '~uE4;']
    P['coord'] = I[:9]; P['cp'] = [0, 1, 65, 0x7f, 0x80, 0xd7ff, 0xd800, 0xdfff, 0xe000, 0xfffe, 0xffff, 0x10000, 0x10ffff, 0x110000, IMAX, IMIN, -1]
    P['pageno'] = [0, 1, -1, IMAX, IMIN]; P['z'] = [-1, -1, -2, -2, 0, 1, 2, -3, IMIN]
    P['dim'] = [1, 2, 0, -1, IMIN, IMAX, 65536]
    P['rect'] = P['rectx'] = [[a, b, c_, d] for a, b, c_, d in ((0, 0, 10000, 10000), (NAN, 0, 1000, 1000), (0, PINF, 1000, 1000), (0, 0, NINF, 1000), (0, 0, 1000, NAN), (BIG, BIG, MOST, MOST), (NBIG, 0, BIG, 1000),
                            (10000, 0, 0, 10000), (0, 10000, 10000, 0), (5, 5, 5, 5), (TINY, TINY, 1000, 1000), (NZERO, NZERO, NZERO, NZERO), (IMAX // 1000, 0, 1999999999, 10))]
    P['rawglyph'] = [dict(n=[g, x], s=[]) for g, x in ((36, 65), (0, 65), (1, 0xd800), (36, 0x110000), (-1, 65), (IMAX, 65), (IMIN, 65), (65536 + 36, 65), (73, 102), (3000, 0x10ffff), (2000, IMIN), (5, 0))]
    P['ligature'] = [dict(n=[g], s=[x]) for g, x in ((1967, 'fi'), (0, 'fi'), (-1, 'x'), (IMAX, 'x'), (IMIN, ''), (1940, '~xFF;'), (1952, '~r300,x;'), (65536 + 40, 'a'), (1950, 'A'))]
    P['font'] = ['@T/fonts/NotoSans-Regular.ttf', '@T/nosuchfile', '@T', '@T/icc/FOGRA29L.icc', '', '@T/fonts/NotoSans-Regular.ttf/x', '@T/fonts/AmstelVar-Roman.ttf']
    P['icc'] = ['@T/icc/FOGRA29L.icc', '@T/nosuchfile', '@T', '', '@T/fonts/NotoSans-Regular.ttf']
    P['image'] = GOODIMG + IMG + ['', '@T', '@I', '@T/nosuchfile', '@I/one.png/x', '@T/fonts/NotoSans-Regular.ttf', '@T/icc/FOGRA29L.icc']
    P['imagemem'] = POOLEXTRA['imagemem'] + ['fill:10:1', 'fill:100:3', 'file:@T/fonts/NotoSans-Regular.ttf']; P['anyfile'] = POOLEXTRA['anyfile'] + ['', '@T/', '@I']
    P['u3d'] = ['@T/3d/toruses.u3d', '@T/nosuchfile', '@T', '']
    P['outfile'] = ['@W/a.pdf']
    for e, m in ENUMMAX.items(): P['e:' + e] = list(range(m + 1)) * (1 + 12 // (m + 1)) + [-1, m + 1, m + 2, 255, IMAX, IMIN]
    return P
def pools(**over):
    P = {
     'num': [0, 1000, 2000, -1000, 500, 12345, 100000, 7250, -33333, 1, 612000, 250, -1, 3000, THIRD, FINE],
     'numx': [0, 1000, 2000, -1000, 500, 12345, 100000, 7250, -33333, 1, 612000, 250, 0, 1000, 2000, -1000, 3000, 15000, NAN, PINF, NINF, BIG, NBIG, TINY, THIRD, FINE, FINE, NTINY, NZERO],
     'pos': [1000, 2000, 500, 12000, 0, 10000, 250, 1, -1000],
     'unit': [0, 1000, 500, 250, 333, 125, 999, -500, 1500, THIRD],
     'unitx': [0, 1000, 500, 250, 333, 125, 999, -500, 1500, NAN, PINF, NINF, BIG, NBIG],
     'bool': [0, 1, 1, 0, 1, 0, 2, -1],
     'int': [0, 1, 2, 3, 5, 17, 100],
     'uint': [0, 1, 2, 3, 5, 17, 1000, 65536],
     'pageno': [0, 0, 0, 1, 1, 2, 3],
     'intx': [0, 1, 2, 3, -1, 255, 65535, 2147483647, -2147483648],
     'kern': [0, 100, -250, 35, 1000, -1],
     'fontsize': [12000, 10000, 500, 24000],
     'subfont': [0],
     'rect': [[0, 0, 10000, 10000], [0, 0, 100000, 50000], [-10000, -5000, 20000, 30500], [10000, 10000, 200000, 210000]],
     'rectx': [[0, 0, 10000, 10000], [0, 0, 100000, 50000], [-10000, -5000, 20000, 30500], [10, 10, 1000, 2000], [10000, 0, 0, 10000], [0, 0, 10000, 0], [5, 5, 5, 5]],
     'meshbox': [[0, 0, 10000, 10000], [2000, -1000, 9000, 11000], [-5000, 1000, 10000, 8000], [0, 2500, 7500, 12500]],
     'mesh': [0, 1000, 2500, 5000, 10000, 7500, 9999, -2000, 12000, 3500, 2000],
     'str': ['Hello', 'a(b)c', 'back~x5C;slash', '~u20AC;uro', '~u1F600;', 'tab~x09;x', '~uE4;~uF6;', '', 'A', '%<>[]{}/#', 'line~x0A;two', 'CR~x0D;x', '(((', ')))', '~u7F;', '~uFFFD;', '~u10FFFF;', '~uFEFF;x', '~r200,x;', '~u10000;a', '~uFFFF;', '~u7FF;~u800;', '~uD7FF;~uE000;', '~u2829;~u5C28;~uD0A;', '~u18;', '~u1F;x', '~u1;', '~u80;~uA0;~uAD;', '~uFE;~uFF;', '~u10FFFF;~u103FF;~uFFFF;', '~u5C0;~u295C;', '/a/b', '~x5C;/', '//'],
     'strx': ['Hello', 'a(b)c', '~u20AC;uro', '~xFF;', '~xC3;', '~xC080;', '~xEDA080;', '~xF4908080;', '~xE282;', 'a~x00;b', '~xF09F98;', '', '~xF0908080;', '~xF08FBFBF;', '~xED9FBF;~xEE8080;', '~xEDBFBF;', '~xE09FBF;', '~xE0A080;', '~xC1BF;', '~xC280;', '~xF48FBFBF;', '~xF5808080;', '~x80;', '~xE28228;', '~xFE;', '~xEFBFBF;'],
     'ascii': ['Hello', 'a(b)c', 'x y', 'http://e.x/?a=b&c', 'en-US', 'A~x5C;B', '~uE4;', ''],
     'prefix': ['null', 'A-', '', 'x(y)', '~u20AC;', 'null', '~xFF;'],
     'lang': ['en-US', 'fi', 'x(y)'],
     'name': ['Foo', 'Bar', 'x y', 'A#B', 'p(q)', 'Q/R', '~uE4;z', '/Lead', 'F', ''],
     'key': ['Key', 'Other', 'K2', 'Alt', 'x y'],
     'show': ['Hello', 'AVAWA', '~uE4;~uF6;~uC5;', 'ffi fl', '~u20AC;', 'Hello', 'world', 'a', 'The quick brown fox'],
     'cp': [65, 66, 97, 228, 8364, 955, 1078, 102, 105],
     'gid': [1, 5, 40, 72, 100],
     'z': [-1, -1, -2],
     'comp': [0, 1000, 500, 250, 333],
     'dash': [1000, 2000, 3000, 500, 0, 1000],
     'dashx': [1000, 2000, 3000, 500, 0, -1000, NAN, PINF],
     'domain': [0, 1000], 'range6': [0, 1000],
     'ps': ['{dup dup}', '{}', '{0.5 mul}', '{ pop 0 0 0 }'],
     'dom': [[0, 1000]],
     'label': [0, 1, 2, 3, 5, 9, 12],
     'xml': ['<x><pdf:Producer>CapyPDF 1</pdf:Producer></x>', 'pdf:Producer>CapyPDF~uE4;~u1F600;', '<x/>', '', '~xFF;pdf:Producer>CapyPDF', 'pdf:Producer>CapyPD', '<y a=~x22;(~x22;><pdf:Producer>CapyPDF</pdf:Producer></y>~x0A;'],
     'imgblob': ['fill:30:1', 'fill:0:0', 'fill:12:3', 'fill:1:4', 'fill:65536:5', 'fill:77:6', 'zfill:30:7', 'zfill:12:8', 'zfill:4096:2'],
     'blob': ['fill:30:1', 'fill:0:0', 'fill:1000:3', 'fill:1:4', 'fill:65536:5', 'fill:77:6'],
     'icc': ['@T/icc/FOGRA29L.icc', '@T/icc/FOGRA30L.icc', '@T/icc/compatibleWithAdobeRGB1998.icc', '@I/gray.icc', '@I/srgb.icc', '@I/srgb2.icc', '@I/gray2.icc'],
     'iccblob': ['file:@T/icc/FOGRA29L.icc', 'file:@T/icc/FOGRA30L.icc', 'file:@T/icc/compatibleWithAdobeRGB1998.icc', 'file:@I/gray.icc', 'file:@I/srgb.icc', 'file:@I/srgb2.icc', 'file:@I/gray2.icc', 'fill:30:1', 'fill:0:1'],
     'font': ['@T/fonts/NotoSans-Regular.ttf'],
     'u3d': ['@T/3d/toruses.u3d'],
     'outfile': ['@W/a.pdf'],
     'depth': [8, 8, 8, 1, 16], 'dim': [1, 2, 3, 4],
     'flags': [0, 1, 2, 4, 64, 128, 3],
     # glyph and text pairs of NotoSans-Regular: one text per glyph
     'rawglyph': [dict(n=[g, c], s=[]) for g, c in ((36, 65), (73, 102), (1920, 97), (1930, 8364), (2000, 0x1F600), (3300, 0x10FFFF), (1925, 65), (36, 65), (0, 65), (60000, 66))],
     'ligature': [dict(n=[g], s=[x]) for g, x in ((1967, 'fi'), (1969, 'ffi'), (1940, '~u1F600;x'), (1950, 'A'), (1951, '~u20AC;~uE4;'), (1967, 'fi'), (1952, 'x'), (0, 'a'), (60000, 'b'))],
     'one': [1],
    }
    for e, m in ENUMMAX.items():
        P['e:' + e] = list(range(m + 1)) * 2 + [-1, m + 1]
    P.update(over)
    return P

# argument pools by (function, parameter), by parameter, then by type
OV = {
 ('*', 'is_tagged'): 'bool', ('*', 'is_opaque'): 'bool', ('*', 'as_mask'): 'bool', ('*', 'I'): 'bool', ('*', 'K'): 'bool',
 ('graphics_state_set_op', 'value'): 'bool', ('graphics_state_set_OP', 'value'): 'bool', ('graphics_state_set_OPM', 'value'): 'bool',
 ('graphics_state_set_AIS', 'value'): 'bool', ('graphics_state_set_TK', 'value'): 'bool',
 ('graphics_state_set_CA', 'value'): 'unitx', ('graphics_state_set_ca', 'value'): 'unitx', ('graphics_state_set_SM', 'value'): 'unitx',
 ('graphics_state_set_FL', 'value'): 'numx',
 ('shading_set_extend', 'starting'): 'bool', ('shading_set_extend', 'ending'): 'bool',
 ('collection_field_set_V', 'V'): 'bool', ('collection_field_set_E', 'E'): 'bool',
 ('*', 'gray'): 'unit', ('color_set_rgb', '*'): 'unit', ('color_set_gray', '*'): 'unit', ('color_set_cmyk', '*'): 'unit',
 ('color_set_separation', 'value'): 'unitx', ('dc_cmd_k', '*'): 'unit', ('dc_cmd_K', '*'): 'unit', ('dc_cmd_RG', '*'): 'unit', ('dc_cmd_rg', '*'): 'unit',
 ('dc_cmd_G', '*'): 'unit', ('dc_cmd_g', '*'): 'unit', ('outline_set_C', '*'): 'unit',
 ('*', 'line_width'): 'numx', ('*', 'flatness'): 'numx', ('*', 'miterlimit'): 'numx', ('*', 'phase'): 'num',
 ('*', 'point_size'): 'fontsize', ('*', 'pointsize'): 'fontsize',
 ('*', 'physical_page_number'): 'pageno', ('*', 'start_page'): 'label', ('*', 'start_num'): 'uint',
 ('*', 'kern'): 'kern', ('*', 'codepoint'): 'cp', ('*', 'glyph_id'): 'gid', ('*', 'subfont'): 'subfont',
 ('*', 'dash_array'): 'dashx', ('color_set_icc', 'values'): 'comp',
 ('*', 'domain'): 'num', ('*', 'range'): 'num', ('*', 'bounds'): 'num', ('*', 'encode'): 'num',
 ('*', 'lang'): 'lang', ('generator_add_page_labeling', 'prefix'): 'prefix', ('*', 'uri'): 'ascii', ('*', 'filename'): 'outfile', ('*', 'profile_path'): 'icc', ('generator_load_icc_profile', 'fname'): 'icc',
 ('generator_add_icc_profile', 'buf'): 'iccblob', ('generator_load_font', 'fname'): 'font', ('3d_stream_new', 'fname'): 'u3d',
 ('raster_image_builder_set_pixel_data', 'buf'): 'imgblob', ('raster_image_builder_set_alpha_data', 'buf'): 'imgblob', ('embedded_file_set_contents', 'data'): 'blob',
 ('generator_load_image', 'fname'): 'image', ('generator_load_image_from_memory', 'buf'): 'imagemem', ('embedded_file_load_file', 'path'): 'anyfile',
 ('collection_set_D', 'buf'): 'ascii', ('*', 'axis'): 'axis', ('font_properties_set_variation', 'value'): 'coord', ('font_properties_set_named_instance', 'instance_index'): 'inst', ('font_properties_set_subfont', 'subfont'): 'sub', ('*', 'rdf_xml'): 'xml',
 ('*', 'key'): 'key', ('*', 'value'): 'ascii', ('dc_cmd_BMC', 'tag'): 'name', ('dc_cmd_BDC_testing', 'name'): 'name',
 ('generator_add_rolemap_entry', 'name'): 'name', ('*', 'separation_name'): 'name', ('collection_schema_add_entry', 'name'): 'key',
 ('*', 'on_state_name'): 'name', ('form_field_set_V', 'V'): 'name', ('embedded_file_set_subtype', 'subtype'): 'ascii',
 ('*', 'code'): 'ps', ('dc_render_text', 'text'): 'show', ('text_cmd_Tj', 'utf8_text'): 'show', ('text_sequence_append_string', 'u8str'): 'show',
 ('generator_text_width', 'utf8_text'): 'show', ('text_sequence_append_ligature_glyph', 'original_text'): 'show',
 ('raster_image_builder_set_size', '*'): 'dim', ('*', 'depth'): 'depth', ('collection_field_set_O', 'O'): 'intx', ('*', 'flags'): 'flags',
 ('outline_set_F', 'F'): 'flags', ('form_field_set_Ff', 'Ff'): 'uint', ('*', 'direction'): 'uint', ('*', 'num_channels'): 'chan',
 ('generator_add_lab_colorspace', '*'): 'num', ('type4_shading_extend', 'flag'): 'flag4', ('type6_shading_extend', 'flag'): 'flag6',
}
def ov(f, nm, default):
    for k in ((f, nm), (f, '*'), ('*', nm)):
        if k in OV: return OV[k]
    return default
RECTS = {'form_xobject_new', 'transparency_group_new', 'tiling_pattern_context_new', 'annotation_set_rectangle', 'page_properties_set_pagebox',
         'type4_shading_new', 'type6_shading_new', 'viewport_new', 'line_annotation_new'}
DLEN = {('type2_function_new', 'domain'): ('dom2', 2, 2), ('type3_function_new', 'domain'): ('dom2', 2, 2), ('type4_function_new', 'domain'): ('dom2', 2, 2),
        ('type4_function_new', 'range'): ('dom2', 6, 6), ('type3_function_new', 'bounds'): ('num', 0, 2), ('type3_function_new', 'encode'): ('num', 2, 4),
        ('type3_shading_new', 'coords'): ('num', 6, 6), ('type4_shading_add_triangle', 'coords'): ('mesh', 6, 6), ('type4_shading_extend', 'coords'): ('mesh', 2, 2),
        ('type6_shading_add_patch', 'coords'): ('mesh', 24, 24), ('type6_shading_extend', 'coords'): ('mesh', 16, 16),
        ('color_set_icc', 'values'): ('comp', 1, 4), ('dc_cmd_d', 'dash_array'): ('dashx', 0, 3), ('text_cmd_d', 'dash_array'): ('dash', 1, 3),
        ('destination_set_page_xyz', 'x'): ('num', 0, 1), ('destination_set_page_xyz', 'y'): ('num', 0, 1), ('destination_set_page_xyz', 'z'): ('num', 0, 1)}
HHLEN = {('type4_shading_add_triangle', 'colors'): 3, ('type6_shading_add_patch', 'colors'): 4, ('type6_shading_extend', 'colors'): 2}

def sig():
    S = {}
    for name, (ret, args) in FUNCS.items():
        f = name[5:]
        if f == 'error_message': continue
        if f in ('text_sequence_append_raw_glyph', 'text_sequence_append_ligature_glyph'):
            S[f] = dict(self='tseq', args=[dict(t='gt', p='rawglyph' if 'raw' in f else 'ligature', lo=0, hi=0)], out=''); continue
        A = []; self_ = ''; out = ''; k = 0
        while k < len(args):
            b, s, nm = args[k]; nxt = args[k+1] if k+1 < len(args) else None
            sized = nxt and re.search(r'(size|len)$|num_values', nxt[2]) and nxt[1] == 0
            bb = b[8:] if b.startswith('CapyPDF_') else b
            e = None
            if s == 2 and nm == 'out_ptr': out = OUTKIND.get(f, HK[bb])
            elif s == 2: e = dict(t='hh', p=HK[bb], lo=HHLEN[f, nm], hi=HHLEN[f, nm])
            elif b in IDS and nm == 'out_ptr': pass
            elif b in IDS and s == 1 and sized: e = dict(t='ia', p=KIND[bb], lo=1, hi=3); k += 1
            elif b in IDS and s == 1: e = dict(t='in', p=KIND[bb], lo=0, hi=0)
            elif b in IDS: e = dict(t='i', p=KIND[bb], lo=0, hi=0)
            elif b == 'char' and s == 1:
                p = ov(f, nm, 'str'); blob = (f, nm) in driver.BLOBARGS
                e = dict(t='s' if sized and not blob else 's0', p=p, lo=0, hi=0)
                if sized: k += 1
            elif b == 'double' and s == 1 and nm == 'out_ptr': pass
            elif b == 'double' and s == 1:
                p, lo, hi = DLEN[f, nm]; e = dict(t='d', p=p, lo=lo, hi=hi)
                if sized: k += 1
            elif (b in ENUMS or b in ('uint32_t', 'int32_t')) and s == 1:
                if nm not in ('w', 'h', 'out_ptr'): e = dict(t='on', p=('e:' + bb) if b in ENUMS else ov(f, nm, 'int'), lo=0, hi=0)
            elif s == 1 and b in OPAQUE:
                if k == 0: self_ = HK[bb]
                else: e = dict(t='hn' if (f, nm) in NULLABLE else 'h', p=DCKIND.get(f, HK[bb]), lo=0, hi=0)
            elif b == 'double':
                if f in RECTS:
                    e = dict(t='nt', p={'type4_shading_new': 'meshbox', 'type6_shading_new': 'meshbox'}.get(f, 'rectx'), lo=0, hi=0); k += 3
                else: e = dict(t='n', p=ov(f, nm, 'num'), lo=0, hi=0)
            elif bb == 'Annotation_Flags': e = dict(t='n', p='flags', lo=0, hi=0)
            elif b in ENUMS: e = dict(t='n', p='e:' + bb, lo=0, hi=0)
            else: e = dict(t='n', p=ov(f, nm, 'int'), lo=0, hi=0)
            if e: A.append(e)
            k += 1
        S[f] = dict(self=self_, args=A, out=out)
    return S
SIG = sig()

E0 = dict(f='', o='', h=[], n=[], i=[], s=[], z=[], d=[], hh=[], ia=[], out='')
def c(f, o='', **k):
    r = dict(E0); r.update(f=f, o=o, **k); return r

MAKE = {'dp': ['document_properties_new'], 'pp': ['page_properties_new'], 'dc': ['page_draw_context_new'] * 3 + ['form_xobject_new'],
        'dc:page': ['page_draw_context_new'], 'dc:form': ['form_xobject_new'], 'dc:tg': ['transparency_group_new'], 'dc:tiling': ['tiling_pattern_context_new'],
        'tgp': ['transparency_group_properties_new'], 'sm': ['soft_mask_new'], 'shp': ['shading_pattern_new'], 'ef': ['embedded_file_new'],
        'rib': ['raster_image_builder_new'], 'img': ['raster_image_builder_build'], 'ipp': ['image_pdf_properties_new'],
        'fn': ['type4_function_new', 'type2_function_new', 'type3_function_new'], 'sh': ['type2_shading_new', 'type3_shading_new', 'type4_shading_new', 'type6_shading_new'],
        'gs': ['graphics_state_new'], 'sx': ['struct_item_extra_data_new'], '3ds': ['3d_stream_new'], 'ocg': ['optional_content_group_new'],
        'annot': ['text_annotation_new', 'link_annotation_new', 'line_annotation_new', 'file_attachment_annotation_new', 'widget_annotation_new',
                  'printers_mark_annotation_new', '3d_annotation_new'],
        'ff': ['form_field_new'], 'coll': ['collection_new'], 'outl': ['outline_new'], 'trans': ['transition_new'], 'text': ['dc_text_new'],
        'tseq': ['text_sequence_new'], 'color': ['color_new'], 'dest': ['destination_new'], 'ht': ['halftone_new'], 'tags': ['bdc_tags_new'],
        'vp': ['viewport_new'], 'ms': ['measure_new'], 'nf': ['number_format_new'], 'schema': ['collection_schema_new'], 'cf': ['collection_field_new'],
        'fp': ['font_properties_new']}
import images as _i
WIDE = sorted('@I/' + n for n in _i.catalogue() if _i.wide(n))        # a known finding: only in a profile of their own
IMG = sorted('@I/' + n for n in _i.catalogue() if not n.endswith('.icc') and not _i.wide(n))
GOODIMG = [x for x in IMG if _i.catalogue()[x[3:]][2]]
POOLEXTRA = {'image': GOODIMG + IMG, 'imagemem': ['file:' + x for x in GOODIMG if 'big' not in x] * 2 + ['file:' + x for x in IMG if os.path.isfile(driver.path(x))] + ['fill:30:1', 'fill:9:1', 'fill:0:0'],
             'anyfile': ['@T/3d/toruses.u3d', '@T/icc/readme.md', '@T/images/simple.jpg', '@I/empty', '@I/one.png', '@T/nosuchfile', '@T', '@I/missing', '@I/plain.dat'], 'dom2': [0, 1000], 'chan': [4, 4, 3, 1], 'flag4': [1, 2, 1, 2, 0, 3], 'flag6': [1, 2, 3, 1, 2, 3, 0, 4], 'axis': ['wght'], 'coord': [700], 'inst': [0], 'sub': [0]}

def weighted(d):
    out = []
    for k, w in d.items(): out += [k] * w
    return out

START = [c('document_properties_new', out='p'), c('generator_new', s=['@W/a.pdf'], h=['p'], out='g')]
FONT = [c('generator_load_font', 'g', s=['@T/fonts/NotoSans-Regular.ttf'], h=['null'])]

FINISH = {'generator_add_page': 2}
STATEOPS = ['dc_cmd_q', 'dc_cmd_Q', 'dc_cmd_EMC', 'dc_cmd_BMC', 'dc_cmd_BDC_builtin', 'dc_cmd_BDC_ocg', 'dc_cmd_BDC_testing']
PLAINOPS = ['dc_cmd_b', 'dc_cmd_B', 'dc_cmd_bstar', 'dc_cmd_Bstar', 'dc_cmd_f', 'dc_cmd_fstar', 'dc_cmd_h', 'dc_cmd_n', 'dc_cmd_s', 'dc_cmd_S', 'dc_cmd_W', 'dc_cmd_Wstar']
NUMOPS = ['dc_cmd_c', 'dc_cmd_cm', 'dc_cmd_l', 'dc_cmd_m', 'dc_cmd_re', 'dc_cmd_v', 'dc_cmd_y', 'dc_cmd_M', 'dc_cmd_w', 'dc_cmd_i', 'dc_cmd_j', 'dc_cmd_J',
          'dc_cmd_ri', 'dc_cmd_d', 'dc_cmd_G', 'dc_cmd_g', 'dc_cmd_RG', 'dc_cmd_rg', 'dc_cmd_K', 'dc_cmd_k']
TEXTOPS = [x for x in SIG if x.startswith('text_cmd_')]
SEQOPS = [x for x in SIG if x.startswith('text_sequence_append')]
def one(l, w=1): return {x: w for x in l}

def prof(name, fns, topics, prelude=START, len=40, pools_=None, badid=6, badh=3, bias=75, mc=None, make_=None, **kw):
    P = pools(); P.update(POOLEXTRA); P.update(pools_ or {})
    return dict(name=name, **({'mc': mc} if mc else {}), **kw, fns=weighted(fns), topics=topics, prelude=prelude, len=len, pools=P, badid=badid, badh=badh, bias=bias, sig=SIG, make=dict(MAKE, **(make_ or {})))

ALWAYS = ['problem', 'file', 'pagetree']
ALL = ['ops', 'res', 'form', 'pat', 'sm', 'gs', 'fn', 'sh', 'cs', 'img', '3d', 'annot', 'annotlist', 'page', 'pagetree', 'struct', 'outline', 'ff', 'labels', 'cat', 'ocg', 'ef',
       'coll', 'oi', 'info', 'meta', 'trans', 'nav', 'vp', 'file', 'problem']
OBJ1 = [c('generator_add_structure_item', 'g', n=[k], i=['null'], h=['null']) for k in (0, 7, 9)] + \
       [c('optional_content_group_new', s=['Layer'], out='oc'), c('generator_add_optional_content_group', 'g', h=['oc'])]
def pre(p): return [x for x in SIG if x.startswith(p) and not x.endswith('_destroy') and x != 'image_pdf_properties_set_conversion_intent']
def mk(w=1, *names): return {n: w for n in names}
PAGE = {'page_draw_context_new': 2, 'generator_add_page': 4}
FORMS1 = {'form_xobject_new': 1, 'generator_add_form_xobject': 2}
GROUPS = {'form_xobject_new': 2, 'transparency_group_new': 2, 'tiling_pattern_context_new': 2, 'generator_add_form_xobject': 3,
          'generator_add_transparency_group': 3, 'generator_add_tiling_pattern': 3}
COLORS = {'color_new': 2, **one(pre('color_set_'), 2), 'generator_load_icc_profile': 2, 'generator_add_icc_profile': 2, 'generator_add_lab_colorspace': 2,
          'generator_add_separation': 2, 'type4_function_new': 1, 'generator_add_function': 2}
SETCOL = {'dc_set_stroke': 4, 'dc_set_nonstroke': 4}
FUNCTIONS = {'type2_function_new': 2, 'type3_function_new': 2, 'type4_function_new': 2, 'generator_add_function': 6, 'color_new': 1, 'color_set_rgb': 1, 'color_set_gray': 1, 'color_set_cmyk': 1}
SHADINGS = {**one(pre('type2_shading') + pre('type3_shading') + pre('type4_shading') + pre('type6_shading') + pre('shading_set'), 2), 'generator_add_shading': 6,
            'shading_pattern_new': 2, 'shading_pattern_set_matrix': 2, 'generator_add_shading_pattern': 3}
GSTATES = {**one(pre('graphics_state'), 2), 'generator_add_graphics_state': 6, **one(pre('halftone')), 'soft_mask_new': 2, 'generator_add_soft_mask': 2}
TGP = {**one(pre('transparency_group_properties')), 'dc_set_transparency_group_properties': 3}
IMAGES = {**one(pre('raster_image_builder'), 2), 'raster_image_builder_set_size': 4, 'raster_image_builder_set_pixel_data': 4, 'raster_image_builder_build': 5,
          **one(pre('image_pdf'), 2), 'generator_add_image': 8, **one(pre('raster_image_get') + pre('raster_image_has'))}
LOADS = {'img': ['generator_load_image'] * 3 + ['generator_load_image_from_memory']}
FILES = {'generator_load_image': 5, 'generator_load_image_from_memory': 2, 'generator_add_image': 12, **one(pre('raster_image_get') + pre('raster_image_has'), 2), 'image_pdf_properties_new': 1, **one(pre('image_pdf'), 1), 'generator_convert_image': 1}
FILES1 = {'generator_load_image': 2, 'generator_load_image_from_memory': 1, 'generator_convert_image': 1}
ANNOTS = {**one([x for x in SIG if x.endswith('_annotation_new')], 2), **one(pre('annotation_set'), 2), 'annotation_set_rectangle': 8, 'generator_add_annotation': 8, 'dc_annotate': 8}
STRUCT = {'generator_add_structure_item': 6, 'generator_add_custom_structure_item': 2, 'generator_add_rolemap_entry': 2, **one(pre('struct_item_extra'), 1), 'dc_cmd_BDC_builtin': 8, 'dc_cmd_EMC': 6}
OUTLINES = {**one(pre('outline'), 2), 'outline_set_title': 6, 'outline_set_parent': 4, 'generator_add_outline': 8, **one(pre('destination'), 2)}
FIELDS = {**one(pre('form_field'), 2), 'form_field_new': 4, 'generator_add_form_field': 6}
EMBED = {'embedded_file_new': 2, 'embedded_file_load_file': 2, 'embedded_file_set_contents': 3, 'embedded_file_set_subtype': 2, 'embedded_file_set_pdf_name': 3, 'generator_embed_file': 5}
COLL = {**one(pre('collection'), 2), 'collection_schema_add_entry': 4, 'generator_set_collection': 2}
THREED = {'3d_stream_new': 2, 'generator_add_3d_stream': 3}
OCGS = {'optional_content_group_new': 3, 'generator_add_optional_content_group': 4, 'dc_cmd_BDC_ocg': 4, 'dc_cmd_EMC': 4}
TRANS = {**one(pre('transition'), 2), 'dc_set_page_transition': 5, 'dc_add_simple_navigation': 4}
VIEWPORTS = {**one(pre('viewport') + pre('measure') + pre('number_format')), 'dc_append_viewport': 3}
PPROPS = {**one(pre('page_properties'), 3), 'dc_set_custom_page_properties': 4}
DPROPS = one(pre('document_properties'), 2)
LABELS = {'generator_add_page_labeling': 4}
TEXT = {**one(TEXTOPS, 1), 'text_cmd_Tf': 4, 'text_cmd_Tj': 5, 'text_cmd_TJ': 4, **one(SEQOPS, 2), 'dc_text_new': 2, 'dc_render_text_obj': 4, 'dc_render_text': 5}
USE = {'dc_cmd_gs': 3, 'dc_cmd_sh': 3, 'dc_cmd_Do_image': 3, 'dc_cmd_Do_trgroup': 3, **SETCOL}
def add(*ds):
    r = {}
    for d in ds:
        for k, v in d.items(): r[k] = max(v, r.get(k, 0))
    return r
def without(d, *ks): return {k: v for k, v in d.items() if k not in ks}
IMG1 = [c('raster_image_builder_new', out='rb'), c('raster_image_builder_set_size', 'rb', n=[2, 2]), c('raster_image_builder_set_pixel_data', 'rb', s=['fill:12:9']),
        c('raster_image_builder_build', 'rb', out='im'), c('image_pdf_properties_new', out='ip'), c('generator_add_image', 'g', h=['im', 'ip'])]
CMYK = [c('document_properties_new', out='p'), c('document_properties_set_device_profile', 'p', n=[0], s=['@T/icc/compatibleWithAdobeRGB1998.icc']),
        c('document_properties_set_output_intent', 'p', s=['sRGB'], z=[-1])]
TWO = START + [c('document_properties_new', out='p2'), c('generator_new', s=['@W/b.pdf'], h=['p2'], out='g2')]

def mc(calls, depth, view='abs', tail=(), part=(0, 1)): return dict(calls=calls, depth=depth, view=view, tail=list(tail), part=list(part))
DC = [c('page_draw_context_new', 'g', out='dc')]
# one object of every kind a content stream can name, and contexts of every kind
RICH = FONT + OBJ1 + IMG1 + [
   c('graphics_state_new', out='gs'), c('graphics_state_set_CA', 'gs', n=[500]), c('generator_add_graphics_state', 'g', h=['gs']),
   c('type4_function_new', d=[[0, 1000], [0, 1000, 0, 1000, 0, 1000]], s=['{dup dup}'], z=[-1], out='f4'), c('generator_add_function', 'g', h=['f4']),
   c('type2_shading_new', n=[0, 0, 0, 10000, 10000], i=['fn:1'], out='s2'), c('generator_add_shading', 'g', h=['s2']), c('shading_pattern_new', i=['sh:1'], out='sp'), c('generator_add_shading_pattern', 'g', h=['sp']),
   c('type3_shading_new', n=[0], d=[[0, 0, 1000, 10000, 10000, 5000]], i=['fn:1'], out='s3'), c('generator_add_shading', 'g', h=['s3']),
   c('generator_add_separation', 'g', s=['Foo'], z=[-1], n=[0], i=['fn:1']), c('generator_add_lab_colorspace', 'g', n=[950, 1000, 890, -100000, 100000, -100000, 100000]), c('generator_load_icc_profile', 'g', s=['@T/icc/FOGRA29L.icc']),
   c('color_new', out='cr'), c('color_set_rgb', 'cr', n=[1000, 500, 0]), c('color_new', out='cp'), c('color_set_pattern', 'cp', i=['pat:1']), c('color_new', out='cs'), c('color_set_separation', 'cs', n=[500], i=['sep:1']),
   c('color_new', out='cl'), c('color_set_lab', 'cl', n=[500, 0, 1000], i=['lab:1']), c('color_new', out='ci'), c('color_set_icc', 'ci', d=[[0, 1000, 500, 250]], i=['icc:1']),
   c('transparency_group_new', 'g', n=[0, 0, 10000, 10000], out='t1'), c('dc_cmd_f', 't1'), c('generator_add_transparency_group', 'g', h=['t1']),
   c('tiling_pattern_context_new', 'g', n=[0, 0, 10000, 10000], out='p1'), c('dc_cmd_f', 'p1'), c('generator_add_tiling_pattern', 'g', h=['p1']), c('color_new', out='ct'), c('color_set_pattern', 'ct', i=['pat:2']),
   c('text_annotation_new', s=['x'], z=[-1], out='an'), c('annotation_set_rectangle', 'an', n=[0, 0, 1000, 1000]), c('generator_add_annotation', 'g', h=['an']),
   c('page_properties_new', out='pp'), c('page_properties_set_pagebox', 'pp', n=[1, 0, 0, 5000, 5000]), c('transition_new', out='tr'), c('transparency_group_properties_new', out='tp'), c('viewport_new', n=[0, 0, 10000, 10000], out='vp'),
   c('page_draw_context_new', 'g', out='dc'), c('form_xobject_new', 'g', n=[0, 0, 10000, 10000], out='fx'), c('transparency_group_new', 'g', n=[0, 0, 10000, 10000], out='tg'), c('tiling_pattern_context_new', 'g', n=[0, 0, 10000, 10000], out='tl')]
def BDC(o, si, tags='null'): return c('dc_cmd_BDC_builtin', o, i=[si], h=[tags])
LAYERS = sum(([c('optional_content_group_new', s=['L%d' % k], out='oc%d' % k), c('generator_add_optional_content_group', 'g', h=['oc%d' % k])] for k in (1, 2, 3, 4)), []) + DC + \
         sum(([c('dc_cmd_BDC_ocg', 'dc', i=['ocg:%d' % k]), c('dc_cmd_EMC', 'dc')] for k in (1, 3, 4)), [])
def Q(o): return [c('dc_cmd_q', o), c('dc_cmd_Q', o)]

def alphabet(fns, o='', objs=(), ids=(), variants=2, pools_=None, skip=()):
    """concrete calls of the functions, with the first few different arguments of each; objs, ids: what to name for a kind"""
    P = pools(); P.update(POOLEXTRA); P.update(pools_ or {}); objs, ids = dict(objs), dict(ids); out = []; seen = set()
    def pick(l, k): return list(dict.fromkeys(json.dumps(x) for x in l)) and (lambda u: u[k % len(u)])([json.loads(x) for x in dict.fromkeys(json.dumps(x) for x in l)])
    for f in fns:
        if f in skip: continue
        S = SIG[f]
        for v in range(variants):
            e = dict(E0, f=f, o=(o if S['self'] and o else objs.get(S['self'], [''])[0]), h=[], n=[], i=[], s=[], z=[], d=[], hh=[], ia=[]); ok = True; j = v
            for a in S['args']:
                t, p = a['t'], a['p']
                if t == 'n': e['n'].append(pick(P[p], j))
                elif t == 'nt': e['n'] += pick(P[p], j)
                elif t == 'on': e['n'].append(pick(P[p], j) if v % 2 == 0 else -99)
                elif t in ('s', 's0'):
                    x = pick(P[p], j); e['s'].append(x)
                    if t == 's': e['z'].append(-1)
                elif t == 'd': e['d'].append([pick(P[p], j + q) for q in range(a['lo'] if v % 2 == 0 else a['hi'])])
                elif t in ('i', 'in', 'ia'):
                    l = ids.get(p)
                    if not l: ok = False; break
                    if t == 'ia': e['ia'].append([pick(l, q) for q in range(a['lo'] if v % 2 == 0 else min(len(l), a['hi']))])
                    else: e['i'].append('null' if t == 'in' and v % 2 else pick(l, j))
                elif t in ('h', 'hn', 'hh'):
                    l = objs.get(p)
                    if t == 'hn' and (v % 2 or not l): e['h'].append('null')
                    elif not l: ok = False; break
                    elif t == 'hh': e['hh'].append([pick(l, q) for q in range(a['lo'])])
                    else: e['h'].append(pick(l, j))
                else: ok = False; break
                j += 1
            if not ok: continue
            if json.dumps(e) in seen: continue
            seen.add(json.dumps(e))
            if S['out']: e['out'] = 'x%d' % len(out)
            out.append(e)
    return out
def pairs(name, topics, prelude, calls, tail, depth=2, parts=4):
    """every sequence of two of the calls"""
    return [dict(name='%s-%d' % (name, k), topics=topics, prelude=prelude, mc=mc(calls, depth, 'full', tail, (k, parts))) for k in range(parts)]
ROBJ = {'color': ['cr', 'cp', 'cs', 'cl', 'ci', 'ct'], 'text': ['tx'], 'dc': ['dc'], 'tgp': ['tp'], 'trans': ['tr'], 'pp': ['pp'], 'vp': ['vp'], 'tseq': ['ts']}
RIDS = {'font': ['font:1'], 'gs': ['gs:1'], 'sh': ['sh:1', 'sh:2'], 'img': ['img:1'], 'tg': ['tg:1'], 'si': ['si:1', 'si:2'], 'ocg': ['ocg:1'], 'annot': ['annot:1'], 'fn': ['fn:1'], 'pat': ['pat:1', 'pat:2'], 'icc': ['icc:1'], 'lab': ['lab:1'], 'sep': ['sep:1']}
def only_mc(name, topics, prelude, calls, depth, view='abs', qdepth=None, **kw):
    return dict(name=name, topics=topics, prelude=prelude, mc=mc(calls, depth, view), **({'qdepth': qdepth} if qdepth else {}), **kw)

def glyph_pools(*names):
    """texts, code points and named glyphs that fit the fonts; one text for every glyph"""
    import fontinfo
    E = fontinfo.env(names)['fonts']; E = [E[fontinfo.tname(n)] for n in names]
    cps = sorted(set.union(*(set(e['cps']) for e in E))); both = sorted(set.intersection(*(set(e['cps']) for e in E)))
    w = lambda l: ''.join('~u%X;' % x for x in l)
    show = [w(both[k:k + 40]) for k in range(0, len(both), 40)] + [w(both[k::97]) for k in range(12)] + [w(cps[k::211]) for k in range(6)] + ['Hello', 'AVAWA', 'The quick brown fox', 'x', '~uE4;~uF6;~uC5;', '~u1EA;']
    used = [{} for e in E]
    for e, u in zip(E, used):
        for x, g in e['c2g'].items(): u.setdefault(g, []).append(int(x))
    raw = []; lig = []
    for k, g in enumerate(fontinfo.GIDS):
        t = {tuple(u.get(str(g), ())) for u in used}
        if t == {()}:
            if k % 2: lig.append((g, ('ffi', 'st~uE4;', '~u1F600;', 'x')[k % 4 if k % 8 else 0]))
            else: raw.append((g, 0xE000 + g if k % 3 else (97 + k % 20)))
        elif len(t) == 1 and len(next(iter(t))) == 1: raw.append((g, next(iter(t))[0]))
    if len(E) == 1:
        uniq = sorted(int(g) for g, x in used[0].items() if len(x) == 1)
        raw += [(g, used[0][str(g)][0]) for g in uniq[::max(1, len(uniq) // 30)]]
    n = max(e['n'] for e in E)
    bad = [0, n, n + 1, 65535, 65536 + 36]
    return {'show': show, 'cp': both + [0x10ffff, 0x2600], 'rawglyph': [dict(n=[g, x], s=[]) for g, x in raw] + [dict(n=[g, 65], s=[]) for g in bad[:3]],
            'ligature': [dict(n=[g], s=[x]) for g, x in lig] + [dict(n=[g], s=['fi']) for g in bad[1:4]], 'font': [fontinfo.tname(n) for n in names],
            'axis': ['wght', 'wdth', 'wght', 'opsz', 'YTLC', 'nope', 'wgh', ''], 'coord': [300, 700, 60, 9000, 144, 1000, 570], 'inst': [0, 1, 2, 65535, 65536], 'sub': [0, 0, 1, 65535, 65536, -1],
            'fontsize': [12000, 10000, 500, 24000, 99000, 7500]}
def loads(*names): return [c('generator_load_font', 'g', s=[n if n[0] == '@' else '@T/fonts/' + n], h=['null']) for n in names]
FP = {'font_properties_new': 2, 'font_properties_set_variation': 4, 'font_properties_set_named_instance': 1, 'font_properties_set_subfont': 1, 'generator_load_font': 8}
SHOW = {'text_cmd_Tf': 4, 'text_cmd_Tj': 6, 'text_cmd_TJ': 6, **one(SEQOPS, 3), 'text_sequence_append_raw_glyph': 5, 'text_sequence_append_ligature_glyph': 5,
        'dc_text_new': 2, 'dc_render_text_obj': 5, 'dc_render_text': 6, 'generator_text_width': 2}
GLYPHS = ['problem', 'file', 'ops', 'glyph', 'font']
def vary(k, inst, *coords):
    return [c('font_properties_new', out='fp%d' % k)] + ([c('font_properties_set_named_instance', 'fp%d' % k, n=[inst])] if inst is not None else []) + \
           [c('font_properties_set_variation', 'fp%d' % k, s=[a], z=[-1], n=[v]) for a, v in coords] + [c('generator_load_font', 'g', s=['@T/fonts/AmstelVar-Roman.ttf'], h=['fp%d' % k])]
NS, NB, NSERIF, SYM, P052, AMSTEL = 'NotoSans-Regular.ttf', 'NotoSans-Bold.ttf', 'NotoSerif-Regular.ttf', 'NotoSansSymbols2-Regular.ttf', 'P052-Roman.otf', 'AmstelVar-Roman.ttf'

def shown(font, *names):
    """opening calls that show every known character of the font"""
    x = [t for t in glyph_pools(*names)['show'][:20] if len(t) > 100]
    return [c('page_draw_context_new', 'g', out='dcm')] + [c('dc_render_text', 'dcm', i=[font], n=[10000, 1000, 2000], s=[t], z=[-1]) for t in x]

MADE_TT = ('@F/kern.ttf', '@F/mono.ttf', '@F/big.ttf', '@F/two.ttc', '@F/hash.ttf', '@F/noname.ttf'); MADE_CFF = tuple('@F/%s.otf' % x for x in 'full bare some std upem reals first cid3 cid0 cidmix cidbare cidupem'.split())
def subfont(k, n): return [c('font_properties_new', out='fp%d' % k), c('font_properties_set_subfont', 'fp%d' % k, n=[n]), c('generator_load_font', 'g', s=['@F/two.ttc'], h=['fp%d' % k])]
def every_font(*names):
    """opening calls that show every character of every font"""
    t = ''.join('~u%X;' % x for x in fontinfo_codes())
    return START + loads(*names) + [c('page_draw_context_new', 'g', out='dcm')] + [c('dc_render_text', 'dcm', i=['font:%d' % (k + 1)], n=[10000, 1000, 2000 + 9 * k], s=[t], z=[-1]) for k in range(len(names))]
def fontinfo_codes():
    import fonts
    return fonts.CODES

PROFILES = {
 'P12': lambda: [
   prof('many', add(SHOW, PAGE), GLYPHS, START + loads(NS, P052) + shown('font:1', NS) + shown('font:2', P052)[1:], len=20, num=8, bias=85, pools_=glyph_pools(NS, P052)),
   prof('latin', add(SHOW, PAGE, {'form_xobject_new': 1, 'generator_add_form_xobject': 2}), GLYPHS, START + loads(NS), len=50, num=30, bias=85, pools_=glyph_pools(NS)),
   prof('fonts', add(SHOW, PAGE, {'tiling_pattern_context_new': 1, 'generator_add_tiling_pattern': 2, 'generator_load_font': 2}), GLYPHS, START + loads(NS, NSERIF, P052), len=50, num=30, bias=85, badid=3,
        pools_=glyph_pools(NS, NSERIF, P052)),
   prof('docs', add(SHOW, PAGE, {'generator_load_font': 2}), GLYPHS, TWO + loads(NS, NB) + [c('generator_load_font', 'g2', s=['@T/fonts/' + NB], h=['null'])], len=50, num=24, bias=85,
        badh=6, pools_=glyph_pools(NS, NB)),
   prof('cff', add(SHOW, PAGE), GLYPHS, START + loads(P052), len=50, num=24, bias=85, pools_=glyph_pools(P052)),
   prof('made', add(SHOW, PAGE, {'generator_load_font': 2}), GLYPHS, START + loads(*MADE_TT), len=50, num=20, bias=85, pools_=glyph_pools(*MADE_TT)),
   prof('made-cff', add(SHOW, PAGE, {'generator_load_font': 2}), GLYPHS, START + loads(*MADE_CFF), len=60, num=30, bias=85, badid=1, pools_=glyph_pools(*MADE_CFF)),
   prof('collection', add(SHOW, PAGE, FP, {'font_properties_set_subfont': 4}), GLYPHS, START + loads('@F/two.ttc') + subfont(1, 1), len=40, num=20, bias=85, pools_=dict(glyph_pools('@F/two.ttc'), sub=[0, 1, 1, 2, 65535, 65536, -1])),
   prof('symbols', add(SHOW, PAGE), GLYPHS, START + loads(SYM), len=40, num=20, bias=80, pools_=dict(glyph_pools(SYM), font=['@T/fonts/' + SYM])),
   prof('variable', add(SHOW, PAGE, FP), GLYPHS, START + loads(AMSTEL) + vary(1, None, ('wght', 700)), len=50, num=24, bias=75, pools_=glyph_pools(AMSTEL)),
   prof('no-copies', {f: w for f, w in add(SHOW, PAGE).items() if not f.endswith('_glyph')}, GLYPHS, START + loads(NS, P052), len=40, num=20, bias=85, pools_=glyph_pools(NS, P052), scrape=1, opts=dict(env={'CAPY_SCRAPE_PROTECT': '1'}))],
 'P13': lambda: [
   prof('faces', add(SHOW, PAGE, FP), GLYPHS, START + loads(AMSTEL) + vary(1, None, ('wght', 300), ('wdth', 60)) + vary(2, 1, ('wght', 700)) + vary(3, None, ('opsz', 144), ('wght', 1000)) + vary(4, 0, ('wdth', 9000)),
        len=40, num=50, bias=85, pools_=glyph_pools(AMSTEL)),
   prof('mixed', add(SHOW, PAGE, FP), GLYPHS, START + loads(NS, NSERIF, NB, SYM, P052) + vary(1, None, ('wght', 700), ('YTLC', 570)), len=50, num=60, bias=85, badid=2,
        pools_=dict(glyph_pools(NS, NSERIF, NB, SYM, P052, AMSTEL), **{k: glyph_pools(NS, P052)[k] for k in ('show', 'cp')}, font=['@T/fonts/' + x for x in (NS, NSERIF, NB, SYM, P052, AMSTEL)])),
   prof('every-tt', add(SHOW, PAGE), GLYPHS, every_font(*MADE_TT, '@F/two.ttc') + subfont(1, 1) + [c('dc_render_text', 'dcm', i=['font:8'], n=[10000, 1000, 3000], s=['AB~uC4;~u3B1;~u2192;'], z=[-1])], len=12, num=6, bias=85, pools_=glyph_pools(*MADE_TT)),
   prof('every-cff', add(SHOW, PAGE), GLYPHS, every_font(*MADE_CFF), len=12, num=12, bias=85, badid=0, pools_=glyph_pools(*MADE_CFF)),
   prof('unused', add({'generator_load_font': 3}, FP, PAGE, {'dc_render_text': 3}), GLYPHS, START, len=12, num=25, bias=85, pools_=dict(glyph_pools(NS), font=['@T/fonts/' + x for x in (NS, NSERIF, NB, SYM, P052, AMSTEL)])),
   prof('composites', add(SHOW, PAGE), GLYPHS, START + loads(NS), len=20, num=60, bias=95, badid=0, pools_=dict(glyph_pools(NS), show=['~u%X;' % x for x in list(range(0xc0, 0x180)) + list(range(0x1e00, 0x1e40)) + [65, 97, 0x20ac]]))],
 'P14': lambda: [
   prof('edges', add(PAGE, GROUPS, USE, COLORS, FUNCTIONS, SHADINGS, GSTATES, IMAGES, FILES1, ANNOTS, STRUCT, OUTLINES, FIELDS, EMBED, COLL, THREED, OCGS, TRANS, VIEWPORTS, PPROPS, LABELS, TGP, TEXT, DPROPS, FP, one(STATEOPS, 2),
                  {**one(PLAINOPS), **one(NUMOPS), 'generator_load_font': 2, 'generator_new': 1, 'generator_text_width': 2}), ['problem', 'file'], START + FONT, len=120, num=40, bias=30, badid=20, badh=10, pools_=extremes()),
   prof('edges-text', add(TEXT, SHOW, PAGE, FP, STRUCT), ['problem', 'file'], START + FONT + OBJ1, len=60, num=30, bias=50, badid=10, badh=10, pools_=extremes()),
   prof('edges-build', add(FUNCTIONS, SHADINGS, GSTATES, COLORS, IMAGES, FILES, TRANS, PPROPS, TGP, VIEWPORTS, COLL, DPROPS), ['problem', 'file'], START, len=80, num=40, bias=50, badid=8, pools_=extremes()),
   prof('lives', add(PAGE, GROUPS, USE, COLORS, FUNCTIONS, SHADINGS, GSTATES, IMAGES, FILES1, ANNOTS, STRUCT, OUTLINES, FIELDS, EMBED, COLL, THREED, OCGS, TRANS, VIEWPORTS, PPROPS, LABELS, TGP, TEXT, FP, one(STATEOPS, 2), one([x for x in SIG if x.endswith('_destroy') and x != 'generator_destroy'])),
        ['problem', 'file'], TWO + FONT, len=150, num=40, bias=85, badid=3, badh=6)],
 'P23': lambda: [
   prof('two', add(PAGE, GROUPS, USE, COLORS, FUNCTIONS, SHADINGS, GSTATES, IMAGES, FILES1, ANNOTS, STRUCT, OUTLINES, FIELDS, EMBED, COLL, THREED, OCGS, TRANS, VIEWPORTS, PPROPS, LABELS, TEXT), ALWAYS,
        TWO + FONT + [c('generator_load_font', 'g2', s=['@T/fonts/NotoSans-Regular.ttf'], h=['null'])], len=110, num=40, bias=88, badid=3, iso=True),
   prof('standards', add(PAGE, GROUPS, USE, COLORS, FUNCTIONS, SHADINGS, GSTATES, IMAGES, FILES1, ANNOTS, STRUCT, OUTLINES, FIELDS, EMBED, THREED, OCGS, TRANS, PPROPS, LABELS, TEXT), ALWAYS,
        CMYK + [c('document_properties_set_pdfx', 'p', n=[2]), c('generator_new', s=['@W/a.pdf'], h=['p'], out='g'), c('document_properties_new', out='p2'),
                c('document_properties_set_device_profile', 'p2', n=[0], s=['@T/icc/compatibleWithAdobeRGB1998.icc']), c('document_properties_set_output_intent', 'p2', s=['sRGB'], z=[-1]),
                c('document_properties_set_pdfa', 'p2', n=[8]), c('generator_new', s=['@W/b.pdf'], h=['p2'], out='g2')] + FONT, len=90, num=30, bias=88, badid=3, iso=True),
   prof('fonts', add(SHOW, PAGE, FP, {'tiling_pattern_context_new': 1, 'generator_add_tiling_pattern': 2, 'text_cmd_Tf': 6, 'generator_load_font': 3}), ALWAYS, TWO + loads(NS, NSERIF, P052, AMSTEL) +
        [c('generator_load_font', 'g2', s=['@T/fonts/' + x], h=['null']) for x in (NSERIF, AMSTEL)] + vary(1, None, ('wght', 700)), len=60, num=40, bias=85, badid=2, pools_=glyph_pools(NS, NSERIF, P052, AMSTEL), iso=True),
   only_mc('iso-mc', ALWAYS, TWO + [c('page_draw_context_new', 'g', out='dc'), c('page_draw_context_new', 'g2', out='dd'), c('graphics_state_new', out='gs'), c('color_new', out='co'), c('optional_content_group_new', s=['L'], out='oc')],
           [c('generator_add_graphics_state', 'g', h=['gs']), c('generator_add_graphics_state', 'g2', h=['gs']), c('graphics_state_set_FL', 'gs', n=[2000]), c('dc_cmd_gs', 'dc', i=['gs:1']), c('dc_cmd_gs', 'dd', i=['gs:1']),
            c('generator_add_optional_content_group', 'g2', h=['oc']), c('dc_cmd_BDC_ocg', 'dd', i=['ocg:1']), c('dc_cmd_EMC', 'dd'),
            c('generator_add_page', 'g', h=['dc']), c('generator_add_page', 'g2', h=['dd']), c('generator_add_page', 'g', h=['dd'])], 5, qdepth=3, iso=True)],
 'P01': lambda: [
   prof('nest', {**one(STATEOPS, 5), **one(['dc_cmd_w', 'dc_cmd_f'], 2), 'dc_render_text_obj': 5, 'dc_text_new': 2, **one(['text_cmd_BDC_builtin', 'text_cmd_EMC'], 5),
                 'text_cmd_Td': 2, 'text_cmd_Tf': 3, 'text_cmd_Tj': 2, 'dc_render_text': 3, 'text_cmd_TJ': 3, **one(SEQOPS, 2),
                 'generator_add_page': 4, 'generator_add_form_xobject': 2, 'generator_add_transparency_group': 1, 'generator_add_tiling_pattern': 1,
                 'form_xobject_new': 2, 'transparency_group_new': 1, 'tiling_pattern_context_new': 1, 'page_draw_context_new': 1,
                 'generator_add_structure_item': 3, 'generator_add_optional_content_group': 1}, ALWAYS + ['ops'], START + FONT + OBJ1, bias=55),
   only_mc('nest-mc', ALWAYS + ['ops'], START + OBJ1 + DC + [c('dc_text_new', 'dc', out='t'), c('text_cmd_BDC_builtin', 't', i=['si:3']), c('dc_text_new', 'dc', out='t2')],
           Q('dc') + [c('dc_cmd_BMC', 'dc', s=['Tag']), c('dc_cmd_EMC', 'dc'), BDC('dc', 'si:1'), c('dc_cmd_BDC_ocg', 'dc', i=['ocg:1']),
                      c('text_cmd_EMC', 't'), c('dc_render_text_obj', 'dc', h=['t']), c('dc_render_text_obj', 'dc', h=['t2']), c('generator_add_page', 'g', h=['dc'])], 5, qdepth=4),
   only_mc('group-mc', ALWAYS + ['ops'], START + OBJ1 + [c('form_xobject_new', 'g', n=[0, 0, 10000, 10000], out='dc'), c('tiling_pattern_context_new', 'g', n=[0, 0, 10000, 10000], out='dt')],
           Q('dc') + [c('dc_cmd_BMC', 'dc', s=['Tag']), c('dc_cmd_EMC', 'dc')] + Q('dt') + [c('dc_cmd_BMC', 'dt', s=['Tag']), c('dc_cmd_EMC', 'dt'),
                      c('generator_add_form_xobject', 'g', h=['dc']), c('generator_add_tiling_pattern', 'g', h=['dt'])], 5, qdepth=4)],
 'P02': lambda: [
   prof('ops', {**one(PLAINOPS), **one(NUMOPS, 2), **one(TEXTOPS, 2), 'dc_text_new': 2, 'dc_render_text_obj': 6, 'dc_render_text': 2,
                **one(['dc_cmd_q', 'dc_cmd_Q', 'dc_cmd_BMC', 'dc_cmd_EMC', 'dc_cmd_BDC_testing', 'bdc_tags_new', 'bdc_tags_add_tag']), **one(SEQOPS), 'text_sequence_new': 1,
                'generator_add_page': 3, 'form_xobject_new': 1, 'generator_add_form_xobject': 1, 'page_draw_context_new': 1, **one(['color_new', 'color_set_rgb', 'color_set_cmyk', 'color_set_gray']), **one(SETCOL, 2)},
        ALWAYS + ['ops'], START + FONT, pools_={'num': pools()['numx']}, len=60)],
 'P03': lambda: [
   prof('res', add(USE, GROUPS, PAGE, mk(4, 'dc_cmd_gs', 'dc_cmd_sh', 'dc_cmd_Do_image', 'dc_cmd_Do_trgroup', 'text_cmd_gs', 'text_cmd_Tf', 'text_set_stroke', 'text_set_nonstroke', 'dc_render_text_obj', 'dc_render_text', 'dc_text_new'),
                   mk(2, 'generator_load_font', 'generator_add_graphics_state', 'generator_add_shading', 'generator_add_image', 'generator_add_shading_pattern', 'type2_shading_new', 'shading_pattern_new', 'graphics_state_set_CA'),
                   COLORS, without(OCGS), mk(1, 'raster_image_builder_new', 'raster_image_builder_set_size', 'raster_image_builder_set_pixel_data', 'raster_image_builder_build')),
        ALWAYS + ['res', 'ops', 'form', 'pat'], START + FONT + IMG1 + [c('generator_load_font', 'g', s=['@T/fonts/NotoSerif-Regular.ttf'], h=['null'])],
        pools_={'font': ['@T/fonts/NotoSans-Regular.ttf', '@T/fonts/NotoSerif-Regular.ttf', '@T/fonts/NotoSans-Bold.ttf'], 'rectx': pools()['rect']}, len=60),
   prof('res-all', add(one(PLAINOPS), one(NUMOPS), one(STATEOPS), {k: 4 for k in USE}, mk(6, 'dc_render_text', 'dc_text_new', 'dc_render_text_obj'), mk(4, 'dc_cmd_sh', 'text_cmd_Tf'), mk(8, *DCKIND)), ALWAYS + ['res', 'ops', 'form', 'pat'], START + RICH, len=60, num=30, bias=92, badid=2, badh=2),
   prof('res-text', add(one(TEXTOPS, 3), mk(8, 'text_cmd_Tf'), mk(12, 'dc_text_new', 'dc_render_text_obj'), mk(3, 'text_set_stroke', 'text_set_nonstroke'), mk(3, *DCKIND)), ALWAYS + ['res', 'ops', 'form', 'pat'], START + RICH, len=70, num=30, bias=92, badid=2, badh=2),
   *pairs('text-pairs', ALWAYS + ['res', 'ops'], START + RICH + [c('dc_text_new', 'dc', out='tx'), c('text_cmd_Tf', 'tx', i=['font:1'], n=[12000]), c('text_sequence_new', out='ts'), c('text_sequence_append_string', 'ts', s=['AVAWA'], z=[-1])],
          alphabet(TEXTOPS, 'tx', ROBJ, RIDS, 2, {'leading': [0], 'num': [0, 1000]}), [c('text_cmd_EMC', 'tx'), c('dc_render_text_obj', 'dc', h=['tx']), c('generator_add_page', 'g', h=['dc'])], parts=2),
   only_mc('res-mc', ALWAYS + ['res', 'ops'], START + IMG1 + [c('raster_image_builder_set_size', 'rb', n=[2, 2]), c('raster_image_builder_set_pixel_data', 'rb', s=['fill:12:8']),
            c('raster_image_builder_build', 'rb', out='im2'), c('generator_add_image', 'g', h=['im2', 'ip']), c('graphics_state_new', out='gs'), c('generator_add_graphics_state', 'g', h=['gs']),
            c('generator_add_graphics_state', 'g', h=['gs']), c('form_xobject_new', 'g', n=[0, 0, 10000, 10000], out='f'), c('page_draw_context_new', 'g', out='dc')],
           [c('dc_cmd_gs', 'dc', i=['gs:1']), c('dc_cmd_gs', 'dc', i=['gs:2']), c('dc_cmd_Do_image', 'dc', i=['img:1']), c('dc_cmd_Do_image', 'f', i=['img:2']), c('dc_cmd_gs', 'f', i=['gs:1']),
            c('dc_cmd_gs', 'f', i=['gs:3']), c('generator_add_page', 'g', h=['dc']), c('generator_add_form_xobject', 'g', h=['f'])], 5, qdepth=4)],
 'P04': lambda: [
   prof('mixed', add(PAGE, GROUPS, USE, COLORS, FUNCTIONS, SHADINGS, GSTATES, IMAGES, FILES1, ANNOTS, STRUCT, OUTLINES, FIELDS, EMBED, COLL, THREED, OCGS, TRANS, VIEWPORTS, PPROPS, LABELS, TEXT), ALWAYS,
        START + FONT, len=120, num=60, bias=90, badid=2),
   prof('readable', add(PAGE, GROUPS, USE, COLORS, FUNCTIONS, SHADINGS, GSTATES, IMAGES, FILES1, ANNOTS, STRUCT, OUTLINES, FIELDS, EMBED, COLL, THREED, OCGS, TRANS, VIEWPORTS, PPROPS, LABELS, TEXT), ALL,
        START + FONT, len=100, num=30, bias=90, badid=2, opts=dict(env={'CAPY_DEBUG_PDF': '1'})),
   prof('readable-x', add(PAGE, GROUPS, USE, GSTATES, FILES1, ANNOTS, STRUCT, OUTLINES, FIELDS, EMBED, THREED, OCGS, TEXT), ALL,
        CMYK + [c('document_properties_set_pdfx', 'p', n=[2]), c('generator_new', s=['@W/a.pdf'], h=['p'], out='g')] + FONT, len=80, num=20, bias=90, badid=2, opts=dict(env={'CAPY_DEBUG_PDF': '1'})),
   prof('mixed-x', add(PAGE, GROUPS, USE, COLORS, FUNCTIONS, SHADINGS, GSTATES, IMAGES, FILES1, ANNOTS, STRUCT, OUTLINES, FIELDS, EMBED, THREED, OCGS, TRANS, LABELS, TEXT), ALWAYS,
        CMYK + [c('document_properties_set_pdfx', 'p', n=[2]), c('generator_new', s=['@W/a.pdf'], h=['p'], out='g')] + FONT, len=100, num=60, bias=90, badid=2),
   prof('mixed-a', add(PAGE, GROUPS, USE, COLORS, FUNCTIONS, SHADINGS, GSTATES, IMAGES, FILES1, ANNOTS, STRUCT, OUTLINES, FIELDS, EMBED, THREED, OCGS, TRANS, LABELS, TEXT), ALWAYS,
        CMYK + [c('document_properties_set_pdfa', 'p', n=[8]), c('generator_new', s=['@W/a.pdf'], h=['p'], out='g')] + FONT, len=100, num=40, bias=90, badid=2)] + [
   prof('big-' + nm, add(PAGE, GSTATES, OUTLINES, LABELS, ANNOTS), ALWAYS, pre_ + DC + [c('graphics_state_new', out='gs'), c('optional_content_group_new', s=['L'], out='oc')] +
        [c('dc_cmd_w', 'dc', n=[1000]), c('generator_add_page', 'g', h=['dc']), c('generator_add_graphics_state', 'g', h=['gs'])] * 140 + [c('generator_add_page', 'g', h=['dc'])], len=25, num=3, bias=95, badid=2)
     for nm, pre_ in (('new', START), ('old', CMYK + [c('document_properties_set_pdfx', 'p', n=[2]), c('generator_new', s=['@W/a.pdf'], h=['p'], out='g')]))],
 'P05': lambda: [
   prof('refused', add(PAGE, GROUPS, USE, COLORS, FUNCTIONS, SHADINGS, GSTATES, IMAGES, FILES1, ANNOTS, STRUCT, OUTLINES, FIELDS, EMBED, COLL, THREED, OCGS, TRANS, VIEWPORTS, PPROPS, LABELS, TEXT, one(STATEOPS, 2)),
        ALL, START + FONT, len=100, num=60, bias=35, badid=25, badh=15, opts=dict(extra='drop')),
   prof('refused-text', add(TEXT, PAGE, STRUCT, mk(3, 'text_cmd_gs', 'text_cmd_BDC_builtin', 'text_cmd_EMC')), ALL, START + FONT + OBJ1, len=60, num=60, bias=30, badid=20, badh=15,
        pools_={'show': ['Hello', 'A~u1F600;B', 'world', '~u2600;', 'x'] + list('cfgkmpquvyz'), 'cp': [0x1F600, 0x2600, 0x1F601] + list(range(0x100, 0x118))}, opts=dict(extra='drop')),
   # texts that fail late: all glyphs before the one that is missing must not have come into use
   prof('refused-glyphs', mk(3, 'text_sequence_append_codepoint', 'text_sequence_append_string', 'text_sequence_append_raw_glyph', 'text_sequence_append_ligature_glyph', 'text_cmd_TJ', 'text_cmd_Tj', 'dc_text_new', 'dc_render_text_obj', 'dc_render_text', 'text_cmd_w', 'text_cmd_gs'), ALL,
        START + FONT + DC + [c('dc_text_new', 'dc', out='t'), c('text_cmd_Tf', 't', i=['font:1'], n=[12000])], len=40, num=60, bias=0, badid=4, badh=0,
        make_={'text': ['dc_text_new']}, pools_={'show': list('abcdefghijklmnopqrstuvwxyz') + ['Q~u1F600;'], 'cp': [0x1F600] + list(range(0x100, 0x140))}, opts=dict(extra='drop')),
   prof('refused-nav', add(TRANS, OCGS, PAGE, mk(6, 'dc_add_simple_navigation', 'dc_cmd_BDC_ocg', 'dc_cmd_EMC')), ALL, START + LAYERS, len=40, num=50, bias=45, badid=12, opts=dict(extra='drop'))],
 'P06': lambda: [
   prof('snap', add(PAGE, GROUPS, USE, COLORS, without(FUNCTIONS), SHADINGS, GSTATES, STRUCT, PPROPS, TRANS, VIEWPORTS, TGP, OUTLINES, mk(3, 'dc_cmd_w', 'dc_cmd_re', 'dc_set_group_matrix', 'dc_annotate', 'generator_add_annotation', 'text_annotation_new', 'annotation_set_rectangle', 'annotation_set_flags')),
        ALL, TWO, len=90, num=70, badh=12),
   # contexts of every kind drawn on with every kind of resource, put to use, drawn on and put to use again
   prof('reuse', add(one(STATEOPS), {**USE, 'dc_cmd_sh': 4}, mk(3, 'dc_render_text', 'dc_text_new', 'dc_render_text_obj', 'text_cmd_Tf', 'dc_annotate', 'dc_append_viewport', 'dc_set_page_transition', 'dc_set_custom_page_properties', 'dc_set_transparency_group_properties', 'dc_set_group_matrix', 'dc_add_simple_navigation', 'dc_cmd_w', 'text_cmd_gs', 'text_set_stroke', 'text_set_nonstroke'),
                    mk(8, 'generator_add_page', 'generator_add_form_xobject', 'generator_add_transparency_group', 'generator_add_tiling_pattern')), ALL, START + RICH, len=60, num=40, bias=92, badid=2, badh=2),
   # a context of any kind given to any adding function of any document
   only_mc('commit-mc', ALL, TWO + sum(([c('page_draw_context_new', g, out='d' + g), c('form_xobject_new', g, n=[0, 0, 10000, 10000], out='f' + g), c('transparency_group_new', g, n=[0, 0, 10000, 10000], out='t' + g),
              c('tiling_pattern_context_new', g, n=[0, 0, 10000, 10000], out='p' + g)] + [c('dc_cmd_w', k + g, n=[w]) for k, w in (('d', 1000), ('f', 2000), ('t', 3000), ('p', 4000))] for g in ('g', 'g2')), []),
           [c(a, g, h=[k + h]) for g in ('g', 'g2') for h in ('g', 'g2') for k in 'dftp' for a in ('generator_add_page', 'generator_add_form_xobject', 'generator_add_transparency_group', 'generator_add_tiling_pattern')], 3, qdepth=2),
   only_mc('reuse-mc', ALL, START + OBJ1 + DC + [c('form_xobject_new', 'g', n=[0, 0, 10000, 10000], out='f'), c('transparency_group_new', 'g', n=[0, 0, 10000, 10000], out='tg'),
            c('page_properties_new', out='pp'), c('page_properties_set_pagebox', 'pp', n=[1, 0, 0, 5000, 5000]), c('transition_new', out='tr'), c('transparency_group_properties_new', out='tp'),
            c('text_annotation_new', s=['x'], z=[-1], out='an'), c('annotation_set_rectangle', 'an', n=[0, 0, 1000, 1000]), c('generator_add_annotation', 'g', h=['an'])],
           [c('dc_cmd_f', 'dc'), BDC('dc', 'si:1'), c('dc_cmd_EMC', 'dc'), c('dc_set_custom_page_properties', 'dc', h=['pp']), c('dc_set_page_transition', 'dc', h=['tr']),
            c('dc_annotate', 'dc', i=['annot:1']), c('dc_set_transparency_group_properties', 'dc', h=['tp']), c('dc_set_transparency_group_properties', 'tg', h=['tp']), c('dc_set_group_matrix', 'tg', n=[1000, 0, 0, 1000, 5000, 0]),
            c('dc_set_group_matrix', 'f', n=[1000, 0, 0, 1000, 5000, 0]), c('generator_add_page', 'g', h=['dc']), c('generator_add_form_xobject', 'g', h=['f']), c('generator_add_transparency_group', 'g', h=['tg'])], 4, qdepth=3)],
 'P07': lambda: [
   prof('annots', add(ANNOTS, PAGE, EMBED, THREED, FIELDS, one(pre('destination'), 2), mk(1, 'form_xobject_new', 'generator_add_form_xobject')), ALWAYS + ['annot', 'annotlist'], START, len=90, num=90),
   only_mc('annots-mc', ALWAYS + ['annot', 'annotlist'], START + DC + [c('page_draw_context_new', 'g', out='d2')] + sum(([c('text_annotation_new', s=['n%d' % k], z=[-1], out='a%d' % k), c('annotation_set_rectangle', 'a%d' % k, n=[0, 0, 1000, k * 1000])] for k in (1, 2, 3)), []),
           [c('generator_add_annotation', 'g', h=['a%d' % k]) for k in (1, 2)] + [c('dc_annotate', d, i=['annot:%d' % k]) for d in ('dc', 'd2') for k in (1, 2)] +
           [c('generator_add_page', 'g', h=['dc']), c('generator_add_page', 'g', h=['d2'])], 6, qdepth=5)],
 'P08': lambda: [
   prof('struct', add(STRUCT, PAGE, mk(4, 'text_cmd_BDC_builtin', 'text_cmd_EMC', 'dc_text_new', 'dc_render_text_obj'), mk(1, 'dc_cmd_f', 'dc_cmd_BMC')), ALWAYS + ['struct', 'ops'], START + FONT, len=70, num=100),
   only_mc('struct-mc', ALWAYS + ['struct', 'ops'], START + DC + [c('page_draw_context_new', 'g', out='d2')],
           [c('generator_add_structure_item', 'g', n=[7], i=['null'], h=['null']), c('generator_add_structure_item', 'g', n=[9], i=['si:1'], h=['null']), c('generator_add_structure_item', 'g', n=[8], i=['si:2'], h=['null'])] +
           [BDC(d, 'si:%d' % k) for d in ('dc', 'd2') for k in (1, 2)] + [c('dc_cmd_EMC', 'dc'), c('dc_cmd_EMC', 'd2'), c('generator_add_page', 'g', h=['dc']), c('generator_add_page', 'g', h=['d2'])], 6, qdepth=5)],
 'P09': lambda: [
   prof('outline', add(OUTLINES, mk(1, 'generator_add_page')), ALWAYS + ['outline'], START, len=70, num=100),
   only_mc('outline-mc', ALWAYS + ['outline'], START + sum(([c('outline_new', out='o%d' % k), c('outline_set_title', 'o%d' % k, s=['T%d' % k], z=[-1])] + ([c('outline_set_parent', 'o%d' % k, i=['outl:%d' % k])] if k else []) for k in range(4)), []),
           [c('generator_add_outline', 'g', h=['o%d' % k]) for k in range(4)], 6, qdepth=5)],
 'P10': lambda: [
   prof('fields', add(FIELDS, mk(4, 'widget_annotation_new', 'annotation_set_rectangle', 'annotation_set_parent_field', 'annotation_set_widget_button_appearance', 'generator_add_annotation', 'dc_annotate'), PAGE, mk(1, 'form_xobject_new', 'generator_add_form_xobject')),
        ALWAYS + ['ff', 'annot', 'annotlist'], START + [c('form_xobject_new', 'g', n=[0, 0, 1000, 1000], out='fx'), c('generator_add_form_xobject', 'g', h=['fx'])], len=80, num=100),
   only_mc('fields-mc', ALWAYS + ['ff', 'annot'], START, [c('form_field_new', n=[1], out='f0'), c('form_field_new', n=[1], out='f1'), c('form_field_set_parent', 'f1', i=['ff:1']), c('form_field_new', n=[2], out='f2'),
            c('form_field_set_parent', 'f2', i=['ff:2'])] + [c('generator_add_form_field', 'g', h=['f%d' % k]) for k in range(3)] +
            [c('widget_annotation_new', out='w'), c('annotation_set_rectangle', 'w', n=[0, 0, 1000, 1000]), c('annotation_set_parent_field', 'w', i=['ff:1']), c('annotation_set_parent_field', 'w', i=['ff:2']), c('generator_add_annotation', 'g', h=['w'])], 7, qdepth=5)],
 'P15': lambda: [
   prof('pages', add(PAGE, PPROPS, TGP, VIEWPORTS, LABELS, mk(1, 'dc_cmd_f')), ALWAYS + ['page', 'vp', 'labels'], START, len=80, num=80),
   prof('pages-default', add(PAGE, PPROPS, TGP, LABELS), ALWAYS + ['page', 'vp', 'labels'],
        [c('document_properties_new', out='p'), c('page_properties_new', out='pq'), c('page_properties_set_pagebox', 'pq', n=[0, 0, 0, 200000, 100000]), c('page_properties_set_pagebox', 'pq', n=[3, 1000, 1000, 199000, 99000]),
         c('transparency_group_properties_new', out='tq'), c('transparency_group_properties_set_CS', 'tq', n=[2]), c('page_properties_set_transparency_group_properties', 'pq', h=['tq']),
         c('document_properties_set_default_page_properties', 'p', h=['pq']), c('page_properties_set_pagebox', 'pq', n=[0, 0, 0, 9000, 9000]), c('generator_new', s=['@W/a.pdf'], h=['p'], out='g')], len=50, num=60),
   only_mc('pages-mc', ALWAYS + ['page', 'labels', 'ops'], START + DC + [c('page_draw_context_new', 'g', out='d2'), c('page_properties_new', out='pp'), c('page_properties_set_pagebox', 'pp', n=[0, 0, 0, 50000, 50000])],
           [c('dc_cmd_f', 'dc'), c('dc_cmd_n', 'd2'), c('dc_set_custom_page_properties', 'd2', h=['pp']), c('generator_add_page', 'g', h=['dc']), c('generator_add_page', 'g', h=['d2'])] +
           [c('generator_add_page_labeling', 'g', n=[p, st, -99], s=['null'], z=[-1]) for p in (0, 1) for st in (0, 3)] + [c('page_properties_set_pagebox', 'pp', n=[1, 0, 0, 3000, 3000])], 5, qdepth=4)],
 'P16': lambda: [
   prof('trans', add(TRANS, PAGE, OCGS, mk(1, 'dc_cmd_f')), ALWAYS + ['trans', 'nav', 'ocg', 'ops', 'res'], START + OBJ1, len=70, num=100),
   prof('nav', add(TRANS, mk(8, 'dc_add_simple_navigation', 'dc_cmd_EMC', 'dc_cmd_BDC_ocg'), mk(1, 'generator_add_page', 'page_draw_context_new')), ALWAYS + ['trans', 'nav', 'ocg', 'ops', 'res'], START + LAYERS, len=25, num=60, badid=2),
   only_mc('nav-mc', ALWAYS + ['trans', 'nav', 'ocg', 'ops', 'res'], START + OBJ1 + [c('generator_add_optional_content_group', 'g', h=['oc'])] + DC + [c('transition_new', out='tr'), c('transition_set_S', 'tr', n=[3])],
           [c('dc_cmd_BDC_ocg', 'dc', i=['ocg:1']), c('dc_cmd_BDC_ocg', 'dc', i=['ocg:2']), c('dc_cmd_EMC', 'dc'), c('dc_add_simple_navigation', 'dc', ia=[['ocg:1']], h=['null']), c('dc_add_simple_navigation', 'dc', ia=[['ocg:2', 'ocg:1']], h=['tr']),
            c('dc_set_page_transition', 'dc', h=['tr']), c('generator_add_page', 'g', h=['dc']), c('generator_add_optional_content_group', 'g', h=['oc'])], 6, qdepth=5)],
 'P17': lambda: [
   prof('images', add(IMAGES, mk(2, 'dc_cmd_Do_image', 'generator_add_page')), ALWAYS + ['img'], START, len=60, num=60),
   prof('image-files', add(FILES, mk(1, 'dc_cmd_Do_image', 'generator_add_page')), ALWAYS + ['img', 'cs'], START, len=60, num=60, bias=92, make_=LOADS),
   prof('conversions', add(FILES, {'generator_convert_image': 8, 'raster_image_builder_set_size': 4, 'raster_image_builder_set_pixel_data': 4, 'raster_image_builder_set_alpha_data': 1, 'raster_image_builder_set_alpha_depth': 1,
                                   'raster_image_builder_set_colorspace': 4, 'raster_image_builder_set_pixel_depth': 1, 'raster_image_builder_set_input_data_compression_format': 1, 'raster_image_builder_build': 4, 'raster_image_builder_new': 2}), ALWAYS + ['img', 'cs'],
        [c('document_properties_new', out='p'), c('document_properties_set_device_profile', 'p', n=[2], s=['@T/icc/FOGRA29L.icc']), c('generator_new', s=['@W/a.pdf'], h=['p'], out='g'), c('document_properties_new', out='p2'),
         c('document_properties_set_device_profile', 'p2', n=[0], s=['@T/icc/compatibleWithAdobeRGB1998.icc']), c('document_properties_set_device_profile', 'p2', n=[1], s=['@I/gray.icc']), c('generator_new', s=['@W/b.pdf'], h=['p2'], out='g2')],
        len=70, num=50, bias=88, make_={'img': LOADS['img'] + ['raster_image_builder_build'] * 3, 'rib': ['raster_image_builder_new']},
        pools_={'imgblob': ['fill:4:1', 'fill:12:2', 'fill:16:3', 'fill:24:4', 'fill:32:5', 'fill:47:6', 'fill:48:7', 'zfill:48:8', 'fill:3:9', 'fill:0:0'], 'dim': [1, 2, 3, 4, 4, 0, 65536, 2147483647, -1], 'depth': [8, 8, 8, 8, 1, 16]}),
   prof('two-colour-rows', add(FILES), ALWAYS + ['img', 'cs'], START + [c('generator_load_image', 'g', s=['@I/mono20.png'], out='im'), c('image_pdf_properties_new', out='ip'), c('generator_add_image', 'g', h=['im', 'ip'])], len=12, num=8,
        pools_={'image': WIDE, 'imagemem': ['file:' + x for x in WIDE]}),
   prof('image-x', add(FILES), ALWAYS + ['img', 'cs'], CMYK + [c('document_properties_set_pdfx', 'p', n=[5]), c('generator_new', s=['@W/a.pdf'], h=['p'], out='g')], len=40, num=16, bias=70, make_=LOADS)],
 'P18': lambda: [
   prof('colors', add(COLORS, SETCOL, PAGE, GROUPS, mk(2, 'text_set_stroke', 'text_set_nonstroke', 'dc_text_new', 'dc_render_text_obj')), ALWAYS + ['ops', 'res', 'cs'], START, len=80, num=100, pools_={'rectx': pools()['rect']})],
 'P19': lambda: [
   prof('funcs', add(FUNCTIONS, SHADINGS), ALWAYS + ['fn', 'sh', 'pat'], START, len=80, num=80, pools_={'comp': [0, 1000, 500]}),
   prof('gstates', add(GSTATES, GROUPS, TGP, mk(2, 'dc_set_group_matrix', 'dc_cmd_f', 'dc_cmd_gs')), ALWAYS + ['gs', 'sm', 'form', 'pat'], START, len=80, num=80)],
 'P20': lambda: [
   prof('strings', add(mk(3, 'outline_set_title', 'text_annotation_new', 'struct_item_extra_data_set_t', 'struct_item_extra_data_set_alt', 'struct_item_extra_data_set_actual_text', 'struct_item_extra_data_set_lang', 'bdc_tags_add_tag', 'dc_cmd_BDC_builtin', 'dc_cmd_BDC_testing', 'dc_cmd_BMC', 'dc_cmd_EMC',
                          'form_field_set_T', 'form_field_set_V', 'form_field_add_Opt_entry', 'embedded_file_set_pdf_name', 'embedded_file_set_subtype', 'annotation_set_uri', 'number_format_new', 'collection_field_new', 'collection_schema_add_entry', 'generator_add_separation', 'generator_add_rolemap_entry', 'generator_add_page_labeling', 'optional_content_group_new', 'type4_function_new'),
                       mk(2, 'generator_add_outline', 'generator_add_annotation', 'annotation_set_rectangle', 'generator_add_structure_item', 'generator_add_form_field', 'generator_embed_file', 'generator_set_collection', 'collection_set_schema', 'generator_add_optional_content_group', 'generator_add_function', 'generator_add_custom_structure_item',
                          'measure_append_X', 'viewport_set_measure', 'dc_append_viewport', 'link_annotation_new', 'generator_add_page', 'annotation_set_widget_button_appearance', 'annotation_set_parent_field', 'widget_annotation_new')),
        ALL, START, len=90, num=100, pools_={'str': pools()['str'] * 2 + pools()['strx'], 'ascii': pools()['ascii'] + pools()['strx'][:6] + ['~x80;', '(', '~x5C;', '))(('], 'z': [-1, -1, -2, 3, 1, 0, -3]},
        bias=85)],
 'P21': lambda: [
   prof('props', add(DPROPS, mk(3, 'generator_new', 'page_draw_context_new', 'generator_add_page'), one(pre('page_properties'))), ALWAYS + ['info', 'meta', 'oi', 'cat', 'file', 'page'], [], len=30, num=250,
        pools_={'outfile': ['@W/a.pdf', '@W/b.pdf', '@W/c.pdf', '@W/d.pdf', '@W/e.pdf', '@W/f.pdf']})] + [
   prof('date%d' % t, add(DPROPS, mk(3, 'generator_new', 'page_draw_context_new', 'generator_add_page'), FORMS1), ALWAYS + ['info', 'meta', 'oi', 'cat', 'form'], START, len=10, num=4, bias=90, opts=dict(env={'SOURCE_DATE_EPOCH': str(t), 'TZ': 'Asia/Kolkata'}))
     for t in (0, 951782400, 1009843199, 4102444799)],
 'P22': lambda: [
   prof('files', add(EMBED, COLL, THREED, mk(2, 'file_attachment_annotation_new', '3d_annotation_new', 'annotation_set_3d_stream', 'annotation_set_rectangle', 'generator_add_annotation')), ALWAYS + ['ef', 'coll', '3d', 'annot'], START, len=70, num=100)],
}

# every sequence of two setters (of a few values each) of everything that is built step by step, every value of every enumeration
def systematic(pid):
    O, I = ROBJ, RIDS; V = 60; ENUMF = lambda l: [f for f in l if any(a['p'].startswith('e:') for a in SIG[f]['args'])]
    if pid == 'P02':
        return pairs('op-pairs', ALWAYS + ['ops', 'res'], START + FONT + DC + [c('color_new', out='cr'), c('color_set_rgb', 'cr', n=[1000, 500, 0])],
                     alphabet(PLAINOPS + NUMOPS + STATEOPS + ['dc_set_stroke', 'dc_render_text'], 'dc', {'color': ['cr']}, {'font': ['font:1']}, 2), [], parts=3) + \
               [dict(p, qdepth=3) for p in pairs('seq-walks', ALWAYS + ['ops', 'res'], START + FONT + DC + [c('text_sequence_new', out='ts')],
                     [c('text_sequence_append_kerning', 'ts', n=[-250]), c('text_sequence_append_string', 'ts', s=['ab'], z=[-1]), c('text_sequence_append_codepoint', 'ts', n=[0x20AC]), c('text_sequence_append_ligature_glyph', 'ts', n=[1967], s=['fi'], z=[-1]),
                      c('text_sequence_append_actualtext_start', 'ts', s=['q~uE4;'], z=[-1]), c('text_sequence_append_actualtext_end', 'ts')],
                     [c('dc_text_new', 'dc', out='tx'), c('text_cmd_Tf', 'tx', i=['font:1'], n=[12000]), c('text_cmd_TJ', 'tx', h=['ts']), c('dc_render_text_obj', 'dc', h=['tx']), c('generator_add_page', 'g', h=['dc'])], depth=4, parts=2)]
    if pid == 'P07':
        pre_ = START + [c('form_xobject_new', 'g', n=[0, 0, 1000, 1000], out='fx'), c('generator_add_form_xobject', 'g', h=['fx']), c('form_xobject_new', 'g', n=[0, 0, 2000, 1000], out='fy'), c('generator_add_form_xobject', 'g', h=['fy']),
                        c('embedded_file_new', out='e'), c('embedded_file_set_contents', 'e', s=['fill:30:1']), c('embedded_file_set_pdf_name', 'e', s=['n'], z=[-1]), c('generator_embed_file', 'g', h=['e']), c('3d_stream_new', s=['@T/3d/toruses.u3d'], n=[0], out='td'),
                        c('generator_add_3d_stream', 'g', h=['td']), c('form_field_new', n=[1], out='f0'), c('form_field_set_T', 'f0', s=['T'], z=[-1]), c('generator_add_form_field', 'g', h=['f0']), c('destination_new', out='ds'), c('destination_set_page_fit', 'ds', n=[0])] + DC
        new = [dict(x, out='an') for x in alphabet([x for x in SIG if x.endswith('_annotation_new')], '', {}, {'ef': ['ef:1'], 'form': ['form:1']}, 1)]
        setters = lambda v, l: alphabet(l, 'an', {'dest': ['ds']}, {'form': ['form:1', 'form:2'], '3d': ['3d:1'], 'ff': ['ff:1']}, v, {'flags': [0, 1, 2, 4, 8, 16, 32, 64, 128, 256, 512, 1024]})
        tail = [c('annotation_set_rectangle', 'an', n=[0, 0, 1000, 1000]), c('generator_add_annotation', 'g', h=['an']), c('dc_annotate', 'dc', i=['annot:1']), c('generator_add_page', 'g', h=['dc'])]
        return pairs('annot-pairs', ALWAYS + ['annot', 'annotlist'], pre_, new + setters(2, [x for x in pre('annotation_set') if x != 'annotation_set_rectangle']), tail, 3, 3) + \
               pairs('annot-values', ALWAYS + ['annot', 'annotlist'], pre_, new + setters(V, ['annotation_set_flags', 'annotation_set_line_endings']), tail, 2, 2)
    if pid == 'P08':
        return pairs('types', ALWAYS + ['struct', 'ops'], START + DC + [c('struct_item_extra_data_new', out='sx'), c('struct_item_extra_data_set_alt', 'sx', s=['A'], z=[-1]), c('generator_add_structure_item', 'g', n=[0], i=['null'], h=['null'])],
                     alphabet(['generator_add_structure_item'], 'g', {'sx': ['sx']}, {'si': ['si:1']}, 2 * V), [BDC('dc', 'si:2'), c('dc_cmd_EMC', 'dc'), c('generator_add_page', 'g', h=['dc'])], 1, 1)
    if pid == 'P10':
        new = [c('form_field_new', n=[k], out='ff') for k in range(1, ENUMMAX['Form_Field_Type'] + 1)]
        return pairs('field-pairs', ALWAYS + ['ff', 'annot'], START + [c('form_field_new', n=[1], out='f0'), c('form_field_set_T', 'f0', s=['P'], z=[-1]), c('generator_add_form_field', 'g', h=['f0'])],
                     new + alphabet([x for x in pre('form_field') if x != 'form_field_new'], 'ff', {}, {'ff': ['ff:1']}, 3), [c('generator_add_form_field', 'g', h=['ff'])], 3, 1)
    if pid == 'P15':
        return pairs('label-values', ALWAYS + ['labels', 'page', 'vp'], START + DC + [c('generator_add_page', 'g', h=['dc']), c('page_properties_new', out='pp')],
                     alphabet(['generator_add_page_labeling'], 'g', {}, {}, 24) + alphabet(pre('page_properties_set'), 'pp', {}, {}, 12), [c('dc_cmd_f', 'dc'), c('dc_set_custom_page_properties', 'dc', h=['pp']), c('generator_add_page', 'g', h=['dc'])], 2, 2)
    if pid == 'P16':
        return pairs('trans-pairs', ALWAYS + ['trans', 'nav'], START + DC + [c('transition_new', out='tr')], alphabet(pre('transition_set'), 'tr', {}, {}, 13), [c('dc_set_page_transition', 'dc', h=['tr']), c('dc_cmd_f', 'dc'), c('generator_add_page', 'g', h=['dc'])], 2, 2)
    if pid == 'P17':
        return pairs('build-pairs', ALWAYS + ['img', 'cs'], START + DC + [c('raster_image_builder_new', out='rb'), c('raster_image_builder_set_size', 'rb', n=[2, 2]), c('raster_image_builder_set_pixel_data', 'rb', s=['fill:12:9']), c('image_pdf_properties_new', out='ip')],
                     alphabet([x for x in pre('raster_image_builder_set')], 'rb', {}, {}, 4, {'dim': [3, 2, 0, 1], 'depth': [1, 8, 16, 2]}) + alphabet(pre('image_pdf_properties_set'), 'ip', {}, {}, 3),
                     [c('raster_image_builder_build', 'rb', out='im'), c('generator_add_image', 'g', h=['im', 'ip']), c('dc_cmd_Do_image', 'dc', i=['img:1']), c('generator_add_page', 'g', h=['dc'])], 2, 2)
    if pid == 'P19':
        pre_ = START + DC + [c('graphics_state_new', out='gs'), c('transparency_group_new', 'g', n=[0, 0, 10000, 10000], out='t1'), c('dc_cmd_f', 't1'), c('generator_add_transparency_group', 'g', h=['t1']), c('soft_mask_new', n=[0], i=['tg:1'], out='sm'), c('generator_add_soft_mask', 'g', h=['sm']),
                             c('halftone_new', out='ht'), c('halftone_set_default', 'ht')]
        tail = [c('generator_add_graphics_state', 'g', h=['gs']), c('dc_cmd_gs', 'dc', i=['gs:1']), c('generator_add_page', 'g', h=['dc'])]
        return pairs('gs-pairs', ALWAYS + ['gs', 'sm', 'res'], pre_, alphabet(pre('graphics_state_set'), 'gs', {'ht': ['ht']}, {'sm': ['sm:1']}, 4), tail, 2, 2) + \
               pairs('gs-values', ALWAYS + ['gs', 'sm'], pre_, alphabet(ENUMF(pre('graphics_state_set')), 'gs', {}, {}, V) + [dict(x, o='ht') for x in alphabet(['halftone_set_type1'], 'ht', {}, {}, V)] + [c('graphics_state_set_HT', 'gs', h=['ht'])], tail, 2, 2)
    if pid == 'P21':
        pre_ = [c('document_properties_new', out='p'), c('page_properties_new', out='pp'), c('page_properties_set_pagebox', 'pp', n=[0, 0, 0, 5000, 5000])]
        tail = [c('generator_new', s=['@W/a.pdf'], h=['p'], out='g')]
        return pairs('prop-pairs', ALWAYS + ['info', 'meta', 'oi', 'cat', 'file', 'page'], pre_, alphabet(pre('document_properties_set'), 'p', {'pp': ['pp']}, {}, 4), tail, 2, 2) + \
               pairs('prop-values', ALWAYS + ['info', 'meta', 'oi', 'cat', 'file', 'page'], pre_ + CMYK[1:], alphabet(ENUMF(pre('document_properties_set')), 'p', {'pp': ['pp']}, {}, 14), tail, 1, 1)
    if pid == 'P22':
        pre_ = START + [c('embedded_file_new', out='e'), c('embedded_file_set_pdf_name', 'e', s=['a'], z=[-1]), c('embedded_file_set_contents', 'e', s=['fill:30:1']), c('collection_new', out='co'), c('collection_schema_new', out='sc'), c('collection_field_new', n=[0], s=['F'], z=[-1], out='cf'), c('collection_schema_add_entry', 'sc', s=['K'], z=[-1], h=['cf'])]
        return pairs('file-pairs', ALWAYS + ['ef', 'coll'], pre_, alphabet(['embedded_file_set_contents', 'embedded_file_set_subtype', 'embedded_file_set_pdf_name', 'embedded_file_load_file'], 'e', {}, {}, 3) + alphabet(['collection_set_D', 'collection_set_schema', 'collection_set_view'], 'co', {'schema': ['sc']}, {}, 4)
                     + alphabet(pre('collection_field_set'), 'cf', {}, {}, 2) + [c('collection_schema_add_entry', 'sc', s=['L'], z=[-1], h=['cf'])], [c('generator_embed_file', 'g', h=['e']), c('generator_set_collection', 'g', h=['co'])], 2, 1)
    return []

# histories with many of one thing: long lists, deep nesting, long strings, followed by a short random tail
def each(n, f): return sum((f(k) for k in range(1, n + 1)), [])
def wide(pid):
    def w(name, fns, topics, prelude, **k): return prof('wide' + name, fns, topics, prelude, **dict(dict(len=16, num=4, bias=92, badid=2, jvms=1), **k))
    def item(k, parent, st=7, sx='null'): return c('generator_add_structure_item', 'g', n=[st], i=[parent], h=[sx])
    def page(o='dc'): return c('generator_add_page', 'g', h=[o])
    def box(a): return c('annotation_set_rectangle', a, n=[0, 0, 1000, 2000])
    if pid == 'P01':
        deep = START + OBJ1 + DC + each(70, lambda k: [c('dc_cmd_q', 'dc')]) + each(70, lambda k: [c('dc_cmd_BMC', 'dc', s=['T%d' % k])])
        mixed = START + OBJ1 + DC + each(40, lambda k: [c('dc_cmd_q', 'dc'), c('dc_cmd_BMC', 'dc', s=['T%d' % k]), c('dc_cmd_BDC_ocg', 'dc', i=['ocg:1']), c('dc_cmd_w', 'dc', n=[k * 1000])])
        fns = {**one(STATEOPS, 5), 'dc_cmd_Q': 60, 'dc_cmd_EMC': 60, 'dc_cmd_w': 2, 'generator_add_page': 1}
        return [w('', fns, ALWAYS + ['ops'], deep, len=150, num=3, badid=0), w('-mixed', fns, ALWAYS + ['ops'], mixed, len=150, num=3, badid=0),
                w('-closed', fns, ALWAYS + ['ops'], deep + [c('dc_cmd_EMC', 'dc')] * 70 + [c('dc_cmd_Q', 'dc')] * 69 + [c('dc_cmd_w', 'dc', n=[2000])], num=3),
                w('-flat', fns, ALWAYS + ['ops'], START + OBJ1 + DC + each(60, lambda k: [c('dc_cmd_q', 'dc'), c('dc_cmd_BMC', 'dc', s=['T']), c('dc_cmd_EMC', 'dc'), c('dc_cmd_Q', 'dc')]) + [page()], num=3)]
    if pid == 'P02':
        line = START + DC + each(120, lambda k: [c('dc_cmd_l', 'dc', n=[k * 1001, -k * 37]), c('dc_cmd_c', 'dc', n=[k, k * 10, k * 100, k * 1000, k * 10000, k * 12345])])
        dash = START + DC + each(20, lambda k: [c('dc_cmd_d', 'dc', d=[[1000 * j + k for j in range(1, k * 3)]], n=[k * 1000])])
        text = START + FONT + DC + [c('dc_text_new', 'dc', out='tx'), c('text_cmd_Tf', 'tx', i=['font:1'], n=[12000])] + each(60, lambda k: [c('text_cmd_Td', 'tx', n=[k * 1000, -k * 500]), c('text_cmd_Tc', 'tx', n=[k * 11]), c('text_cmd_Tj', 'tx', s=['abcdefghij'[:k % 9 + 1]], z=[-1])]) + [c('dc_render_text_obj', 'dc', h=['tx'])]
        seq = START + FONT + DC + [c('text_sequence_new', out='ts')] + each(60, lambda k: [c('text_sequence_append_kerning', 'ts', n=[k * 10 - 300]), c('text_sequence_append_string', 'ts', s=['x%d' % k], z=[-1])]) + \
              [c('dc_text_new', 'dc', out='tx'), c('text_cmd_Tf', 'tx', i=['font:1'], n=[12000]), c('text_cmd_TJ', 'tx', h=['ts']), c('dc_render_text_obj', 'dc', h=['tx'])]
        return [w('-' + n, {**one(PLAINOPS), **one(NUMOPS, 2), 'dc_render_text': 1, 'generator_add_page': 1}, ALWAYS + ['ops'], p) for n, p in (('path', line), ('dash', dash), ('text', text), ('seq', seq))]
    if pid == 'P03':
        def gs(k): return [c('graphics_state_new', out='gs%d' % k), c('graphics_state_set_CA', 'gs%d' % k, n=[k * 10]), c('generator_add_graphics_state', 'g', h=['gs%d' % k]), c('dc_cmd_gs', 'dc', i=['gs:%d' % k])]
        def im(k): return [c('raster_image_builder_new', out='rb%d' % k), c('raster_image_builder_set_size', 'rb%d' % k, n=[1, k]), c('raster_image_builder_set_pixel_data', 'rb%d' % k, s=['fill:%d:9' % (3 * k)]), c('raster_image_builder_build', 'rb%d' % k, out='im%d' % k), c('generator_add_image', 'g', h=['im%d' % k, 'ip']), c('dc_cmd_Do_image', 'dc', i=['img:%d' % (k + 1)])]
        def form(k): return [c('form_xobject_new', 'g', n=[0, 0, k * 1000, 1000], out='fx%d' % k), c('dc_cmd_Do_image', 'fx%d' % k, i=['img:1']), c('dc_cmd_gs', 'fx%d' % k, i=['gs:1']), c('generator_add_form_xobject', 'g', h=['fx%d' % k])]
        def layer(k): return [c('optional_content_group_new', s=['L%d' % k], out='oc%d' % k), c('generator_add_optional_content_group', 'g', h=['oc%d' % k]), c('dc_cmd_BDC_ocg', 'dc', i=['ocg:%d' % (k + 1)]), c('dc_cmd_EMC', 'dc')]
        def sep(k): return [c('generator_add_separation', 'g', s=['S%d' % k], z=[-1], n=[0], i=['fn:1']), c('color_new', out='c%d' % k), c('color_set_separation', 'c%d' % k, i=['sep:%d' % (k + 1)], n=[k * 20]), c('dc_set_nonstroke', 'dc', h=['c%d' % k])]
        def tail(f): return START + RICH + DC + each(24, f)
        return [w('-' + n, add(USE, PAGE, mk(2, 'dc_cmd_BDC_ocg', 'dc_cmd_EMC')), ALWAYS + ['res', 'ops', 'form'], p, num=3, badid=0) for n, p in (
            ('gs', tail(lambda k: [dict(x, i=['gs:%d' % (k + 1)]) if x['f'] == 'dc_cmd_gs' else dict(x, o=x['o'].replace('gs', 'gx'), out=x['out'].replace('gs', 'gx'), h=[y.replace('gs', 'gx') for y in x['h']]) for x in gs(k)])), ('img', tail(im)), ('form', tail(form)), ('ocg', tail(layer)), ('sep', tail(sep)))]
    if pid == 'P04':
        # more than sixteen megabytes, then more of everything
        large = [c('embedded_file_new', out='e'), c('embedded_file_set_contents', 'e', s=['rand:17000000:1']), c('embedded_file_set_pdf_name', 'e', s=['n'], z=[-1]), c('generator_embed_file', 'g', h=['e'])] + DC + each(5, lambda k: [c('dc_cmd_w', 'dc', n=[k * 1000]), page()])
        return [w('-large-' + n, add(PAGE, EMBED, OUTLINES), ALWAYS + ['ef', 'ops'], p + large, num=1) for n, p in (('new', START), ('old', CMYK + [c('document_properties_set_pdfx', 'p', n=[2]), c('generator_new', s=['@W/a.pdf'], h=['p'], out='g')]))]
    if pid == 'P07':
        def ann(k): return [c('text_annotation_new', s=['note %d' % k], z=[-1], out='a%d' % k), c('annotation_set_rectangle', 'a%d' % k, n=[0, 0, 1000 * k, 2000]), c('generator_add_annotation', 'g', h=['a%d' % k]), c('dc_annotate', 'dc', i=['annot:%d' % k])]
        return [w('', add(ANNOTS, PAGE), ALWAYS + ['annot', 'annotlist'], START + DC + each(40, ann) + [page()])] + \
               [w('-pages', add(ANNOTS, PAGE), ALWAYS + ['annot', 'annotlist'], START + DC + each(24, lambda k: ann(k) + ([page()] if k % 2 else [])) + [page()])]
    if pid == 'P08':
        flat = START + DC + [item(0, 'null', 0)] + each(40, lambda k: [item(k, 'si:1', 1 + k % 40)]) + each(40, lambda k: [BDC('dc', 'si:%d' % (k + 1)), c('dc_cmd_EMC', 'dc')]) + [page()]
        deep = START + DC + [item(0, 'null', 0)] + each(30, lambda k: [item(k, 'si:%d' % k)]) + each(30, lambda k: [BDC('dc', 'si:%d' % (31 - k)), c('dc_cmd_EMC', 'dc')]) + [page()]
        same = START + DC + [item(0, 'null', 0), item(1, 'si:1')] + each(40, lambda k: [BDC('dc', 'si:2'), c('dc_cmd_EMC', 'dc')]) + [page()] + each(12, lambda k: [BDC('dc', 'si:2'), c('dc_cmd_EMC', 'dc'), page()])
        extra = START + DC + [item(0, 'null', 0)] + each(24, lambda k: [c('struct_item_extra_data_new', out='x%d' % k), c('struct_item_extra_data_set_t', 'x%d' % k, s=['title %d' % k], z=[-1]), item(k, 'si:1', 7, 'x%d' % k)])
        roles = START + DC + each(24, lambda k: [c('generator_add_rolemap_entry', 'g', s=['R%d' % k], z=[-1], n=[k]), c('generator_add_custom_structure_item', 'g', i=['role:%d' % k, 'si:1' if k > 1 else 'null'], h=['null'])])
        return [w('-' + n, add(STRUCT, PAGE), ALWAYS + ['struct', 'ops'], p, num=3) for n, p in (('flat', flat), ('deep', deep), ('same', same), ('extra', extra), ('roles', roles))]
    if pid == 'P09':
        def o(k, parent=None): return [c('outline_new', out='o%d' % k), c('outline_set_title', 'o%d' % k, s=['item %d' % k], z=[-1])] + ([c('outline_set_parent', 'o%d' % k, i=['outl:%d' % parent])] if parent else []) + [c('generator_add_outline', 'g', h=['o%d' % k])]
        return [w('-' + n, add(OUTLINES, mk(1, 'generator_add_page')), ALWAYS + ['outline'], START + p, num=4) for n, p in (
            ('flat', each(40, o)), ('deep', each(30, lambda k: o(k, k - 1))), ('kids', o(1) + each(30, lambda k: o(k + 1, 1))), ('tree', each(40, lambda k: o(k, k // 2))), ('tree3', each(40, lambda k: o(k, (k + 1) // 3 if k > 3 else 0))))]
    if pid == 'P10':
        def f(k, parent=None): return [c('form_field_new', n=[1], out='f%d' % k), c('form_field_set_T', 'f%d' % k, s=['field %d' % k], z=[-1])] + ([c('form_field_set_parent', 'f%d' % k, i=['ff:%d' % parent])] if parent else []) + [c('generator_add_form_field', 'g', h=['f%d' % k])]
        def wd(k, par): return [c('widget_annotation_new', out='w%d' % k), box('w%d' % k), c('annotation_set_parent_field', 'w%d' % k, i=['ff:%d' % par]), c('generator_add_annotation', 'g', h=['w%d' % k]), c('dc_annotate', 'dc', i=['annot:%d' % k])]
        opts = [c('form_field_new', n=[2], out='fo')] + each(40, lambda k: [c('form_field_add_Opt_entry', 'fo', s=['option %d' % k], z=[-1])]) + [c('generator_add_form_field', 'g', h=['fo'])]
        return [w('-' + n, add(FIELDS, PAGE, mk(2, 'widget_annotation_new', 'annotation_set_rectangle', 'annotation_set_parent_field', 'generator_add_annotation', 'dc_annotate')), ALWAYS + ['ff', 'annot', 'annotlist'], START + DC + p, num=4) for n, p in (
            ('fields', each(30, f)), ('kids', f(1) + each(30, lambda k: f(k + 1, 1))), ('deep', each(25, lambda k: f(k, k - 1))), ('widgets', f(1) + each(30, lambda k: wd(k, 1)) + [page()]), ('both', f(1) + f(2) + each(24, lambda k: wd(k, k % 2 + 1)) + f(3, 1) + f(4, 2)), ('opts', opts))]
    if pid == 'P15':
        pages = START + DC + [c('page_properties_new', out='pp')] + each(45, lambda k: [c('page_properties_set_pagebox', 'pp', n=[0, 0, 0, k * 1000, 5000])] + ([c('dc_set_custom_page_properties', 'dc', h=['pp'])] if k % 3 else []) + [c('dc_cmd_w', 'dc', n=[k * 1000]), page()])
        labels = START + DC + each(30, lambda k: [page()]) + each(29, lambda k: [c('generator_add_page_labeling', 'g', n=[k - 1, k % 5, k * 3], s=['P%d-' % k], z=[-1])])
        vps = START + DC + each(12, lambda k: [c('viewport_new', n=[0, 0, k * 1000, 2000], out='v%d' % k), c('measure_new', out='m%d' % k)] + each(k, lambda j: [c('number_format_new', s=['u%d' % j], z=[-1], n=[j * 1000], out='n%d_%d' % (k, j)), c('measure_append_X', 'm%d' % k, h=['n%d_%d' % (k, j)])]) + [c('viewport_set_measure', 'v%d' % k, h=['m%d' % k]), c('dc_append_viewport', 'dc', h=['v%d' % k])]) + [page()]
        return [w('-' + n, add(PAGE, PPROPS, LABELS, VIEWPORTS), ALWAYS + ['page', 'vp', 'labels'], p) for n, p in (('pages', pages), ('labels', labels), ('viewports', vps))]
    if pid == 'P16':
        def l(k): return [c('optional_content_group_new', s=['L%d' % k], out='oc%d' % k), c('generator_add_optional_content_group', 'g', h=['oc%d' % k])]
        use = each(24, lambda k: [c('dc_cmd_BDC_ocg', 'dc', i=['ocg:%d' % k]), c('dc_cmd_EMC', 'dc')])
        tr = each(13, lambda k: [c('transition_new', out='t%d' % k), c('transition_set_S', 't%d' % k, n=[k % 12])])
        steps = tr + each(13, lambda k: [c('dc_add_simple_navigation', 'dc', ia=[['ocg:%d' % k]], h=['t%d' % k if k % 3 else 'null'])])
        long_ = [c('dc_add_simple_navigation', 'dc', ia=[['ocg:%d' % k for k in range(1, 25)]], h=['null'])]
        return [w('-' + n, add(TRANS, OCGS, PAGE), ALWAYS + ['trans', 'nav', 'ocg', 'ops', 'res'], START + each(24, l) + DC + use + p, num=3) for n, p in (('steps', steps + [page()]), ('long', long_ + [page()]), ('both', long_ + steps), ('groups', []))]
    if pid == 'P19':
        col = each(3, lambda k: [c('color_new', out='c%d' % k), c('color_set_rgb', 'c%d' % k, n=[k * 250, 0, 1000])])
        def fn(k): return [c('type2_function_new', d=[[0, 1000]], h=['c1', 'c2'], n=[k * 1000], out='f%d' % k), c('generator_add_function', 'g', h=['f%d' % k])]
        stitch = col + each(20, fn) + [c('type3_function_new', d=[[0, 1000], [50 * k for k in range(1, 20)], [0, 1000] * 20], ia=[['fn:%d' % k for k in range(1, 21)]], out='f3'), c('generator_add_function', 'g', h=['f3'])]
        tri = [2000, 2000, 8000, 3000, 5000, 9000]
        gour = col + [c('type4_shading_new', n=[0, 0, 0, 10000, 10000], out='s4'), c('type4_shading_add_triangle', 's4', d=[tri], hh=[['c1', 'c2', 'c3']])] + each(60, lambda k: [c('type4_shading_extend', 's4', n=[1 + k % 2], d=[[k * 150, 10000 - k * 100]], h=['c%d' % (k % 3 + 1)])]) + [c('generator_add_shading', 'g', h=['s4'])]
        gss = each(25, lambda k: [c('graphics_state_new', out='gs%d' % k), c('graphics_state_set_CA', 'gs%d' % k, n=[k * 40]), c('graphics_state_set_ca', 'gs%d' % k, n=[1000 - k * 40]), c('generator_add_graphics_state', 'g', h=['gs%d' % k])])
        return [w('-' + n, add(FUNCTIONS, SHADINGS, GSTATES), ALWAYS + ['fn', 'sh', 'pat', 'gs'], START + p) for n, p in (('stitch', stitch), ('mesh', gour), ('gs', gss))]
    if pid == 'P18':
        icc = pools()['icc']
        f4 = [c('type4_function_new', d=[[0, 1000], [0, 1000, 0, 1000, 0, 1000]], s=['{dup dup}'], z=[-1], out='f4'), c('generator_add_function', 'g', h=['f4'])]
        seps = f4 + DC + each(25, lambda k: [c('generator_add_separation', 'g', s=['Spot %d' % k], z=[-1], n=[0], i=['fn:1']), c('color_new', out='c%d' % k), c('color_set_separation', 'c%d' % k, i=['sep:%d' % k], n=[k * 40]), c('dc_set_nonstroke' if k % 2 else 'dc_set_stroke', 'dc', h=['c%d' % k])])
        iccs = DC + sum(([c('generator_load_icc_profile', 'g', s=[x])] for x in icc * 5), [])
        return [w('-' + n, add(COLORS, SETCOL, PAGE), ALWAYS + ['ops', 'res', 'cs'], START + p) for n, p in (('spots', seps), ('profiles', iccs))]
    if pid == 'P20':
        L = ['~r%d,x;' % n for n in (127, 128, 255, 256, 1023, 1024, 2500)] + ['~r%d,(;' % n for n in (100, 256)]
        mb = ['~r%d,a;~u4E2D;' % n for n in (126, 127, 254, 255)] + ['~u1F600;~r%d,b;~u1F600;' % n for n in (63, 127)]
        many = START + sum(([c('outline_new', out='o%d' % k), c('outline_set_title', 'o%d' % k, s=[x], z=[-1]), c('generator_add_outline', 'g', h=['o%d' % k])] for k, x in enumerate(L + mb)), [])
        names = START + sum(([c('optional_content_group_new', s=[x], out='oc%d' % k), c('generator_add_optional_content_group', 'g', h=['oc%d' % k])] for k, x in enumerate(L + mb)), [])
        tags = START + DC + [c('bdc_tags_new', out='tg')] + sum(([c('bdc_tags_add_tag', 'tg', s=['K%d' % k, 'v~r%d,y;' % (k * 7)], z=[-1, -1])] for k in range(1, 25)), []) + [c('dc_cmd_BDC_testing', 'dc', s=['N'], z=[-1], h=['tg']), c('dc_cmd_EMC', 'dc'), page()]
        fields = START + [c('form_field_new', n=[2], out='fo')] + sum(([c('form_field_add_Opt_entry', 'fo', s=[x], z=[-1])] for x in L + mb), []) + [c('generator_add_form_field', 'g', h=['fo'])]
        def u(l): return ''.join('~u%X;' % x for x in l)
        every = [u(range(k, k + 8)) for k in range(1, 0x100, 8)] + [u(range(k, k + 0x200, 0x40)) for k in range(0x100, 0x800, 0x200)] + [u([0x800, 0x1234, 0x2FFF, 0x3F80, 0x4080, 0x5FC1]), u([0x6A6A, 0x7B7B, 0x8C8C, 0x9D9D, 0xAEAE, 0xBFBF]), u([0xC0C0, 0xD1D1, 0xE2E2, 0xF3F3, 0xFEFF, 0xFFFE]),
                 u([0x10000, 0x10400, 0x3FFFF, 0x40000, 0x7FFFF, 0x80000]), u([0xBFFFF, 0xC0000, 0xFFFFF, 0x100000, 0x10FBFF, 0x10FC00])] + [u([x]) for x in (0x2F, 0x23, 0x25, 0x28, 0x29, 0x5C, 0x7F, 0xA0, 0x1)] + [u([97, x]) for x in (0x2F, 0x5C, 0x29, 0xFEFF)]
        def texts(k, x): return [c('outline_new', out='o%d' % k), c('outline_set_title', 'o%d' % k, s=[x], z=[-1]), c('generator_add_outline', 'g', h=['o%d' % k]), c('generator_add_rolemap_entry', 'g', s=[x], z=[-1], n=[7]), c('form_field_new', n=[0], out='b%d' % k), c('form_field_set_V', 'b%d' % k, s=[x if x.count(';') > 1 else 'v' + x], z=[-1]), c('form_field_set_T', 'b%d' % k, s=[x], z=[-1]), c('generator_add_form_field', 'g', h=['b%d' % k]),
                                   c('dc_cmd_BMC', 'dc', s=[x], z=[-1]), c('dc_cmd_EMC', 'dc')]
        def more(k, x): return [c('embedded_file_new', out='e%d' % k), c('embedded_file_set_contents', 'e%d' % k, s=['fill:3:1']), c('embedded_file_set_pdf_name', 'e%d' % k, s=[x], z=[-1]), c('embedded_file_set_subtype', 'e%d' % k, s=[x], z=[-1]), c('generator_embed_file', 'g', h=['e%d' % k]), c('link_annotation_new', out='l%d' % k), c('annotation_set_uri', 'l%d' % k, s=[x], z=[-1]), box('l%d' % k), c('generator_add_annotation', 'g', h=['l%d' % k]),
                                  c('bdc_tags_new', out='tg%d' % k), c('bdc_tags_add_tag', 'tg%d' % k, s=[x, x], z=[-1, -1]), c('dc_cmd_BDC_testing', 'dc', s=[x], z=[-1], h=['tg%d' % k]), c('dc_cmd_EMC', 'dc')]
        bytes_ = [START + DC + sum((f(k, x) for k, x in enumerate(every) if k % 2 == h), []) + [page()] for f in (texts, lambda k, x: more(k, x)[:9 if x[:5] == '~u2F;' else None]) for h in (0, 1)]
        fns = mk(3, 'outline_new', 'outline_set_title', 'generator_add_outline', 'dc_cmd_BMC', 'dc_cmd_EMC', 'generator_add_page', 'text_annotation_new', 'annotation_set_rectangle', 'generator_add_annotation')
        return [w('-' + n, fns, ALL, p, num=2) for n, p in (('titles', many), ('layers', names), ('tags', tags), ('options', fields))] + [w('-bytes%d' % k, {'outline_new': 1}, ALL, p, num=1, len=2) for k, p in enumerate(bytes_)]
    if pid == 'P22':
        def e(k, nm): return [c('embedded_file_new', out='e%d' % k), c('embedded_file_set_contents', 'e%d' % k, s=['fill:%d:%d' % (k * 3, k)]), c('embedded_file_set_pdf_name', 'e%d' % k, s=[nm], z=[-1]), c('generator_embed_file', 'g', h=['e%d' % k])]
        rev = each(40, lambda k: e(k, 'f%03d' % (997 - k * 7 % 41)))
        up = each(40, lambda k: e(k, 'f%03d' % k)); pref = each(24, lambda k: e(k, 'a' * k + ('' if k % 2 else '~u4E2D;')))
        schema = [c('collection_schema_new', out='sc')] + each(20, lambda k: [c('collection_field_new', n=[k % 9], s=['field %d' % k], z=[-1], out='cf%d' % k), c('collection_schema_add_entry', 'sc', s=['K%d' % (k * 7 % 23)], z=[-1], h=['cf%d' % k])]) + \
                 [c('collection_new', out='co'), c('collection_set_schema', 'co', h=['sc']), c('generator_set_collection', 'g', h=['co'])]
        return [w('-' + n, add(EMBED, COLL), ALWAYS + ['ef', 'coll'], START + p, num=3) for n, p in (('names', rev), ('sorted', up), ('prefixes', pref), ('schema', up[:40] + schema), ('slashes', sum((e(k, x) for k, x in enumerate(['/a/b', 'a/b', '/', '//', '~x5C;', '/~x5C;/', 'a/', '(/)', '~u4E2D;/x', './x', '../x', 'C:~x5C;x', 'a//b', 'aaaa/', '/aaaa/~x5C;~x5C;'])), [])))]
    return []
def _with(pid, old): return lambda: old() + systematic(pid) + wide(pid)
for _p in list(PROFILES): PROFILES[_p] = _with(_p, PROFILES[_p])

# P24: what the Python interface has; arguments a Python caller can express
NOPY = {'bdc_tags_add_tag', 'bdc_tags_new', 'collection_field_new', 'collection_field_set_E', 'collection_field_set_O', 'collection_field_set_V', 'collection_schema_add_entry',
        'collection_schema_new', 'collection_set_schema', 'dc_append_viewport', 'dc_cmd_BDC_testing', 'generator_add_icc_profile', 'generator_add_page_labeling', 'generator_load_image_from_memory',
        'graphics_state_set_AIS', 'graphics_state_set_FL', 'graphics_state_set_SM', 'image_pdf_properties_set_conversion_intent', 'measure_append_A', 'measure_append_D', 'measure_append_X', 'measure_append_Y',
        'measure_new', 'number_format_new', 'raster_image_builder_set_alpha_data', 'raster_image_builder_set_alpha_depth', 'raster_image_builder_set_colorspace', 'raster_image_builder_set_pixel_depth',
        'text_cmd_J', 'text_cmd_M', 'text_cmd_TD', 'text_cmd_d', 'text_cmd_j', 'text_cmd_w', 'viewport_new', 'viewport_set_measure'}
def pysig():
    import copy
    S = copy.deepcopy(SIG)
    S['dc_cmd_cm']['args'] = [dict(t='nt', p='cm', lo=0, hi=0)]
    S['dc_cmd_BDC_builtin']['args'] = [dict(a, t='null') if a['t'] == 'hn' else a for a in S['dc_cmd_BDC_builtin']['args']]
    return S
def pypools():
    P = pools()
    out = {'e:' + e: list(range(m + 1)) for e, m in ENUMMAX.items()}
    out.update({k: [0, 1] for k in ('bool',)})
    ok = [x for x in P['str'] if '~x' not in x or '~x0' in x or '~x5' in x]
    out.update(z=[-1], cm=[[1000, 0, 0, 1000, 5000, -2500], [2000, 0, 0, 500, 0, 0], [0, 1000, -1000, 0, 0, 0], [0, -1000, 1000, 0, 0, 0], [1000, 2000, 3000, 4000, 5000, 6000], [500, 0, 0, 500, 1000, 0]],
               ascii=['Hello', 'a(b)c', 'x y', 'http://e.x/?a=b&c', 'en-US', 'A~x5C;B', ''], uint=[0, 1, 2, 3, 5, 17, 1000, 65536], flags=[0, 1, 2, 4, 64, 128, 3, 512],
               name=['Foo', 'Bar', 'x y', 'A#B', 'p(q)', 'Q/R', 'F'], xml=[x for x in P['xml'] if '~xFF' not in x], prefix=['A-'],
               ff=[0, 2, 4, 4096, 8192, 16384, 32768, 65536, 131072, 262144, 524288, 1048576, 2097152, 4194304, 8388608, 16777216, 67108864, 6], str=P['str'])
    return out
def pyprof(name, fns, prelude, opy={}, **k):
    S = pysig()
    for f, nm in (('form_field_set_Ff', 'Ff'),): S[f]['args'][0]['p'] = 'ff'
    p = prof(name, {f: w for f, w in fns.items() if f not in NOPY}, ALL, prelude, pools_={**pypools(), **opy}, opts=dict(instead='python'), **k)
    p['sig'] = S
    return p
PROFILES['P24'] = lambda: [
   pyprof('py', add(PAGE, GROUPS, USE, COLORS, FUNCTIONS, SHADINGS, GSTATES, IMAGES, FILES1, ANNOTS, STRUCT, OUTLINES, FIELDS, EMBED, COLL, THREED, OCGS, TRANS, PPROPS, TEXT, TGP, one(STATEOPS, 2)), START + FONT + OBJ1, len=120, num=60, bias=80, badid=6),
   pyprof('py-draw', add({**one(PLAINOPS), **one(NUMOPS, 2), **one(STATEOPS, 2)}, TEXT, PAGE, mk(2, 'color_new', 'color_set_rgb', 'color_set_cmyk', 'color_set_gray'), SETCOL), START + FONT + OBJ1, len=70, num=40, bias=75),
   pyprof('py-build', add(FUNCTIONS, SHADINGS, GSTATES, COLORS, IMAGES, FILES, TRANS, PPROPS, TGP), START, len=70, num=50, bias=75),
   pyprof('py-doc', add(ANNOTS, OUTLINES, FIELDS, EMBED, COLL, THREED, OCGS, STRUCT, TRANS, PAGE), START + FONT, len=80, num=50, bias=75),
   pyprof('py-fonts', add(TEXT, PAGE, GROUPS, COLORS, mk(4, 'dc_set_group_matrix', 'text_set_stroke', 'text_set_nonstroke', 'dc_text_new', 'dc_render_text_obj', 'generator_text_width', 'font_properties_new', 'font_properties_set_subfont', 'font_properties_set_named_instance', 'font_properties_set_variation', 'generator_load_font')), START + FONT, len=60, num=30, bias=85,
          opy=dict(font=['@T/fonts/NotoSans-Regular.ttf', '@T/fonts/AmstelVar-Roman.ttf'], axis=['wght', 'wdth', 'wght', 'opsz'], coord=[300, 700, 60, 144], inst=[0, 1, 2], sub=[0, 0, 1])),
   pyprof('py-props', add(DPROPS, mk(3, 'generator_new', 'page_draw_context_new', 'generator_add_page'), one(pre('page_properties'))), [], len=30, num=80)]

PROFILES['P11'] = lambda: [
   prof('refused', add(PAGE, OUTLINES, ANNOTS, FIELDS, EMBED, mk(2, 'generator_write', 'link_annotation_new', 'form_field_set_V')), ALWAYS, START, len=50, num=60, bias=80, opts=dict(extra='leftovers')),
   prof('docs', add(PAGE, GROUPS, COLORS, FUNCTIONS, IMAGES, STRUCT, OUTLINES, EMBED, mk(6, 'embedded_file_set_contents', 'generator_embed_file', 'generator_add_image', 'raster_image_builder_set_pixel_data', 'dc_render_text')), ALWAYS, START + FONT, len=60, num=20, bias=92, badid=2)]

def envjson():
    import fontinfo
    return fontinfo.env()

if __name__ == '__main__':
    print(json.dumps(SIG, indent=1))
