"""The same calls, made through /repo/python/capypdf.py.

`PyRun.call` takes the records driver.Run takes.  Enumeration values are chosen by the *name* of
the C constant, so a Python enumeration with a wrong value shows.  The shared library is watched
through a proxy: what the library returned must be what the Python caller is told."""
import os, sys, re, types, math, gc, enum, importlib.util, ctypes
import driver
from driver import FUNCS, ENUMS, IDS, OPAQUE, KIND, FAM, num, unesc, blob, path, BLOBARGS, PATHARGS

class Proxy:
    def __init__(self, real): self._real = real; self.rcs = []; self._c = {}
    def __getattr__(self, n):
        if n in self._c: return self._c[n]
        f = getattr(self._real, n)
        def g(*a):
            r = f(*a)
            if n != 'capy_error_message' and not n.endswith('_destroy') and self.rcs is not None: self.rcs.append(r)
            return r
        self._c[n] = g
        return g

MOD = {}
def module(sodir):
    if sodir not in MOD:
        os.environ['CAPYPDF_SO_OVERRIDE'] = sodir
        sys.dont_write_bytecode = True
        spec = importlib.util.spec_from_file_location('capypdf_under_check', os.path.join(driver.REPO, 'python/capypdf.py'))
        m = importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
        m.libfile = Proxy(m.libfile)
        MOD[sodir] = m
    return MOD[sodir]

norm = lambda s: s.replace('_', '').lower()
ALIAS = {'CAPY_LC_PROJECTION': 'Projection_Square', 'CAPY_LINE_ANNOTATION_END_NONE': 'NoEnding', 'CAPY_LINE_ANNOTATION_END_R_OPEN_ARROW': 'ROpenAreow',
         'CAPY_INTERPOLATION_AUTO': 'Automatic', 'CAPY_COMPRESSION_NONE': 'Not', 'CAPY_FFIELD_NONE': 'Nothing', 'CAPY_HT_FUNC_DOUBLEDOT': 'DoubleDpt',
         'CAPY_HT_FUNC_INVERTED_DOUBLEDOT': 'Inverted_DoubldDot', 'CAPY_FFIELD_COMMITONSELCHANGE': 'CommtOnSelChange', 'CAPY_FFIELD_RADIOSINUNISON': 'RichText'}
ECLASS = {'Line_Cap': 'LineCapStyle', 'Line_Join': 'LineJoinStyle', 'PDFX_Type': 'PdfXType', 'PDFA_Type': 'PdfAType', '3D_File_Format': 'ThreeDFileFormat',
          'Annotation_Flags': 'AnnotationFlag', 'Soft_Mask_Subtype': 'SoftMaskSubType'}
ICLASS = {'3DStreamId': 'ThreeDStreamId'}
DCCLASS = {'form_xobject_new': 'FormXObjectDrawContext'}

def eclass(m, b):
    b = b.replace('CapyPDF_', '')
    want = norm(ECLASS.get(b, b))
    for n, c in vars(m).items():
        if isinstance(c, type) and norm(n) == want and c.__module__ == m.__name__: return c
    return None
def member(m, b, v):
    """the Python value for the C constant of value v"""
    c = eclass(m, b); cs = [k for k, x in ENUMS[b].items() if x == v and not k.endswith('NUM_ITEMS')]
    if c is None: return types.SimpleNamespace(value=v)
    if not issubclass(c, enum.Enum):        # what a caller who names a value of it passes
        return next(getattr(c, n) for n in vars(c) if norm(n) == norm(cs[0].split('_')[-1]))
    if issubclass(c, enum.IntFlag):
        r = c(0)
        for bit in range(32):
            if v & (1 << bit): r |= one(c, [k for k, x in ENUMS[b].items() if x == 1 << bit], 1 << bit)
        return r
    return one(c, cs, v)
def one(c, cnames, v):
    for k in cnames:
        words = k.split('_')
        for n, e in c.__members__.items():
            if ALIAS.get(k) == n: return e
        for j in range(1, len(words)):      # the longest tail of the C name that names a member
            for n, e in c.__members__.items():
                if norm(n) == norm('_'.join(words[j:])): return e
    try: return c(v)
    except ValueError: return types.SimpleNamespace(value=v)

class NoBinding(Exception): pass

class PyRun:
    def __init__(self, sodir):
        self.m = module(sodir); self.h = {}; self.ids = {}; self.own = {}; self.k = 0; self.stack = {}; self.pat = {}; self.m.libfile.rcs = []
    def idclass(self, kind):
        for n, k in KIND.items():
            if k == kind: return getattr(self.m, ICLASS.get(n, n))
    def idv(self, s, g):
        k, _, v = s.partition(':'); cls = self.idclass(k)
        if v.startswith('#'): return cls(int(v[1:]))
        n = int(v) - 1
        if k == 'icc': return cls(n)
        for t in ([self.ids[g]] if g in self.ids else []) + list(self.ids.values()):
            l = t.get(FAM.get(k, k), [])
            if n < len(l):
                return l[n][2] if cls is None or type(l[n][2]) is cls else cls(l[n][1])
        raise KeyError(s)
    def args(self, c, g):
        f = c['f']; args = FUNCS['capy_' + f][1]
        hs = ([c['o']] if c.get('o') else []) + list(c.get('h', []))
        ns = list(c['n']); iss = list(c['i']); ss = list(c['s']); ds = list(c['d']); hhs = list(c['hh']); ias = list(c['ia'])
        out = []; k = 0; idk = None
        H = lambda x: None if x == 'null' else self.h[x]
        while k < len(args):
            b, s, nm = args[k]; nxt = args[k+1] if k+1 < len(args) else None
            sized = nxt and re.search(r'(size|len)$|num_values', nxt[2]) and nxt[1] == 0
            if s == 2 and nm == 'out_ptr': pass
            elif s == 2: out.append([H(x) for x in hhs.pop(0)])
            elif b in IDS and s == 1 and nm == 'out_ptr': idk = KIND[b[8:]]
            elif b in IDS and s == 1 and sized: out.append([self.idv(x, g) for x in ias.pop(0)]); k += 1
            elif b in IDS and s == 1:
                x = iss.pop(0); out.append(None if x == 'null' else self.idv(x, g))
            elif b in IDS: out.append(self.idv(iss.pop(0), g))
            elif b == 'char' and s == 1:
                x = ss.pop(0)
                if (f, nm) in BLOBARGS: out.append(blob(x)); k += 1
                elif nm in PATHARGS: out.append(path(x))
                else:
                    out.append(unesc(x).decode('utf-8'))
                    if sized: k += 1
            elif b == 'double' and s == 1 and nm == 'out_ptr': pass
            elif b == 'double' and s == 1:
                l = ds.pop(0)
                if nm in ('x', 'y', 'z'): out.append(num(l[0]) if l else None)
                else: out.append([num(x) for x in l])
                if sized: k += 1
            elif (b in ENUMS or b in ('uint32_t', 'int32_t')) and s == 1: pass
            elif s == 1 and b in OPAQUE: out.append(H(hs.pop(0)))
            elif b == 'double': out.append(num(ns.pop(0)))
            elif b in ENUMS: out.append(member(self.m, b, ns.pop(0)))
            elif nm == 'Ff': out.append(member(self.m, 'CapyPDF_Form_Field_Flags', ns.pop(0)))
            else: out.append(ns.pop(0))
            k += 1
        return out, idk
    def do(self, c, f, a, g):
        m = self.m; odd = self.k % 2 == 1
        A = a[1:]
        if f == 'generator_new': return m.Generator(*a)
        if f == 'page_draw_context_new': return a[0].page_draw_context()
        if f == 'form_xobject_new': return m.FormXObjectDrawContext(*a)
        if f == 'transparency_group_new': return a[0].transparency_group_context(*A)
        if f == 'tiling_pattern_context_new': return a[0].create_tiling_pattern_context(*A)
        if f == 'dc_text_new': return a[0].text_new()
        x = re.match(r'(\w+)_annotation_new', f)
        if x: return getattr(m.Annotation, 'new_%s_annotation' % x.group(1))(*a)
        if f == 'shading_pattern_new': return m.ShadingPattern(*a)
        if f.endswith('_new'):
            n = norm(f[:-4])
            n = {'3dstream': 'threedstream'}.get(n, n)
            for k, v in vars(m).items():
                if isinstance(v, type) and norm(k) == n: return v(*a)
            raise NoBinding(f)
        o = a[0]
        # context managers and conveniences, every other time
        if f == 'dc_cmd_cm' and A[:4] == [1, 0, 0, 1]: return o.translate(A[4], A[5])
        if f == 'dc_cmd_cm' and A[1:3] == [0, 0] and A[4:] == [0, 0]: return o.scale(A[0], A[3])
        if f == 'dc_cmd_cm' and A[4:] == [0, 0] and A[0] == A[3] and A[1] == -A[2] and A[0] ** 2 + A[1] ** 2 == 1: return o.rotate(math.atan2(A[1], A[0]))
        if f == 'dc_cmd_q' and odd:
            self.stack.setdefault(c['o'], []).append(o.push_gstate().__enter__()); return None
        if f == 'dc_cmd_Q' and self.stack.get(c['o']): return self.stack[c['o']].pop().__exit__(None, None, None)
        if f == 'generator_write' and odd:
            o.__exit__(ValueError, ValueError(), None)      # an exception inside `with` must not write
            o.__exit__(None, None, None); return None
        if f == 'generator_add_page' and odd and isinstance(A[0], m.DrawContext) and A[0].generator is o:
            with A[0]: pass
            return None
        if f == 'dc_render_text_obj' and odd and A[0].dc is o:
            with A[0]: pass
            return None
        if f in ('dc_set_stroke', 'dc_set_nonstroke') and odd and c['h'][0] in self.pat: A = [self.pat[c['h'][0]]]
        if f == 'color_set_pattern':
            r = o.set_pattern(*A); self.pat[c['o']] = A[0]; return r
        if f.startswith('color_set'):
            r = getattr(o, f[6:])(*A); self.pat.pop(c['o'], None); return r
        if f == 'dc_cmd_BDC_ocg': return o.cmd_BDC(*A)
        if f in ('dc_cmd_BDC_builtin', 'text_cmd_BDC_builtin', 'dc_cmd_BMC'):
            if len(A) > 1: A = A[:1]
            r = getattr(o, f.split('_', 1)[1])(*A)
            self.stack.setdefault('mc' + c['o'], []).append(r if odd else None); return None
        if f in ('dc_cmd_EMC', 'text_cmd_EMC') and self.stack.get('mc' + c['o']):
            r = self.stack['mc' + c['o']].pop()
            if r is not None:
                with r: pass
                return None
            return o.cmd_EMC()
        if f in ('dc_cmd_Do_image', 'dc_cmd_Do_trgroup'): return o.cmd_Do(*A)
        if f == 'generator_add_custom_structure_item': return o.add_structure_item(*A)
        if f == 'transition_set_Dm': return o.set_Dn(*A)
        if f == 'halftone_set_default': return o.set_default(0)
        if f == 'destination_set_page_xyz': return o.set_page_xyz(A[0], x=A[1], y=A[2], z=A[3])
        for p in ('document_properties_', 'page_properties_', 'generator_', 'dc_', 'text_sequence_', 'text_', 'transparency_group_properties_', 'shading_pattern_', 'shading_',
                  'type4_shading_', 'type6_shading_', 'color_', 'transition_', 'raster_image_builder_', 'raster_image_', 'graphics_state_', 'halftone_', 'annotation_',
                  'struct_item_extra_data_', 'image_pdf_properties_', 'destination_', 'outline_', 'embedded_file_', 'font_properties_', 'form_field_', 'collection_'):
            if f.startswith(p): return getattr(o, f[len(p):])(*A)
        raise NoBinding(f)
    def call(self, c):
        """-> (0 or 1, complaint)"""
        f = c['f']; self.k += 1
        g = c.get('g') or self.own.get(c.get('o'), c.get('o'))
        a, idk = self.args(c, g)
        lf = self.m.libfile; lf.rcs = []
        try: r = self.do(c, f, a, g); exc = None
        except NoBinding: raise
        except Exception as e: exc = e; r = None
        rcs = [x for x in lf.rcs if x]
        lf.rcs = []
        if rcs and exc is None: return 0, 'the library returned error %d and Python reports success' % rcs[0]
        if exc is not None and rcs:
            want = lf._real.capy_error_message(rcs[0]).decode('utf-8', 'ignore')
            if not isinstance(exc, self.m.CapyPDFException) or str(exc) != want:
                return 1, 'the library says %r and Python raises %s(%s)' % (want, type(exc).__name__, exc)
        if exc is not None:
            c['rcs'] = rcs[:1]; c['exc'] = '%s: %s' % (type(exc).__name__, exc)
            return 1, None
        if idk is not None:
            fam = FAM.get(idk, idk); l = self.ids.setdefault(g, {}).setdefault(fam, [])
            have = [(x[0], x[1]) for x in l]
            if fam == 'icc': sym = r.id + 1
            elif (idk, r.id) in have: sym = have.index((idk, r.id)) + 1
            else: l.append((idk, r.id, r)); sym = len(l)
            c['id'] = '%s:%d' % (fam, sym)
        elif c.get('out'):
            self.h[c['out']] = r
            self.own[c['out']] = c['out'] if f == 'generator_new' else g
        elif f == 'raster_image_get_size': c['val'] = list(r)
        elif f == 'raster_image_get_colorspace': c['val'] = [r.value]
        elif f == 'raster_image_has_profile': c['val'] = [1 if r else 0]
        elif f == 'generator_text_width': c['val'] = [int(round(r * 1000))]
        return 0, None
