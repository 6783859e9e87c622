"""Glyphs of a font as FreeType sees them: outline digest and advance width in font units.
Used on the fonts the specification is given and on the fonts embedded in written files."""
import ctypes, hashlib, os
import fontinfo
L = ctypes.c_long; P = ctypes.c_void_p
class Outline(ctypes.Structure):
    _fields_ = [('n_contours', ctypes.c_ushort), ('n_points', ctypes.c_ushort), ('points', ctypes.POINTER(L)), ('tags', ctypes.POINTER(ctypes.c_ubyte)), ('contours', ctypes.POINTER(ctypes.c_ushort)), ('flags', ctypes.c_int)]
class Bitmap(ctypes.Structure):
    _fields_ = [('rows', ctypes.c_uint), ('width', ctypes.c_uint), ('pitch', ctypes.c_int), ('buf', P), ('gr', ctypes.c_ushort), ('pm', ctypes.c_ubyte), ('pal', ctypes.c_ubyte), ('palette', P)]
class Slot(ctypes.Structure):
    _fields_ = [('library', P), ('face', P), ('next', P), ('glyph_index', ctypes.c_uint), ('generic', P * 2),
                ('width', L), ('height', L), ('hbx', L), ('hby', L), ('hadv', L), ('vbx', L), ('vby', L), ('vadv', L),
                ('lha', L), ('lva', L), ('advx', L), ('advy', L), ('format', ctypes.c_uint),
                ('bitmap', Bitmap),
                ('bl', ctypes.c_int), ('bt', ctypes.c_int), ('o', Outline)]
assert Slot.o.offset == 200 or ctypes.sizeof(P) != 8
class Face(ctypes.Structure):
    _fields_ = [('num_faces', L), ('face_index', L), ('face_flags', L), ('style_flags', L), ('num_glyphs', L), ('family', ctypes.c_char_p), ('style', ctypes.c_char_p),
                ('nfs', ctypes.c_int), ('sizes', P), ('ncm', ctypes.c_int), ('charmaps', P), ('generic', P * 2), ('bbox', L * 4),
                ('upem', ctypes.c_ushort), ('asc', ctypes.c_short), ('desc', ctypes.c_short), ('height', ctypes.c_short), ('maxw', ctypes.c_short), ('maxh', ctypes.c_short),
                ('up', ctypes.c_short), ('ut', ctypes.c_short), ('glyph', ctypes.POINTER(Slot))]
NO_SCALE, NO_BITMAP, NO_HINT = 1, 8, 2
def open_(data, idx=0):
    f = fontinfo.face(data, idx)
    return f and (f, ctypes.cast(f, ctypes.POINTER(Face)).contents)
def glyph(ff, gid):
    """-> (outline digest, advance in font units) or None"""
    f, F = ff
    if fontinfo.ft().FT_Load_Glyph(f, ctypes.c_uint(gid), ctypes.c_int(NO_SCALE | NO_BITMAP)) != 0: return None
    s = F.glyph.contents; adv = s.hadv; s = s.o
    n = s.n_points; c = s.n_contours
    pts = tuple(s.points[:2 * n]) if n else (); tg = bytes(t & 3 for t in s.tags[:n]) if n else b''; ct = tuple(s.contours[:c]) if c else ()
    h = hashlib.blake2b(repr((pts, tg, ct)).encode(), digest_size=5).hexdigest() if n else 'empty'
    return h, adv
def milli(v, upem): return int(v * 1000 / upem)          # towards zero
def label(o, adv, upem): return 'w%d o%s' % (milli(adv, upem), o)
class Axis(ctypes.Structure): _fields_ = [('name', P), ('min', L), ('def_', L), ('max', L), ('tag', ctypes.c_ulong), ('strid', ctypes.c_uint)]
class MM(ctypes.Structure): _fields_ = [('num_axis', ctypes.c_uint), ('num_designs', ctypes.c_uint), ('num_named', ctypes.c_uint), ('axis', ctypes.POINTER(Axis)), ('named', P)]
def axes(ff):
    m = ctypes.POINTER(MM)()
    if fontinfo.ft().FT_Get_MM_Var(ff[0], ctypes.byref(m)): return []
    return [(a.tag.to_bytes(4, 'big').decode(), a.min >> 16, a.def_ >> 16, a.max >> 16) for a in m.contents.axis[:m.contents.num_axis]], m.contents.num_named
def vary(ff, instance=None, coords=()):
    """the same face with a named instance and axis values set; -> False when it has none"""
    l = fontinfo.ft(); ax = axes(ff)
    if not ax: return False
    if instance is None:
        i = ctypes.c_uint(); l.FT_Get_Default_Named_Instance(ff[0], ctypes.byref(i)); instance = i.value
    if l.FT_Set_Named_Instance(ff[0], ctypes.c_uint(instance)): return False
    n = len(ax[0]); v = (L * n)()
    l.FT_Get_Var_Design_Coordinates(ff[0], ctypes.c_uint(n), v)
    for k, x in coords:
        for j, a in enumerate(ax[0]):
            if a[0] == k: v[j] = x << 16
    return l.FT_Set_Var_Design_Coordinates(ff[0], ctypes.c_uint(n), v) == 0
