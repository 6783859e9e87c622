"""Facts about the input files the specification takes as constants: which characters a
font has glyphs for, how many glyphs, how many components an ICC profile has."""
import ctypes, os, json, struct, glob
from driver import REPO
FT = None; KEEP = []
def ft():
    global FT
    if FT is None:
        FT = ctypes.CDLL('libfreetype.so.6')
        FT.lib = ctypes.c_void_p()
        assert FT.FT_Init_FreeType(ctypes.byref(FT.lib)) == 0
        FT.FT_Get_First_Char.restype = ctypes.c_ulong; FT.FT_Get_First_Char.argtypes = [ctypes.c_void_p, ctypes.POINTER(ctypes.c_uint)]
        FT.FT_Get_Next_Char.restype = ctypes.c_ulong; FT.FT_Get_Next_Char.argtypes = [ctypes.c_void_p, ctypes.c_ulong, ctypes.POINTER(ctypes.c_uint)]
    return FT
class FaceHead(ctypes.Structure):
    _fields_ = [('num_faces', ctypes.c_long), ('face_index', ctypes.c_long), ('face_flags', ctypes.c_long), ('style_flags', ctypes.c_long), ('num_glyphs', ctypes.c_long)]
def face(data, idx=0):
    f = ctypes.c_void_p(); l = ft(); KEEP.append(data)
    if l.FT_New_Memory_Face(l.lib, data, ctypes.c_long(len(data)), ctypes.c_long(idx), ctypes.byref(f)) != 0: return None
    return f
def charmap(f):
    g = ctypes.c_uint(); out = {}
    c = ft().FT_Get_First_Char(f, ctypes.byref(g))
    while g.value:
        out[c] = g.value
        c = ft().FT_Get_Next_Char(f, c, ctypes.byref(g))
    return out
def nglyphs(f): return ctypes.cast(f, ctypes.POINTER(FaceHead)).contents.num_glyphs

CAND = sorted(set(list(range(32, 127)) + list(range(0xa0, 0x180)) + list(range(0x390, 0x3ca)) + list(range(0x410, 0x450)) + list(range(0x1e00, 0x1e40)) +
              [0x1ea, 0x20ac, 0x1F600, 0x2600, 0x1d400, 9, 10, 13, 0x7f, 0xfffd, 0x10ffff, 0xfeff, 0x1F310, 0x1F3A0, 0x2192, 0xfb01, 0xfb03, 0x2126, 0x212b, 0x1F800, 0x102E0]))
FONTS = ('NotoSans-Regular.ttf', 'NotoSerif-Regular.ttf', 'NotoSans-Bold.ttf', 'NotoSansSymbols2-Regular.ttf', 'P052-Roman.otf', 'AmstelVar-Roman.ttf')
# glyph ids callers name: some of every font, ligatures of NotoSans among them
GIDS = (1, 2, 3, 4, 5, 18, 20, 22, 23, 24, 36, 40, 44, 72, 73, 100, 171, 213, 304, 500, 505, 650, 800, 854, 855, 900, 961, 962, 1911, 1912, 1913, 1914, 1915, 1916, 1917, 1918, 1919, 1920, 1925, 1930, 1940, 1950,
        1951, 1952, 1967, 1969, 2000, 2500, 2673, 2674, 3000, 3255, 3256, 3300, 3316)
# faces of the variable font: named instance (or none) and axis values
VARS = [(i, v) for i in ('', '1', '0') for v in ((), (('wght', 700),), (('wght', 300), ('wdth', 60)), (('wdth', 60),), (('wdth', 9000),), (('opsz', 144), ('wght', 1000)), (('wght', 700), ('YTLC', 570)))]
def entry(path, data, inst='', var=(), more=(), sub=0):
    import glyphs, fontread
    hp = fontread.program(data, sub); ff = glyphs.open_(data, sub); F = ff[1]; cm = charmap(ff[0]); ax = glyphs.axes(ff)
    if ax: assert glyphs.vary(ff, int(inst) if inst else None, var), (path, inst, var)
    cps = [x for x in CAND if x in cm]
    gids = sorted({cm[x] for x in cps} | {g for g in (*GIDS, *more) if g < F.num_glyphs})
    gl = {}; adv = {}
    for g in gids:
        o, a = glyphs.glyph(ff, g); gl[str(g)] = glyphs.label(o, a, F.upem) + (' h' + hp.hint(g) if o != 'empty' else ''); adv[str(g)] = a
    bb = list(F.bbox)
    l = ft(); l.FT_Get_Postscript_Name.restype = ctypes.c_char_p
    return dict(path=path, sub=sub, inst=inst, var={k: v for k, v in var}, cps=cps, n=F.num_glyphs, c2g={str(x): str(cm[x]) for x in cps}, gl=gl, adv=adv, upem=F.upem,
                base=(l.FT_Get_Postscript_Name(ff[0]) or b'Unnamed').decode(), kind='/CIDFontType0' if data[:4] == b'OTTO' else '/CIDFontType2',
                bbox='[' + ' '.join(str(glyphs.milli(x, F.upem)) for x in bb) + ']', axes=[a[0] for a in ax[0]] if ax else [], ninst=ax[1] if ax else 0)
def tname(n): return n if n[0] == '@' else '@T/fonts/' + n
def env(fonts=None):
    import fonts as made
    from driver import path
    made.make()
    F = {}; files = [(tname(n), path(tname(n))) for n in fonts or FONTS + made.NAMES]
    files = [(n, open(p, 'rb').read()) for n, p in files if os.path.exists(p)]
    maps = [charmap(face(d)) for n, d in files if n[:2] == '@T']
    more = {m[x] for m in maps for x in CAND if x in m}          # a pool made for one font serves another, too
    for t, data in files:
        F[t] = entry(t, data, more=more)
        for k in range(1, made.faces(t) if t[:2] == '@F' else 1): F['%s:%d' % (t, k)] = entry(t, data, more=more, sub=k)
        if F[t]['axes']:
            for i, v in VARS:
                if i or v: F['%s#%s|%s' % (t, i, '|'.join('%s=%d' % x for x in v))] = entry(t, data, i, v, more)
    I = {}
    for p in sorted(glob.glob(os.path.join(REPO, 'testdata/icc/*.icc'))):
        cs = open(p, 'rb').read(20)[16:20]
        ch = {b'CMYK': 4, b'RGB ': 3, b'GRAY': 1}.get(cs)
        if ch: I['@T/icc/' + os.path.basename(p)] = ch
    files = [os.path.join(d, n).replace(os.path.join(REPO, 'testdata'), '@T') for d, _, l in os.walk(os.path.join(REPO, 'testdata')) for n in l]
    import images
    images.make(); T = images.table()
    I.update({'@I/gray.icc': 1, '@I/srgb.icc': 3, '@I/gray2.icc': 1, '@I/srgb2.icc': 3})
    files += [p for p, e in T.items() if os.path.isfile(os.path.join(images.DIR, p[3:]))]
    return dict(fonts=F, icc=I, files=sorted(files), images=T)
if __name__ == '__main__': print(json.dumps(env()))
