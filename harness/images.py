"""A catalogue of image files: what a reader of each of them gets.

The files are made here, byte by byte, so what they show is known without the code under
test and without an image library: the specification takes the catalogue as a constant,
its conversions are done by Little CMS itself."""
import ctypes, os, struct, zlib, hashlib
HERE = os.path.dirname(os.path.abspath(__file__))
DIR = os.path.join(os.path.dirname(HERE), '.build', 'images')
REPO = os.environ.get('VERIF_REPO', '/repo')
GRAY, RGB, CMYK = 1, 0, 2           # colour space numbers of the API

def noise(n, seed):
    out = bytearray(); k = 0
    while len(out) < n:
        out += hashlib.sha256(b'%d/%d' % (seed, k)).digest(); k += 1
    return bytes(out[:n])

# ---- colour profiles and conversion
LCMS = None
def lcms():
    global LCMS
    if LCMS is None:
        LCMS = ctypes.CDLL('liblcms2.so.2'); P = ctypes.c_void_p
        for f in ('cmsBuildGamma', 'cmsCreateGrayProfile', 'cmsD50_xyY', 'cmsCreate_sRGBProfile', 'cmsOpenProfileFromMem', 'cmsCreateTransform'): getattr(LCMS, f).restype = P
        LCMS.cmsBuildGamma.argtypes = [P, ctypes.c_double]; LCMS.cmsCreateGrayProfile.argtypes = [P, P]
        LCMS.cmsSaveProfileToMem.argtypes = [P, P, ctypes.POINTER(ctypes.c_uint32)]; LCMS.cmsOpenProfileFromMem.argtypes = [ctypes.c_char_p, ctypes.c_uint32]
        LCMS.cmsCreateTransform.argtypes = [P, ctypes.c_uint32, P, ctypes.c_uint32, ctypes.c_uint32, ctypes.c_uint32]
        LCMS.cmsDoTransform.argtypes = [P, ctypes.c_char_p, P, ctypes.c_uint32]; LCMS.cmsDeleteTransform.argtypes = [P]; LCMS.cmsCloseProfile.argtypes = [P]; LCMS.cmsFreeToneCurve.argtypes = [P]
    return LCMS
def grayprofile(gamma):
    l = lcms(); c = l.cmsBuildGamma(None, gamma); h = l.cmsCreateGrayProfile(l.cmsD50_xyY(), c); l.cmsFreeToneCurve(c); return h
def saved(h):
    l = lcms(); n = ctypes.c_uint32()
    assert l.cmsSaveProfileToMem(h, None, ctypes.byref(n)); b = ctypes.create_string_buffer(n.value)
    assert l.cmsSaveProfileToMem(h, b, ctypes.byref(n)); l.cmsCloseProfile(h)
    d = bytearray(b.raw[:n.value]); d[24:36] = struct.pack('>6H', 2020, 1, 2, 3, 4, 5); d[84:100] = bytes(16)
    return bytes(d)
# TYPE_GRAY_8, TYPE_RGB_8, TYPE_CMYK_8 of lcms2.h
FMT = {GRAY: (3 << 16) | (1 << 3) | 1, RGB: (4 << 16) | (3 << 3) | 1, CMYK: (6 << 16) | (4 << 3) | 1}
NCH = {GRAY: 1, RGB: 3, CMYK: 4}
INTENT = (1, 3, 2, 0)               # relative, absolute, saturation, perceptual
def profile(name):
    if name == 'rgb': return lcms().cmsCreate_sRGBProfile()
    if name == 'gray': return grayprofile(1.0)
    import driver
    d = open(driver.path(name), 'rb').read()
    return lcms().cmsOpenProfileFromMem(d, len(d))
CONV = {}
def convert(tok):
    """conv:OUTCS:INTENT:NPIXELS:INCS:INPROFILE:OUTPROFILE:DATA"""
    if tok in CONV: return CONV[tok]
    import driver
    _, oc, it, n, ic, ip, op, data = tok.split(':', 7); oc, it, n, ic = int(oc), int(it), int(n), int(ic)
    l = lcms(); d = driver.blob(data); hi, ho = profile(ip), profile(op)
    t = l.cmsCreateTransform(hi, FMT[ic], ho, FMT[oc], INTENT[it], 0)
    if not t: raise ValueError('no such conversion: ' + tok)
    b = ctypes.create_string_buffer(n * NCH[oc] or 1)
    l.cmsDoTransform(t, d[:n * NCH[ic]], b, n); l.cmsDeleteTransform(t); l.cmsCloseProfile(hi); l.cmsCloseProfile(ho)
    CONV[tok] = b.raw[:n * NCH[oc]]
    return CONV[tok]

# ---- PNG
def pack(row, depth):
    if depth == 16: return b''.join(struct.pack('>H', v) for v in row)
    if depth == 8: return bytes(row)
    n = (len(row) * depth + 7) // 8; x = 0
    for v in row: x = (x << depth) | v
    return (x << (n * 8 - len(row) * depth)).to_bytes(n, 'big')
def chunk(t, d): return struct.pack('>I', len(d)) + t + d + struct.pack('>I', zlib.crc32(t + d))
ADAM7 = ((0, 0, 8, 8), (4, 0, 8, 8), (0, 4, 4, 8), (2, 0, 4, 4), (0, 2, 2, 4), (1, 0, 2, 2), (0, 1, 1, 2))
def png(w, h, depth, ctype, px, plte=None, trns=None, icc=None, lace=False):
    """px: h rows of w tuples of samples"""
    flat = lambda row: [v for p in row for v in p]
    if lace:
        raw = b''
        for x0, y0, dx, dy in ADAM7:
            for y in range(y0, h, dy):
                r = px[y][x0::dx]
                if r: raw += b'\0' + pack(flat(r), depth)
    else: raw = b''.join(b'\0' + pack(flat(r), depth) for r in px)
    out = b'\x89PNG\r\n\x1a\n' + chunk(b'IHDR', struct.pack('>IIBBBBB', w, h, depth, ctype, 0, 0, int(lace)))
    if icc: out += chunk(b'iCCP', b'profile\0\0' + zlib.compress(icc))
    if plte: out += chunk(b'PLTE', bytes(v for c in plte for v in c))
    if trns is not None: out += chunk(b'tRNS', bytes(trns))
    return out + chunk(b'IDAT', zlib.compress(raw)) + chunk(b'IEND', b'')
def bits(rows):
    """rows of 0/1, padded to whole bytes with zeros"""
    return b''.join(pack(r, 1) for r in rows)
CH = {0: 1, 2: 3, 3: 1, 4: 2, 6: 4}
def pngimage(w, h, depth, ctype, seed, key=None, icc=None, lace=False):
    """a PNG without a palette; key: the samples of a pixel that is transparent"""
    n = CH[ctype]; src = noise(w * h * n, seed); top = (1 << depth) - 1
    v = [(b * 257 if depth == 16 else b & top) for b in src]
    px = [[tuple(v[(y * w + x) * n:(y * w + x + 1) * n]) for x in range(w)] for y in range(h)]
    trns = None
    if key is not None:
        key = px[key[1]][key[0]]; trns = b''.join(struct.pack('>H', s) for s in key)
    data = png(w, h, depth, ctype, px, trns=trns, icc=icc, lace=lace)
    eight = lambda s: s * 255 // top
    nc = 3 if ctype & 2 else 1
    pix = bytes(eight(s) for r in px for p in r for s in p[:nc])
    al = bytes(eight(p[nc]) for r in px for p in r) if ctype & 4 else bytes(0 if p == key else 255 for r in px for p in r) if key is not None else b''
    return data, dict(w=w, hh=h, cs=RGB if ctype & 2 else GRAY, pd=8, ad=8 if al else 0, pix=pix, al=al)
W, B = (255, 255, 255), (0, 0, 0)
def pngpal(w, h, depth, seed, plte, trns=None, lace=False):
    """a PNG with a palette; what it shows when the palette is black, white and transparent"""
    src = noise(w * h, seed); px = [[(src[y * w + x] % len(plte),) for x in range(w)] for y in range(h)]
    data = png(w, h, depth, 3, px, plte, trns, lace=lace)
    al = [trns[k] if trns is not None and k < len(trns) else 255 for k in range(len(plte))]
    okp = len(plte) == 2 or (len(plte) in (3, 4) and trns is not None)
    if not okp or any(a not in (0, 255) for a in al) or any(a and c not in (W, B) for c, a in zip(plte, al)): return data, None
    return data, dict(two=trns is None, w=w, hh=h, cs=GRAY, pd=1, ad=1 if trns is not None else 0, pix=bits([[int(plte[p[0]] == W) for p in r] for r in px]),
                      al=bits([[int(al[p[0]] > 0) for p in r] for r in px]) if trns is not None else b'')

# ---- TIFF
def tiff(w, h, nspp, photo, data, end='<', bps=8, planar=1, extra=None, icc=None, comp=1, rps=None):
    f = lambda s, *v: struct.pack(end + s, *v)
    rps = rps or h; stride = w * nspp * bps // 8
    strips = [data[k * stride:(k + rps) * stride] for k in range(0, h, rps)]
    if planar == 2: strips = [bytes(data[c::nspp]) for c in range(nspp)]
    if comp == 8: strips = [zlib.compress(s) for s in strips]
    out = bytearray((b'II' if end == '<' else b'MM') + f('HI', 42, 0)); off = []
    for s in strips:
        off.append(len(out)); out += s
        if len(out) % 2: out += b'\0'
    tags = [(256, 4, [w]), (257, 4, [h]), (258, 3, [bps] * nspp), (259, 3, [comp]), (262, 3, [photo]), (273, 4, off), (277, 3, [nspp]), (278, 4, [h if planar == 2 else rps]),
            (279, 4, [len(s) for s in strips]), (284, 3, [planar])]
    if photo == 5: tags.append((332, 3, [1]))
    if extra: tags.append((338, 3, extra))
    if icc: tags.append((34675, 7, icc))
    ent = []
    for t, ty, v in sorted(tags, key=lambda x: x[0]):
        d = bytes(v) if ty == 7 else b''.join(f('H' if ty == 3 else 'I', x) for x in v)
        if len(d) > 4:
            o = len(out); out += d + (b'\0' if len(d) % 2 else b''); d4 = f('I', o)
        else: d4 = d.ljust(4, b'\0')
        ent.append(f('HHI', t, ty, len(v)) + d4)
    out[4:8] = f('I', len(out))
    return bytes(out) + f('H', len(ent)) + b''.join(ent) + f('I', 0)
PHOTO = {GRAY: 1, RGB: 2, CMYK: 5}
def tiffimage(w, h, cs, seed, alpha=False, **k):
    n = NCH[cs] + alpha; d = noise(w * h * n, seed)
    pix = bytes(b for i, b in enumerate(d) if i % n < NCH[cs]); al = d[n - 1::n] if alpha else b''
    return tiff(w, h, n, PHOTO[cs], d, extra=[2] if alpha else None, **k), dict(w=w, hh=h, cs=cs, pd=8, ad=8, pix=pix, al=al)

# ---- JPEG: every coefficient is zero
def jpeg(w, h, n, adobe=None, jfif=False, icc=None, prec=8):
    seg = lambda m, d: bytes([0xff, m]) + struct.pack('>H', len(d) + 2) + d
    out = b'\xff\xd8'
    if jfif: out += seg(0xe0, b'JFIF\0\1\1\0\0\1\0\1\0\0')
    if icc:
        part = [icc[k:k + 65000] for k in range(0, len(icc), 65000)]
        for k, p in enumerate(part): out += seg(0xe2, b'ICC_PROFILE\0' + bytes([k + 1, len(part)]) + p)
    if adobe is not None: out += seg(0xee, b'Adobe' + struct.pack('>HHHB', 100, 0, 0, adobe))
    out += seg(0xdb, b'\0' + bytes([1] * 64))
    out += seg(0xc0 if prec == 8 else 0xc1, struct.pack('>BHHB', prec, h, w, n) + b''.join(bytes([k + 1, 0x11, 0]) for k in range(n)))
    one = bytes([1] + [0] * 15) + b'\0'
    out += seg(0xc4, b'\x00' + one) + seg(0xc4, b'\x10' + one)
    out += seg(0xda, bytes([n]) + b''.join(bytes([k + 1, 0]) for k in range(n)) + b'\0\x3f\0')
    nb = 2 * n * ((w + 7) // 8) * ((h + 7) // 8); pad = -nb % 8
    return out + (((1 << pad) - 1).to_bytes((nb + 7) // 8, 'big') if nb else b'') + b'\xff\xd9'
def jpgimage(w, h, n, **k): return jpeg(w, h, n, **k), dict(w=w, hh=h, cs={1: GRAY, 3: RGB, 4: CMYK}[n], src='jpg', dec=int(n == 4 and k.get('adobe') is not None))

CAT = None
def catalogue():
    """-> name -> (bytes or None, what it shows or None, how it can be loaded, its profile)"""
    global CAT
    if CAT is not None: return CAT
    C = {}; icc = {}
    gray, srgb = saved(grayprofile(2.2)), saved(lcms().cmsCreate_sRGBProfile())
    adobe = open(os.path.join(REPO, 'testdata/icc/compatibleWithAdobeRGB1998.icc'), 'rb').read(); cmyk = open(os.path.join(REPO, 'testdata/icc/FOGRA29L.icc'), 'rb').read()
    PG, PS, PA, PC = '@I/gray.icc', '@I/srgb.icc', '@T/icc/compatibleWithAdobeRGB1998.icc', '@T/icc/FOGRA29L.icc'
    C['gray.icc'] = (gray, None, '', ''); C['srgb.icc'] = (srgb, None, '', '')
    def intent(b): return b[:64] + (1 + int.from_bytes(b[64:68], 'big') % 3).to_bytes(4, 'big') + b[68:]          # another profile of the same size
    C['gray2.icc'] = (intent(gray), None, '', ''); C['srgb2.icc'] = (intent(srgb), None, '', '')
    def put(name, x, how='fm', prof=''):
        assert name not in C; C[name] = (x[0], x[1], how if x[1] else '', prof)
    s = [1]
    def nx(): s[0] += 1; return s[0]
    for ct, nm, depths in ((0, 'gray', (1, 2, 4, 8, 16)), (2, 'rgb', (8, 16)), (4, 'ga', (8, 16)), (6, 'rgba', (8, 16))):
        for d in depths: put('%s%d.png' % (nm, d), pngimage(*((5, 3) if d > 4 else (11, 2)), d, ct, nx()))
    put('gray1w.png', pngimage(17, 2, 1, 0, nx())); put('rgbl.png', pngimage(9, 7, 8, 2, nx(), lace=True)); put('rgbal.png', pngimage(6, 5, 8, 6, nx(), lace=True)); put('gray1l.png', pngimage(10, 9, 1, 0, nx(), lace=True))
    put('graykey.png', pngimage(4, 3, 8, 0, nx(), key=(1, 1))); put('gray2key.png', pngimage(7, 3, 2, 0, nx(), key=(2, 0))); put('rgbkey.png', pngimage(3, 3, 8, 2, nx(), key=(0, 2))); put('gray16key.png', pngimage(4, 2, 16, 0, nx(), key=(3, 1)))
    put('grayicc.png', pngimage(4, 2, 8, 0, nx(), icc=gray), prof=PG); put('gaicc.png', pngimage(3, 2, 8, 4, nx(), icc=gray), prof=PG)
    put('rgbicc.png', pngimage(3, 2, 8, 2, nx(), icc=adobe), prof=PA); put('rgbaicc.png', pngimage(2, 3, 8, 6, nx(), icc=srgb), prof=PS)
    put('one.png', pngimage(1, 1, 8, 2, nx())); put('tall.png', pngimage(1, 30, 8, 0, nx()))
    for w in (1, 3, 7, 8, 9, 15, 16, 17, 20, 24): put('mono%d.png' % w, pngpal(w, 3, 1, nx(), (B, W) if w % 2 else (W, B)))
    put('mono8b.png', pngpal(19, 2, 8, nx(), (W, B))); put('mono2b.png', pngpal(10, 2, 2, nx(), (B, W))); put('monol.png', pngpal(21, 9, 1, nx(), (B, W), lace=True))
    for w in (1, 7, 8, 9, 16, 18): put('mask%d.png' % w, pngpal(w, 3, 2, nx(), *(((W, B, W), (255, 255, 0)) if w % 2 else ((B, W, B), (0,)))))
    put('mask4.png', pngpal(13, 2, 2, nx(), (B, W, B, W), (255, 255, 0, 0))); put('mask4b.png', pngpal(11, 2, 4, nx(), (W, B, W), (255, 0, 255))); put('mask2.png', pngpal(12, 2, 1, nx(), (W, B), (0,))); put('mask2b.png', pngpal(9, 2, 1, nx(), (B, W), (255, 0)))
    put('mask3n.png', pngpal(8, 2, 2, nx(), (W, B, B), (255, 255, 255))); put('maskl.png', pngpal(17, 9, 2, nx(), (W, B, W), (255, 255, 0), lace=True))
    for k, (p, t) in enumerate([(((255, 0, 0), (0, 0, 255)), None), ((W, B, W), None), ((W, B, (1, 2, 3), W), None), (tuple((i, i, i) for i in range(200)), None), (((255, 0, 0), B, W), (255, 255, 0)),
                                ((W, B, W), (255, 128, 0)), ((W,), None), ((W, (254, 255, 255)), None), ((B, W, B, W, B), (255, 255, 0)), (((255, 0, 0), B), (255, 0))]):
        put('pal%d.png' % k, pngpal(9, 2, 8 if len(p) > 16 else 4, nx(), p, t))
    for end, e in (('<', 'l'), ('>', 'b')):
        for cs, nm in ((GRAY, 'gray'), (RGB, 'rgb'), (CMYK, 'cmyk')):
            put('%s%s.tif' % (nm, e), tiffimage(5, 4, cs, nx(), end=end, rps=3)); put('%sa%s.tif' % (nm, e), tiffimage(3, 4, cs, nx(), alpha=True, end=end))
    put('rgbz.tiff', tiffimage(6, 3, RGB, nx(), comp=8)); put('grayz.TIF', tiffimage(7, 3, GRAY, nx(), comp=8, rps=2)); put('graya1.TIFF', tiffimage(1, 1, GRAY, nx(), alpha=True))
    put('rgbicc.tif', tiffimage(3, 2, RGB, nx(), icc=adobe), prof=PA); put('grayaicc.tif', tiffimage(3, 2, GRAY, nx(), alpha=True, icc=gray), prof=PG); put('cmykicc.tif', tiffimage(2, 2, CMYK, nx(), icc=cmyk), prof=PC)
    # the profile of another colour space: the file is read, the image can not be used
    put('rgbbad.tif', tiffimage(2, 2, RGB, nx(), icc=gray), prof=PG); put('rgbabad.tif', tiffimage(2, 2, RGB, nx(), alpha=True, icc=gray), prof=PG); put('graybad.tif', tiffimage(2, 2, GRAY, nx(), icc=srgb), prof=PS)
    bad = lambda d: (d, None)
    put('planar.tif', bad(tiff(4, 3, 3, 2, noise(36, nx()), planar=2))); put('planara.tif', bad(tiff(4, 3, 4, 2, noise(48, nx()), planar=2, extra=[2])))
    put('sixteen.tif', bad(tiff(4, 3, 1, 1, noise(24, nx()), bps=16))); put('minwhite.tif', bad(tiff(4, 3, 1, 0, noise(12, nx())))); put('five.tif', bad(tiff(2, 2, 5, 2, noise(20, nx()), extra=[2, 0])))
    put('ycc.tif', bad(tiff(4, 4, 3, 6, noise(48, nx())))); put('twochan.tif', bad(tiff(2, 2, 2, 5, noise(8, nx()))))
    put('gray.jpg', jpgimage(9, 5, 1)); put('grayj.jpeg', jpgimage(16, 8, 1, jfif=True)); put('ycc.jpg', jpgimage(7, 17, 3, jfif=True)); put('rgb0.JPG', jpgimage(3, 3, 3, adobe=0)); put('ycc1.JPEG', jpgimage(8, 8, 3, adobe=1))
    put('cmyk.jpg', jpgimage(4, 4, 4)); put('cmyk0.jpg', jpgimage(5, 4, 4, adobe=0)); put('ycck.jpg', jpgimage(4, 6, 4, adobe=2))
    put('grayicc.jpg', jpgimage(4, 4, 1, icc=gray), prof=PG); put('rgbicc.jpg', jpgimage(4, 4, 3, jfif=True, icc=adobe), prof=PA); put('cmykicc.jpg', jpgimage(4, 4, 4, adobe=0, icc=cmyk), prof=PC); put('badicc.jpg', jpgimage(4, 4, 3, jfif=True, icc=gray), prof=PG)
    put('twelve.jpg', bad(jpeg(4, 4, 1, prec=12)))
    # the name decides when it says what the file is; the first bytes when it does not
    for nm, src in (('plain-png', 'rgba8.png'), ('plain-mono', 'mono17.png'), ('plain-tif', 'cmykal.tif'), ('plain-tifb', 'rgbb.tif'), ('plain-jpg', 'ycc.jpg'), ('plain.dat', 'grayicc.jpg')): C[nm] = C[src]
    for nm, src in (('png-as.jpg', 'rgb8.png'), ('jpg-as.png', 'gray.jpg'), ('tif-as.png', 'grayl.tif'), ('png-as.tif', 'ga8.png')): C[nm] = (C[src][0], C[src][1], 'm', '')
    C['big.PNG'] = C['rgb8.png']
    put('empty.png', bad(b'')); put('empty.tif', bad(b'')); put('empty.jpg', bad(b'')); put('empty', bad(b'')); put('short', bad(b'\x89PNG\r\n')); put('garbage', bad(noise(200, 999))); put('garbage.png', bad(noise(200, 998)))
    put('garbage.tif', bad(noise(200, 997))); put('garbage.jpg', bad(noise(200, 996)))
    put('cut.png', bad(C['rgba8.png'][0][:60])); put('cut2.png', bad(C['mono20.png'][0][:-30])); put('cut.tif', bad(C['rgbl.tif'][0][:40])); put('cut.jpg', bad(C['ycc.jpg'][0][:60])); put('cuticc', bad(C['rgbicc.png'][0][:200]))
    C['missing.png'] = C['missing.tif'] = C['missing.jpg'] = C['missing'] = (None, None, '', '')
    C['dir'] = C['dir.png'] = C['dir.tif'] = C['dir.jpg'] = ('dir', None, '', '')
    CAT = C
    return C
def make():
    """put the files where the library finds them"""
    os.makedirs(DIR, exist_ok=True)
    for n, (d, e, how, prof) in catalogue().items():
        p = os.path.join(DIR, n)
        if d is None: continue
        if d == 'dir': os.makedirs(p, exist_ok=True); continue
        try:
            if open(p, 'rb').read() == d: continue
        except OSError: pass
        t = p + '.%d~' % os.getpid()
        with open(t, 'wb') as f: f.write(d)
        os.replace(t, p)
def wide(name):
    """is it an image of a two colour palette, of more than eight pixels in a row?  (a known finding)"""
    e = catalogue()[name][1]
    return bool(e and e.get('two') and e['w'] > 8)
def shifted(name):
    """what the library reads from such an image: the rows move left by a pixel, except for their last byte"""
    e = catalogue()[name][1]; w = e['w']; n = (w + 7) // 8; out = b''
    for y in range(e['hh']):
        r = [e['pix'][y * n + x // 8] >> (7 - x % 8) & 1 for x in range(w)]
        last = 8 * ((w - 1) // 8)
        out += pack(r[1:last + 1] + [1] + r[last + 1:], 1)
    return out
def data(name, part):
    n, e = catalogue()[name][:2]
    if part == 'shifted': return shifted(name)
    return e['pix' if part == 'pix' else 'al']
def table():
    T = {}
    for n, (d, e, how, prof) in catalogue().items():
        p = '@I/' + n; E = e if how else None
        r = dict(file='f' in how, mem='m' in how, src='', w=0, hh=0, cs=0, pd=8, ad=0, pix='', al='', icc=prof if how else '', len=0, dec=0)
        if E: r.update({k: v for k, v in E.items() if k not in ('pix', 'al', 'two')})
        if E and E.get('src') == 'jpg': r.update(pix='file:' + p, len=len(d))
        elif E: r.update(src='raw', pix='img:%s:pix' % n, al='img:%s:alpha' % n if E['al'] else '', len=len(E['pix']))
        T[p] = r
    return T
if __name__ == '__main__':
    make(); t = table()
    print(len(t), 'files')
