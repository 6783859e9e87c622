"""Small font files of the kinds the test fonts do not have, made from scratch into .build/fonts (paths
'@F/..'): TrueType collections, short hmtx, kern tables, nested and transformed composites, both loca
formats; CFF fonts with every optional part present or absent, CID-keyed ones with several font
dictionaries among them."""
import os, struct, shutil, tempfile
HERE = os.path.dirname(os.path.abspath(__file__))
DIR = os.path.join(os.path.dirname(HERE), '.build', 'fonts')
CODES = [32] + [ord(x) for x in 'ABCDEFGHabcdefgh'] + [0xc4, 0xe4, 0x3b1, 0x2192, 0x1d400]
H = lambda *v: b''.join(struct.pack('>h' if x < 0 else '>H', x) for x in v)
I4 = lambda *v: b''.join(struct.pack('>I', x & 0xffffffff) for x in v)

# ---- sfnt ----------------------------------------------------------------------------------
def checksum(b):
    b += b'\0' * (-len(b) % 4); return sum(struct.unpack('>%dI' % (len(b) // 4), b)) & 0xffffffff
def sfnt(fonts, tag=b'\0\1\0\0'):
    """one file of the fonts, a collection when there are several; equal tables are stored once"""
    dirs = [12 + 16 * len(t) for t in fonts]
    head = b'' if len(fonts) == 1 else b'ttcf' + I4(0x10000, len(fonts))
    at = len(head) + (4 * len(fonts) if head else 0); starts = []
    for d in dirs: starts.append(at); at += d
    pos = {}; body = b''
    for t in fonts:
        for n in sorted(t):
            if t[n] not in pos: pos[t[n]] = at + len(body); body += t[n] + b'\0' * (-len(t[n]) % 4)
    out = head + (I4(*starts) if head else b'')
    for t in fonts:
        n = len(t); e = n.bit_length() - 1
        out += tag + H(n, 16 << e, e, 16 * n - (16 << e))
        for k in sorted(t): out += k.encode() + I4(checksum(t[k]), pos[t[k]], len(t[k]))
    return out + body
def cmap4(m):
    m = sorted((c, g) for c, g in m.items() if c < 0x10000) + [(0xffff, 0)]
    n = len(m); e = n.bit_length() - 1
    d = H(2 * n, 2 << e, e, 2 * n - (2 << e)) + H(*[c for c, g in m]) + H(0) + H(*[c for c, g in m]) + H(*[(g - c) % 65536 for c, g in m]) + H(*[0] * n)
    return H(4, len(d) + 6, 0) + d
def cmap12(m): return H(12, 0) + I4(16 + 12 * len(m), 0, len(m)) + b''.join(I4(c, c, g) for c, g in sorted(m.items()))
def cmap0(m): return H(0, 262, 0) + bytes(m.get(c, 0) if c < 128 and m.get(c, 0) < 256 else 0 for c in range(256))
def cmap(m, subs):
    l = {'0': (1, 0, cmap0), '4': (3, 1, cmap4), '12': (3, 10, cmap12)}; l = [l[s] for s in subs]
    off = 4 + 8 * len(l); h = H(0, len(l)); b = b''
    for p, e, f in l: x = f(m); h += H(p, e) + I4(off + len(b)); b += x
    return h + b
def name(ps):
    recs = [(1, ps), (2, 'Regular'), (4, ps), (6, ps)]; s = b''; h = b''
    for i, t in recs: t = t.encode('utf-16-be'); h += H(3, 1, 0x409, i, len(t), len(s)); s += t
    return H(0, len(recs), 6 + 12 * len(recs)) + h + s
def common(ps, upem, bbox, widths, lsb, nh, codes, subs, loc=0):
    t = {'head': H(1, 0) + I4(0x10000, 0, 0x5F0F3CF5) + H(3, upem) + b'\0' * 16 + H(*bbox) + H(0, 8, 2, loc, 0),
         'hhea': H(1, 0, 800, -200, 0, max(widths), 0, 0, 500, 1, 0, 0, 0, 0, 0, 0, 0, nh),
         'hmtx': b''.join(H(widths[k], lsb[k]) for k in range(nh)) + H(*lsb[nh:]),
         'cmap': cmap(codes, subs), 'name': name(ps), 'post': I4(0x30000, 0) + H(-100, 50) + I4(0, 0, 0, 0, 0)}
    return t

# ---- TrueType ------------------------------------------------------------------------------
def simple(contours):
    """contours of (x, y, on-curve)"""
    ends = []; flags = b''; xs = b''; ys = b''; px = py = n = 0
    for c in contours:
        for x, y, on in c: flags += bytes([on]); xs += H(x - px); ys += H(y - py); px, py = x, y
        n += len(c); ends.append(n - 1)
    p = [q for c in contours for q in c]
    d = H(len(contours), min(x for x, _, _ in p), min(y for _, y, _ in p), max(x for x, _, _ in p), max(y for _, y, _ in p)) + H(*ends) + H(0) + flags + xs + ys
    return d, len(p), len(contours)
def composite(parts, box=(0, 0, 600, 700)):
    """parts: (glyph, dx, dy, transformation in 1/64s: none, scale, x and y scale, or 2x2)"""
    d = H(-1, *box)
    for k, (g, dx, dy, tr) in enumerate(parts):
        big = not (-128 <= dx < 128 and -128 <= dy < 128)
        fl = 2 | (1 if big else 0) | (32 if k + 1 < len(parts) else 0) | {0: 0, 1: 8, 2: 64, 4: 128}[len(tr)]
        d += H(fl, g) + (H(dx, dy) if big else struct.pack('>bb', dx, dy)) + H(*[t * 256 for t in tr])
    return d
def rect(x, y, w, h): return [(x, y, 1), (x, y + h, 1), (x + w, y + h, 1), (x + w, y, 1)]
def round_(x, y, w, h): return [(x, y, 0), (x, y + h, 0), (x + w, y + h, 0), (x + w, y, 0)]
def truetype(ps, upem=1000, seed=0, nh=None, long_=False, kern=False, subs=('4',), extra=()):
    n = 1 + len(CODES) + 2; G = [None] * n; pts = con = cp = cc = 0; codes = {c: k + 1 for k, c in enumerate(CODES)}
    for k in range(n):
        if k == codes[32]: G[k] = b''; continue
        s = [rect(40 + 3 * k, 10 * (seed + k % 5), 200 + 7 * k, 300 + 11 * ((k * 7 + seed) % 23))] + ([round_(90, 40 + k, 60 + seed, 90 + 2 * k)] if k % 3 else [])
        G[k], a, b = simple(s); pts = max(pts, a); con = max(con, b)
    A, E = codes[ord('A')], codes[ord('a')]
    G[codes[0xc4]] = composite([(A, 0, 0, ()), (E, 120, 300, (32,))])                          # scaled accent
    G[codes[0xe4]] = composite([(E, -40, 10, (48, 80)), (codes[ord('b')], 5, 500, (64, 16, -16, 64))])
    G[codes[0x3b1]] = composite([(codes[0xe4], 0, 0, ()), (codes[ord('c')], 9, -9, ())])        # nested
    G[codes[0x2192]] = composite([(codes[0x3b1], 0, 0, ()), (n - 1, 0, 0, ()), (n - 1, 200, 200, (32,))])    # nested twice, a part of its own
    if long_: G = [g + b'\0' * (-len(g) % 4) for g in G]
    G = [g + b'\0' * (len(g) % 2) for g in G]; off = [0]
    for g in G: off.append(off[-1] + len(g))
    nh = nh or n; w = [250 + 17 * ((k * 5 + seed) % 29) for k in range(n)]; w[nh:] = [w[nh - 1]] * (n - nh)
    lsb = [struct.unpack('>h', g[2:4])[0] if g else 0 for g in G]
    t = common(ps, upem, (0, -50, 700, 900), w, lsb, nh, codes, subs, int(long_))
    t['glyf'] = b''.join(G); t['loca'] = I4(*off) if long_ else H(*[o // 2 for o in off])
    t['maxp'] = I4(0x10000) + H(n, pts, con, 40, 10, 2, 0, 0, 0, 0, 0, 64, 0, 3, 3)
    if kern:
        pr = [(A, E, -80), (A, E + 1, 40), (E, A, -30)]
        t['kern'] = H(0, 1) + H(0, 14 + 6 * len(pr), 1) + H(len(pr), 12, 1, 6) + b''.join(H(*p) for p in pr)
    for k in extra: t[k] = {'cvt ': H(10, 20, 30), 'fpgm': bytes([0xb0, 0, 0x2c, 0x2d]), 'prep': bytes([0xb0, 1, 0x21]), 'gasp': H(0, 1, 0xffff, 15)}[k]
    return t

# ---- CFF -----------------------------------------------------------------------------------
def index(l, sz=1):
    if not l: return H(0)
    o = [1]
    for x in l: o.append(o[-1] + len(x))
    while o[-1] >= 1 << 8 * sz: sz += 1
    return H(len(l)) + bytes([sz]) + b''.join(x.to_bytes(sz, 'big') for x in o) + b''.join(l)
class Long(int): pass          # always five bytes
class Short(int): pass         # always three bytes
def num(v):
    if isinstance(v, float) or isinstance(v, str):
        s = ''.join({'.': 'a', '-': 'e', 'E-': 'c'}.get(c, c) for c in str(v).replace('e-0', 'E').replace('e-', 'E').replace('E', 'c')) + 'f'
        return b'\x1e' + bytes.fromhex(s + 'f' * (len(s) % 2))
    if isinstance(v, Long) or not -32768 <= v < 32768: return b'\x1d' + struct.pack('>i', v)
    if isinstance(v, Short): return b'\x1c' + struct.pack('>h', v)
    if -107 <= v <= 107: return bytes([v + 139])
    if 108 <= v <= 1131: return bytes([247 + (v - 108) // 256, (v - 108) % 256])
    if -1131 <= v <= -108: return bytes([251 + (-v - 108) // 256, (-v - 108) % 256])
    return b'\x1c' + struct.pack('>h', v)
def dict_(l):
    out = b''
    for op, v in l: out += b''.join(num(x) for x in v) + (bytes([op]) if op < 256 else bytes([op >> 8, op & 255]))
    return out
def csn(v): return num(v) if -1131 <= v <= 1131 else b'\x1c' + struct.pack('>h', v)
def cs(*l): return b''.join(csn(x) if isinstance(x, int) else bytes([{'hmoveto': 22, 'rmoveto': 21, 'rlineto': 5, 'hlineto': 6, 'vlineto': 7, 'rrcurveto': 8, 'callsubr': 10, 'callgsubr': 29, 'return': 11, 'endchar': 14, 'hstem': 1}[x]]) for x in l)
LS = lambda fd: [cs(100 + 50 * fd, 'hlineto', 30, 'vlineto', 'return'), cs(-60 - 10 * fd, 40, 20, -100, 30 + fd, 80, 'rrcurveto', 'return'), cs(20 + fd, 160, 'rlineto', 'return')]
GS = [cs(33, 'vlineto', -20, 44, 'rlineto', 'return'), cs(55, -11, 'rlineto', 'return')]
def shape(k, fd, width, gsub):
    out = list(width) + [30 + 5 * k, 10 + 3 * k, 'rmoveto', 80 + 10 * k, 'hlineto', k % 3 - 107, 'callsubr', 90 + 4 * k, 'vlineto']
    if gsub: out += [k % 2 - 107, 'callgsubr']
    out += [(k + 1) % 3 - 107, 'callsubr']
    if k % 2: out += [11, 400, 'rmoveto', 70, 'hlineto', 70, -2000 + 2000 - 30, 'rlineto', 2 - 107, 'callsubr']
    return cs(*out, 'endchar')
def cff(ps, upem=1000, top=(), names='custom', cid=0, fdsel=3, charset=0, offsize=1, gsub=True, subrs='last', private=(), strings=(), fdmatrix=False, cidextra=('ver', 'count'), nullpriv=False):
    n = 1 + len(CODES); codes = {c: k + 1 for k, c in enumerate(CODES)}
    S = [s.encode() for s in strings]
    def sid(t):
        t = t.encode()
        if t not in S: S.append(t)
        return 391 + S.index(t)
    if cid: ros = [(3102, [sid('Adobe'), sid('Identity'), 0])]
    fdof = [(k * cid // n if fdsel == 3 else k % cid) if cid else 0 for k in range(n)]
    if fdsel == 'mixed': fdof = [(k // 2) % cid for k in range(n)]
    nominal = [-300 - 40 * f for f in range(max(cid, 1))]
    widths = [420 + 13 * k for k in range(n)]
    G = []
    for k in range(n):
        w = (widths[k] - nominal[fdof[k]],) if widths[k] != 500 else ()
        if CODES[k - 1] == 32 and k: G.append(cs(*w, 'endchar'))
        else: G.append(shape(k, fdof[k], w, gsub))
    if cid: ids = list(range(1, n))
    elif names == 'standard': ids = list(range(1, n))
    else: ids = [sid('glyph%02d' % k) for k in range(1, n)]
    if charset == 0: ch = b'\0' + H(*ids)
    else:
        runs = []
        for i in ids:
            if runs and runs[-1][0] + runs[-1][1] == i and not (charset == 1 and runs[-1][1] == 7): runs[-1][1] += 1
            else: runs.append([i, 1])
        ch = bytes([charset]) + b''.join(H(f) + (bytes([c - 1]) if charset == 1 else H(c - 1)) for f, c in runs)
    T = [(op, [sid(x) if op in (0, 1, 2, 3, 4) and isinstance(x, str) else x for x in v]) for op, v in top]
    def priv(f):
        e = [(20, [500]), (21, [Short(nominal[f])]), (11, [60 + 10 * f])] + list(private)
        if subrs == 'no': return e
        return {'last': e + [(19, ['SUBRS'])], 'first': [(19, ['SUBRS'])] + e, 'mid': e[:1] + [(19, ['SUBRS'])] + e[1:]}[subrs]
    def pbytes(f):
        e = [(op, [Long(0) if x == 'SUBRS' else x for x in v]) for op, v in priv(f)]; size = len(dict_(e))
        return dict_([(op, [Long(size) if x == 'SUBRS' else x for x in v]) for op, v in priv(f)]), index(LS(f))
    if upem != 1000: T = T + [(3079, [1 / upem, 0, 0, 1 / upem, 0, 0])]
    off = dict(cs=0, ch=0, fa=0, fs=0, pr=0, prs=0, fd=[(0, 0)] * cid)
    for _ in range(2):
        tl = list(T)
        if cid:
            tl = ros + tl + [(3103, [1.5])] * ('ver' in cidextra) + [(3106, [n])] * ('count' in cidextra) + [(3108, [Long(off['fa'])]), (3109, [Long(off['fs'])])]
        tl += [(15, [Long(off['ch'])]), (17, [Long(off['cs'])])]
        if not cid: tl += [(18, [Long(off['prs']), Long(off['pr'])])]
        b = bytes([1, 0, 4, 4]) + index([ps.encode()]) + index([dict_(tl)]) + index(S, offsize) + index(GS if gsub else [])
        off['ch'] = len(b); b += ch
        off['cs'] = len(b); b += index(G, offsize)
        if cid:
            off['fs'] = len(b)
            if fdsel == 0: b += b'\0' + bytes(fdof)
            else:
                r = [(k, fdof[k]) for k in range(n) if not k or fdof[k] != fdof[k - 1]]
                b += b'\3' + H(len(r)) + b''.join(H(k) + bytes([f]) for k, f in r) + H(n)
            for f in range(cid): p, s = pbytes(f); off['fd'][f] = (len(p), len(b)); b += p + (s if subrs != 'no' else b'')
            off['fa'] = len(b)
            m = [(3079, [1.0, 0, 0, 1.0, 0, 0])] if fdmatrix else []
            b += index([dict_(m + [(18, [Long(a), Long(z)])]) for a, z in off['fd']], offsize)
        else: p, s = pbytes(0); off['pr'] = len(b); off['prs'] = len(p); b += p + (s if subrs != 'no' else b'')
    t = common(ps, upem, (0, 0, 700, 900), widths, [30] * n, n, codes, ('4', '12'))
    t['maxp'] = I4(0x5000) + H(n); t['CFF '] = b
    return t
FULL = [(1, ['A notice']), (2, ['Full Name']), (3, ['Family']), (4, ['Regular']), (5, [0, -10, 700, 900])]
def fonts():
    OT = b'OTTO'
    return {
     'kern.ttf': ([truetype('Kern', kern=True, subs=('0', '4'))], b'\0\1\0\0'),
     'mono.ttf': ([truetype('Mono', nh=3, seed=2, extra=('cvt ', 'fpgm', 'prep', 'gasp'))], b'\0\1\0\0'),
     'big.ttf': ([truetype('Big', upem=2000, seed=4, long_=True, subs=('4', '12'))], b'true'),
     'two.ttc': ([truetype('TwoA', seed=1), truetype('TwoB', upem=2000, seed=9, nh=5, long_=True)], b'\0\1\0\0'),
     'hash.ttf': ([truetype('Ha#20sh', seed=3)], b'\0\1\0\0'), 'noname.ttf': ([truetype('', seed=5)], b'\0\1\0\0'),
     'full.otf': ([cff('Full', top=FULL)], OT),
     'bare.otf': ([cff('Bare')], OT),
     'some.otf': ([cff('Some', top=[(4, ['Bold']), (2, ['X'])], charset=1, offsize=2)], OT),
     'std.otf': ([cff('Std', names='standard', charset=2, top=[(5, [0, -10, 700, 900])])], OT),
     'upem.otf': ([cff('Upem', upem=2000, top=FULL, charset=2, offsize=3)], OT),
     'reals.otf': ([cff('Reals', top=FULL + [(3074, [-12.5]), (3075, [Short(-120)])], private=[(6, [Short(-15), 15, 400, 15]), (3081, [0.0375]), (3083, [7]), (10, [80])], subrs='mid')], OT),
     'first.otf': ([cff('First', top=FULL, subrs='first', gsub=False, offsize=4)], OT),
     'cid3.otf': ([cff('CidThree', cid=3, top=FULL)], OT),
     'cid0.otf': ([cff('CidZero', cid=2, fdsel=0, top=FULL, charset=2)], OT),
     'cidmix.otf': ([cff('CidMix', cid=3, fdsel='mixed', top=FULL[:3], charset=1, offsize=2, subrs='first', cidextra=('count',))], OT),
     'cidbare.otf': ([cff('CidBare', cid=2, fdsel=0, cidextra=())], OT),
     'cidupem.otf': ([cff('CidUpem', cid=2, upem=2000, fdmatrix=True, top=FULL)], OT),
    }
def make():
    """files appear whole or not at all; several checks may run at once"""
    tmp = None
    for n, (f, tag) in fonts().items():
        b = sfnt(f, tag); p = os.path.join(DIR, n)
        if not os.path.isfile(p) or open(p, 'rb').read() != b:
            os.makedirs(DIR, exist_ok=True); fd, tmp = tempfile.mkstemp(dir=DIR); os.write(fd, b); os.close(fd); os.rename(tmp, p)
NAMES = tuple('@F/' + n for n in fonts())
def faces(n): return len(fonts()[n[3:]][0])
if __name__ == '__main__':
    import glyphs
    make()
    for n in NAMES:
        b = open(os.path.join(DIR, n[3:]), 'rb').read()
        for k in range(faces(n)):
            ff = glyphs.open_(b, k)
            if not ff: print(n, k, 'cannot be opened'); continue
            l = [glyphs.glyph(ff, g) for g in range(ff[1].num_glyphs)]
            print(n, k, len(b), ff[1].num_glyphs, ff[1].upem, list(ff[1].bbox), l.count(None), len({x[0] for x in l if x}), l[2])
