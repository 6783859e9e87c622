"""A font as a PDF file gives it: dictionaries, embedded font program, widths.  `facts` is
what it says, `problems` what is wrong with it whatever it should say."""
import struct, re, ctypes, hashlib
import pdfparse, glyphs, fontinfo
from pdfparse import Name, Ref, Num, Stream, decode_stream

def digest(x): return hashlib.blake2b(repr(x).encode(), digest_size=3).hexdigest()
def program(data, sub=0):
    """the part of a font file that says how to hint its glyphs"""
    at = struct.unpack('>I', data[12 + 4*sub:16 + 4*sub])[0] if data[:4] == b'ttcf' else 0
    t = {}
    for k in range(struct.unpack('>H', data[at+4:at+6])[0]):
        tag, _, o, l = struct.unpack('>4sIII', data[at + 12 + 16*k:at + 28 + 16*k]); t[tag] = data[o:o+l]
    return Cff(t[b'CFF ']) if b'CFF ' in t else TT(t)
class TT:
    def __init__(self, t): self.t = t
    def hint(self, gid): return digest([self.t.get(k, b'') for k in (b'cvt ', b'fpgm', b'prep')])
class Sfnt(TT):
    """TrueType font program, checked table by table"""
    def __init__(self, b):
        self.p = []; self.b = b; self.t = {}
        try: self.read()
        except (struct.error, IndexError, KeyError, ValueError) as ex: self.p.append('font program cannot be read: %s %s' % (type(ex).__name__, ex))
    def read(self):
        b = self.b; p = self.p
        ver, n, sr, es, rs = struct.unpack('>IHHHH', b[:12])
        if ver not in (0x00010000, 0x74727565): p.append('sfnt version %x' % ver)
        e = n.bit_length() - 1
        if (sr, es, rs) != (16 << e, e, 16 * n - (16 << e)): p.append('table directory search fields are wrong')
        spans = []
        for k in range(n):
            tag, cs, off, ln = struct.unpack('>4sIII', b[12 + 16*k:28 + 16*k])
            if off + ln > len(b): p.append('table %s goes past the end' % tag.decode('latin-1'))
            if tag in self.t: p.append('table %s appears twice' % tag.decode('latin-1'))
            d = b[off:off+ln]; self.t[tag] = d; spans.append((off, off + ln))
            x = d if tag != b'head' else d[:8] + b'\0\0\0\0' + d[12:]
            if self.sum(x) != cs: p.append('checksum of table %s is wrong' % tag.decode('latin-1'))
        spans.sort()
        if spans and spans[0][0] < 12 + 16 * n: p.append('a table overlaps the directory')
        if any(a[1] > c[0] and c[0] != c[1] for a, c in zip(spans, spans[1:])): p.append('tables overlap')
        for q in (b'glyf', b'head', b'hhea', b'hmtx', b'loca', b'maxp'):
            if q not in self.t: p.append('no %s table' % q.decode()); return
        h = self.t[b'head']
        if len(h) != 54 or h[12:16] != b'\x5f\x0f\x3c\xf5': p.append('bad head table'); return
        # head.checkSumAdjustment makes the whole file add up
        i = b.index(h); whole = b[:i+8] + b'\0\0\0\0' + b[i+12:]
        if (0xB1B0AFBA - self.sum(whole)) & 0xffffffff != struct.unpack('>I', h[8:12])[0]: p.append('checkSumAdjustment is wrong')
        self.upem = struct.unpack('>H', h[18:20])[0]; lf = struct.unpack('>h', h[50:52])[0]
        m = self.t[b'maxp']; self.n = n = struct.unpack('>H', m[4:6])[0]
        if len(m) < 32: p.append('maxp is too short'); return
        maxpts, maxcont, maxcpts, maxccont = struct.unpack('>4H', m[6:14]); maxdepth = struct.unpack('>H', m[30:32])[0]
        lo = self.t[b'loca']; g = self.t[b'glyf']
        if lf not in (0, 1): p.append('indexToLocFormat %d' % lf); return
        if len(lo) < (n + 1) * (4 if lf else 2): p.append('loca has no entry for every glyph'); return
        off = list(struct.unpack('>%dI' % (n + 1), lo[:4*n+4])) if lf else [2 * x for x in struct.unpack('>%dH' % (n + 1), lo[:2*n+2])]
        if any(x > y for x, y in zip(off, off[1:])) or off[-1] > len(g): p.append('loca is not increasing within glyf'); return
        nh = struct.unpack('>H', self.t[b'hhea'][34:36])[0]
        if not 1 <= nh <= n or len(self.t[b'hmtx']) < 4 * nh + 2 * (n - nh): p.append('hmtx has no entry for every glyph')
        self.comp = {}; self.size = {}
        for k in range(n):
            d = g[off[k]:off[k+1]]
            if not d: continue
            if len(d) < 10: p.append('glyph %d is cut short' % k); continue
            nc = struct.unpack('>h', d[:2])[0]
            if nc < 0: self.composite(k, d)
            else: self.simple(k, d, nc, maxpts, maxcont)
        for k in self.comp:
            x = self.depth(k, ())
            if x is None: p.append('composite glyph %d contains itself' % k)
            elif x > max(maxdepth, 1): p.append('composite glyph %d is nested deeper than maxp says' % k)
            else:
                pt, c = self.total(k)
                if pt > maxcpts or c > maxccont: p.append('composite glyph %d has more points or contours than maxp says' % k)
    def sum(self, d):
        d += b'\0' * (-len(d) % 4)
        return sum(struct.unpack('>%dI' % (len(d) // 4), d)) & 0xffffffff
    def simple(self, k, d, nc, maxpts, maxcont):
        if nc == 0: self.size[k] = (0, 0); return          # nothing to draw; whether instructions follow does not matter
        ends = struct.unpack('>%dH' % nc, d[10:10+2*nc])
        if any(x >= y for x, y in zip(ends, ends[1:])): self.p.append('glyph %d: contour ends do not increase' % k); return
        np = ends[-1] + 1 if ends else 0
        if np > maxpts or nc > maxcont: self.p.append('glyph %d has more points or contours than maxp says' % k)
        i = 10 + 2*nc; i += 2 + struct.unpack('>H', d[i:i+2])[0]
        c = 0; xs = ys = 0
        while c < np:
            f = d[i]; i += 1; r = 1
            if f & 8: r += d[i]; i += 1
            c += r
            xs += r * (1 if f & 2 else 0 if f & 16 else 2); ys += r * (1 if f & 4 else 0 if f & 32 else 2)
        if c != np or i + xs + ys > len(d): self.p.append('glyph %d is cut short' % k)
        elif len(d) - (i + xs + ys) > 3: self.p.append('glyph %d is followed by %d stray bytes' % (k, len(d) - (i + xs + ys)))
        self.size[k] = (np, nc)
    def composite(self, k, d):
        i = 10; l = []
        while True:
            f, g = struct.unpack('>HH', d[i:i+4]); i += 4 + (4 if f & 1 else 2) + (2 if f & 8 else 4 if f & 64 else 8 if f & 128 else 0)
            l.append(g)
            if g >= self.n: self.p.append('composite glyph %d uses glyph %d of %d' % (k, g, self.n)); return
            if not f & 32: break
        if f & 256: i += 2 + struct.unpack('>H', d[i:i+2])[0]
        if i > len(d): self.p.append('composite glyph %d is cut short' % k)
        elif len(d) - i > 3: self.p.append('composite glyph %d is followed by %d stray bytes' % (k, len(d) - i))
        self.comp[k] = l
    def depth(self, k, seen):
        if k in seen: return None
        if k not in self.comp: return 0
        x = [self.depth(g, seen + (k,)) for g in self.comp[k]]
        return None if None in x else 1 + max(x)
    def total(self, k):
        if k not in self.comp: return self.size.get(k, (0, 0))
        x = [self.total(g) for g in self.comp[k]]
        return sum(a for a, _ in x), sum(b for _, b in x)

class Cff:
    """bare CFF font program"""
    def __init__(self, b):
        self.p = []; self.b = b; self.hints = []; self.fd = None
        try: self.read()
        except (struct.error, IndexError, KeyError, ValueError) as ex: self.p.append('font program cannot be read: %s %s' % (type(ex).__name__, ex))
    def index(self, i):
        b = self.b; n = struct.unpack('>H', b[i:i+2])[0]
        if n == 0: return [], i + 2
        sz = b[i+2]; o = [int.from_bytes(b[i+3+sz*k:i+3+sz*k+sz], 'big') for k in range(n + 1)]
        if not 1 <= sz <= 4 or o[0] != 1 or any(x > y for x, y in zip(o, o[1:])): raise ValueError('INDEX at %d is damaged' % i)
        base = i + 2 + sz * (n + 1)
        if base + o[-1] > len(b): raise ValueError('INDEX at %d goes past the end' % i)
        return [b[base + x:base + y] for x, y in zip(o, o[1:])], base + o[-1]
    def dict(self, d):
        out = {}; st = []; i = 0
        while i < len(d):
            v = d[i]; i += 1
            if v == 12: out[(12, d[i])] = st; st = []; i += 1
            elif v <= 21: out[v] = st; st = []
            elif v == 28: st.append(struct.unpack('>h', d[i:i+2])[0]); i += 2
            elif v == 29: st.append(struct.unpack('>i', d[i:i+4])[0]); i += 4
            elif v == 30:
                s = ''
                while True:
                    x = d[i]; i += 1; s += '%02x' % x
                    if x & 15 == 15 or x >> 4 == 15: break
                s = ''.join({'a': '.', 'b': 'E', 'c': 'E-', 'e': '-'}.get(x, x) for x in s.rstrip('f')); v = float(s)
                st.append(int(v) if v == int(v) else v)
            elif 32 <= v <= 246: st.append(v - 139)
            elif v <= 250: st.append((v - 247) * 256 + d[i] + 108); i += 1
            elif v <= 254: st.append(-(v - 251) * 256 - d[i] - 108); i += 1
            else: raise ValueError('reserved byte %d in a DICT' % v)
        if st: self.p.append('DICT ends with operands')
        return out
    def hint(self, gid): return self.hints[self.fd[gid] if self.fd else 0]
    def private(self, d, where):
        if 18 not in d: self.p.append('no Private dictionary in ' + where); return
        n, o = d[18]
        if n < 0 or o < 0 or o + n > len(self.b): self.p.append('Private dictionary of %s is outside the font' % where); return
        q = self.dict(self.b[o:o+n])
        if 19 in q: self.index(o + q[19][0])
        self.hints.append(digest(sorted((str(k), v) for k, v in q.items() if k not in (19, 20, 21))))
    def read(self):
        b = self.b
        if b[0] != 1 or not 1 <= b[3] <= 4: self.p.append('bad CFF header')
        names, i = self.index(b[2]); tops, i = self.index(i); strs, i = self.index(i); gsub, i = self.index(i)
        if len(names) != 1 or len(tops) != 1: self.p.append('%d names, %d fonts' % (len(names), len(tops)))
        t = self.dict(tops[0])
        for k in (15, 17):
            if k not in t: self.p.append('no entry %d in the top dictionary' % k); return
        cs, _ = self.index(t[17][0]); n = self.n = len(cs)
        def sid(x):
            if x >= 391 + len(strs): self.p.append('string %d does not exist' % x)
        for k in (0, 1, 2, 3, 4):
            if k in t: sid(t[k][0])
        o = t[15][0]; self.cid = {0: 0}
        if o > 2:
            f = b[o]; o += 1; g = 1
            while g < n:
                if f == 0: ids = [struct.unpack('>H', b[o:o+2])[0]]; o += 2
                else:
                    first = struct.unpack('>H', b[o:o+2])[0]; left = b[o+2] if f == 1 else struct.unpack('>H', b[o+2:o+4])[0]; o += 3 if f == 1 else 4
                    ids = range(first, first + left + 1)
                for x in ids:
                    if x in self.cid: self.p.append('charset names %d twice' % x)
                    self.cid[x] = g; g += 1
            if g > n: self.p.append('charset names more glyphs than there are')
        if (12, 30) not in t:
            self.cid = {k: k for k in range(n)}; self.private(t, 'font'); return
        r = t[(12, 30)]; sid(r[0]); sid(r[1])
        if next(iter(t)) != (12, 30): self.p.append('ROS is not the first entry of the top dictionary')
        if (12, 36) not in t or (12, 37) not in t: self.p.append('no FDArray or FDSelect'); return
        fds, _ = self.index(t[(12, 36)][0]); o = t[(12, 37)][0]
        for k, d in enumerate(fds): self.private(self.dict(d), 'font dictionary %d' % k)
        if b[o] == 0: sel = list(b[o+1:o+1+n])
        elif b[o] == 3:
            nr = struct.unpack('>H', b[o+1:o+3])[0]; sel = []; prev = None
            rg = [struct.unpack('>HB', b[o+3+3*k:o+6+3*k]) for k in range(nr)]; sent = struct.unpack('>H', b[o+3+3*nr:o+5+3*nr])[0]
            if not rg or rg[0][0] != 0 or sent != n: self.p.append('FDSelect does not cover the glyphs')
            for (x, fd), y in zip(rg, [q[0] for q in rg[1:]] + [sent]):
                if y <= x: self.p.append('FDSelect ranges do not increase')
                sel += [fd] * (y - x)
        else: self.p.append('FDSelect format %d' % b[o]); return
        self.fd = sel
        if len(sel) < n or any(x >= len(fds) for x in sel): self.p.append('FDSelect names a missing font dictionary')

class Font:
    def __init__(self, view, n, lab):
        self.facts = []; self.problems = p = []; self.ff = None; self.W = {}; self.tag = None; self.labels = {}
        d = view.d(Ref(n, 0)); add = lambda k, v: self.facts.append((k, v))
        def name(x): return str(x) if isinstance(x, Name) else '?'
        if d.get('Type') != 'Font' or d.get('Subtype') != 'Type0': p.append('not a Type0 font')
        add('Encoding', '/' + name(view.get(d.get('Encoding'))))
        df = view.get(d.get('DescendantFonts'))
        if not isinstance(df, list) or len(df) != 1: p.append('not one descendant font'); return
        c = view.d(df[0])
        if c.get('Type') != 'Font': p.append('descendant is not a Font')
        add('Subtype', '/' + name(c.get('Subtype')))
        desc = view.d(c.get('FontDescriptor'))
        if desc.get('Type') != 'FontDescriptor': p.append('no font descriptor'); return
        names = {name(d.get('BaseFont')), name(c.get('BaseFont')), name(desc.get('FontName'))}
        if len(names) != 1: p.append('font names differ: %s' % sorted(names))
        m = re.match(r'([A-Z]{6})\+(.*)$', name(d.get('BaseFont')), re.S)
        if not m: p.append('no subset tag in the font name')
        self.tag = m.group(1) if m else None; add('BaseFont', m.group(2) if m else '?')
        bb = view.get(desc.get('FontBBox')) or []
        add('FontBBox', '[' + ' '.join(x.t if isinstance(x, Num) else '?' for x in bb) + ']')
        ci = view.d(c.get('CIDSystemInfo')); t = lambda k: ci[k].decode('latin-1') if isinstance(ci.get(k), bytes) else '?'
        add('CIDSystemInfo', '%s-%s-%s' % (t('Registry'), t('Ordering'), ci['Supplement'].t if isinstance(ci.get('Supplement'), Num) else '?'))
        fl = desc.get('Flags')
        if not isinstance(fl, Num) or not bool(fl.v & 4) ^ bool(fl.v & 32): p.append('neither or both of symbolic and nonsymbolic')
        for k in ('ItalicAngle', 'Ascent', 'Descent', 'CapHeight', 'StemV'):
            if not isinstance(desc.get(k), Num): p.append('no %s in the descriptor' % k)
        files = [k for k in ('FontFile', 'FontFile2', 'FontFile3') if k in desc]
        if len(files) != 1: p.append('not one font program'); return
        s = view.get(desc[files[0]])
        if not isinstance(s, Stream): p.append('font program is not a stream'); return
        prog = decode_stream(s, [], ''); sub = name(s.d.get('Subtype'))
        if 'Length1' in s.d and s.d['Length1'].v != len(prog): p.append('Length1 is %s, the font program has %d bytes' % (s.d['Length1'].t, len(prog)))
        cff = prog[:1] == b'\x01'
        if cff:
            if files[0] != 'FontFile3' or sub != 'CIDFontType0C' or c.get('Subtype') != 'CIDFontType0': p.append('a CFF font program in %s %s of a %s' % (files[0], sub, name(c.get('Subtype'))))
            F = Cff(prog); self.map = getattr(F, 'cid', {}); self.upem = None
        else:
            if not (files[0] == 'FontFile2' or files[0] == 'FontFile3' and sub == 'OpenType') or c.get('Subtype') != 'CIDFontType2': p.append('a TrueType font program in %s %s of a %s' % (files[0], sub, name(c.get('Subtype'))))
            F = Sfnt(prog)
            g = view.get(c.get('CIDToGIDMap')); n = getattr(F, 'n', 0)
            if isinstance(g, Stream):
                x = decode_stream(g, [], ''); self.map = {k: x[2*k] * 256 + x[2*k+1] for k in range(len(x) // 2)}
            else:
                if g not in (None, 'Identity'): p.append('bad CIDToGIDMap')
                self.map = {k: k for k in range(n)}
        p += sorted(set(F.p))[:6]
        self.F = F
        w = view.get(c.get('W')) or []; i = 0
        try:
            while i < len(w):
                a = w[i].v; x = view.get(w[i+1])
                if isinstance(x, list):
                    for j, y in enumerate(x): self.W[a + j] = y
                    i += 2
                else:
                    for j in range(a, x.v + 1): self.W[j] = w[i+2]
                    i += 3
        except (AttributeError, IndexError): p.append('W array is damaged')
        self.dw = view.get(c.get('DW'))
        self.ff = glyphs.open_(prog)
        if not self.ff: p.append('the font program cannot be opened'); return
        self.upem = self.ff[1].upem
        for cid, y in sorted(self.W.items()):
            if cid not in self.map: p.append('W gives a width to code %d, which has no glyph' % cid); break
            if cid == 0: continue          # never shown
            q = glyphs.glyph(self.ff, self.map[cid])
            if q is None: p.append('glyph %d cannot be drawn' % cid); break
            if abs(q[1] * 1000 / self.upem - float(y.v)) >= 1.01: p.append('glyph %d has width %s in W and %s/%s in the font' % (cid, y.t, q[1], self.upem)); break
    def label(self, c):
        if c in self.labels: return self.labels[c]
        if not self.ff or c not in self.map: return 'no glyph'
        q = glyphs.glyph(self.ff, self.map[c])
        if q is None: r = 'not drawable'
        else:
            y = self.W.get(c, self.dw); w = y.t if isinstance(y, Num) else '1000'
            try: h = self.F.hint(self.map[c])
            except (IndexError, AttributeError): h = '?'
            r = 'w%s o%s' % (w, q[0]) + (' h' + h if q[0] != 'empty' else '')
        self.labels[c] = r
        return r
