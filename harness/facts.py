"""What a written PDF file says, as the set of facts <topic, key, value> the
specification (spec/CapyView.tla) speaks about.  Uses only the strict reader in
pdfparse.py; knows the PDF format, not CapyPDF's sources."""
import re, os, sys, hashlib, datetime, time
from decimal import Decimal, Context
import pdfparse
from pdfparse import Name, Ref, Num, Stream, Dict, Op, parse_content, decode_stream

PREC = Context(prec=400)
def dec(t):
    """canonical decimal text of a numeric token"""
    d = Decimal(t.t if isinstance(t, Num) else str(t))
    s = format(d, 'f')
    if len(s.partition('.')[2]) > 6: s = format(d.quantize(Decimal('0.000001'), context=PREC), 'f')
    if '.' in s: s = s.rstrip('0').rstrip('.')
    if s in ('-0', ''): s = '0'
    return s
def fdec(v, places=3):
    s = ('%.' + str(places) + 'f') % v
    s = s.rstrip('0').rstrip('.') if '.' in s else s
    return '0' if s in ('-0', '') else s

def canon_cp(v): return chr(v) if 32 <= v < 126 else '~u%X;' % v
def canon_text(s): return ''.join(canon_cp(ord(c)) for c in s)
def canon_bytes(b): return ''.join(chr(v) if 32 <= v < 126 else '~x%02X;' % v for v in b)

def text(b):
    """a PDF text string -> canonical notation"""
    if b[:2] == b'\xfe\xff':
        try: return canon_text(b[2:].decode('utf-16-be'))
        except UnicodeDecodeError: return '!bad-utf16:' + b.hex()
    if b[:3] == b'\xef\xbb\xbf':
        try: return canon_text(b[3:].decode('utf-8'))
        except UnicodeDecodeError: return '!bad-utf8:' + b.hex()
    return canon_bytes(b)
def bytetext(b):
    """strings whose encoding the format leaves to the producer (file names, name tree keys)"""
    if b[:2] == b'\xfe\xff' or b[:3] == b'\xef\xbb\xbf': return text(b)
    try: return canon_text(b.decode('utf-8', 'replace'))
    except UnicodeDecodeError: return canon_bytes(b)
def fspec(b):
    """file specification: a slash separates directories unless escaped"""
    return re.sub(r'\\/|/', lambda m: '/' if len(m.group()) == 2 else '~sep;', bytetext(b))
def keytext(b):
    try: return canon_text(b.decode('utf-8', 'replace'))
    except UnicodeDecodeError: return canon_bytes(b)
def nm(n): return '/' + canon_bytes(str(n).encode('latin-1'))

CATS = ('ExtGState', 'ColorSpace', 'Pattern', 'Shading', 'XObject', 'Font', 'Properties')
DROPTYPE = {'xf': 'XObject', 'pat': 'Pattern', 'sm': 'Mask', 'gs': 'ExtGState', 'img': 'XObject', 'annot': 'Annot', 'si': 'StructElem',
            'ocg': 'OCG', 'ef': 'Filespec', '3d': '3D', 'page': 'Page'}
STREAMKEYS = ('Length', 'Filter', 'DecodeParms')

class View:
    def __init__(self, data, blobs=None, now=None, topics=None):
        self.wantfonts = topics is None or 'font' in topics or 'glyph' in topics; self.fonts = {}
        self.pdf = p = pdfparse.Pdf(data); self.f = set(); self.lab = {}; self.blobs = blobs or {}; self.now = now or time.strftime('D:%Y%m%d%H%M%SZ', time.gmtime(int(os.environ.get('SOURCE_DATE_EPOCH', '1700000000'))))
        for x in p.problems: self.f.add(('problem', 'file', x))
        self.f.add(('file', 'version', getattr(p, 'version', '')))
        self.root = p.get(p.trailer.get('Root')) if p.trailer else None
        if not isinstance(self.root, dict): self.f.add(('problem', 'file', 'no catalog')); self.root = Dict()
        self.fontmaps = {}
        self.label()
        for part in (self.fontobjs, self.pages, self.objects, self.catalog, self.struct, self.outlines, self.fields, self.info, self.meta):
            try: part()
            except Exception as e:
                if os.environ.get('VERIF_DEBUG'): raise
                self.f.add(('problem', part.__name__, 'cannot be read: %s %s' % (type(e).__name__, e)))
    def prob(self, k, s): self.f.add(('problem', k, s))
    def get(self, o): return self.pdf.get(o)
    def d(self, o):
        o = self.get(o)
        if isinstance(o, Stream): return o.d
        return o if isinstance(o, dict) else Dict()
    # ---- labels: rank of the object number within its kind
    def label(self):
        p = self.pdf; kinds = {}
        objs = p.objs
        smask = set(); streams_of_icc = {}
        for n, o in objs.items():
            if isinstance(o, Stream) and isinstance(o.d.get('SMask'), Ref): smask.add(o.d['SMask'].n)
        fields = set()
        def walkf(r, depth=0):
            if not isinstance(r, Ref) or r.n in fields or depth > 50: return
            o = self.d(r)
            if o.get('Subtype') == 'Widget' and 'FT' not in o: return
            fields.add(r.n)
            for k in (o.get('Kids') or []): walkf(k, depth + 1)
        af = self.d(self.root.get('AcroForm'))
        for r in (self.get(af.get('Fields')) or []): walkf(r)
        outl = set()
        def walko(r, depth=0):
            while isinstance(r, Ref) and r.n not in outl:
                outl.add(r.n); o = self.d(r)
                if depth < 200: walko(o.get('First'), depth + 1)
                r = o.get('Next')
        walko(self.d(self.root.get('Outlines')).get('First'))
        for n, o in objs.items():
            k = None; d = o.d if isinstance(o, Stream) else o
            if n in fields: k = 'ff'
            elif n in outl: k = 'outl'
            elif isinstance(d, dict):
                t = d.get('Type'); st = d.get('Subtype')
                if t == 'StructElem': k = 'si'
                elif t == 'Annot' or ('Rect' in d and 'Subtype' in d): k = 'annot'
                elif t == 'ExtGState': k = 'gs'
                elif t == 'OCG': k = 'ocg'
                elif t == 'Filespec': k = 'ef'
                elif t == 'Mask': k = 'sm'
                elif t == 'Font' and st in ('Type0', 'Type1', 'TrueType', 'Type3'): k = 'font'
                elif 'PatternType' in d: k = 'pat'
                elif 'ShadingType' in d: k = 'sh'
                elif 'FunctionType' in d: k = 'fn'
                elif isinstance(o, Stream):
                    if st == 'Form': k = 'xf'
                    elif st == 'Image': k = None if n in smask else 'img'
                    elif t == '3D': k = '3d'
                    elif 'N' in d and t not in ('ObjStm',): k = 'icc'
            elif isinstance(d, list) and d and isinstance(d[0], Name):
                if d[0] == 'Separation': k = 'sep'
                elif d[0] == 'Lab': k = 'lab'
            if k: kinds.setdefault(k, []).append(n)
        for k, l in kinds.items():
            for i, n in enumerate(sorted(l)): self.lab[n] = '%s:%d' % (k, i + 1)
        for n, o in objs.items():
            if isinstance(o, list) and len(o) == 2 and o[0] == 'ICCBased' and isinstance(o[1], Ref) and o[1].n in self.lab:
                self.lab[n] = self.lab[o[1].n]
        # pages in tree order
        self.pagelist = []
        seen = set()
        def walkp(r, parent):
            if not isinstance(r, Ref): self.prob('pagetree', 'direct object in the page tree'); return
            if r.n in seen: self.prob('pagetree', 'node appears twice'); return
            seen.add(r.n); o = self.d(r)
            if parent is not None and o.get('Parent') != parent: self.prob('pagetree', 'wrong Parent')
            if o.get('Type') == 'Pages':
                before = len(self.pagelist)
                for k in (self.get(o.get('Kids')) or []): walkp(k, r)
                c = o.get('Count')
                if not isinstance(c, Num) or c.v != len(self.pagelist) - before: self.prob('pagetree', 'wrong Count')
            elif o.get('Type') == 'Page':
                self.pagelist.append(r.n); self.lab[r.n] = 'page:%d' % len(self.pagelist)
            else: self.prob('pagetree', 'node is neither Pages nor Page')
        walkp(self.root.get('Pages'), None)
        c = self.d(self.root.get('Pages')).get('Count')
        self.f.add(('pagetree', 'Count', dec(c) if isinstance(c, Num) else '?'))
    def ref(self, r):
        return '->' + self.lab[r.n] if r.n in self.lab else None
    # ---- flattening
    def scalar(self, o):
        if o is None: return 'null'
        if o is True: return 'true'
        if o is False: return 'false'
        if isinstance(o, Num): return dec(o)
        if isinstance(o, Name): return nm(o)
        if isinstance(o, bytes): return '(' + text(o) + ')'
        if isinstance(o, Op): return '!' + str(o)
        return '?' + repr(o)
    def val(self, path, o, out, depth=0):
        """value text; sub-facts go to out"""
        if depth > 12: return '?deep'
        if isinstance(o, Ref):
            l = self.ref(o)
            if l: return l
            t = self.get(o)
            if t is None: return 'null'
            o = t
        if isinstance(o, dict):
            for k, v in o.items(): out.append((path + nm(k), self.val(path + nm(k), v, out, depth + 1)))
            return '<<>>'
        if isinstance(o, Stream):
            for k, v in o.d.items():
                if k in STREAMKEYS or (k == 'Type'): continue
                out.append((path + nm(k), self.val(path + nm(k), v, out, depth + 1)))
            out.append((path + '/data', self.blob(o)))
            return '<<stream>>'
        if isinstance(o, list):
            return '[' + ' '.join(self.val(path + '/' + str(i), v, out, depth + 1) for i, v in enumerate(o)) + ']'
        return self.scalar(o)
    def blob(self, s):
        b = decode_stream(s, [], '')
        h = hashlib.sha256(b).digest()
        if h not in self.blobs and s.d.get('Subtype') == 'Image' and isinstance(s.d.get('BitsPerComponent'), Num) and s.d['BitsPerComponent'].v == 1:
            # one bit per pixel: the bits that fill up the last byte of a row mean nothing
            w, n = s.d['Width'].v, s.d['Height'].v; st = (w + 7) // 8
            if len(b) == st * n: h = hashlib.sha256(bytes(x & (0xff << (-w % 8) & 0xff) if k % st == st - 1 else x for k, x in enumerate(b))).digest()
        return self.blobs.get(h) or 'sha:%d:%s' % (len(b), hashlib.sha256(b).hexdigest()[:16])
    def flat(self, topic, label, d, skip=(), kind=None):
        out = []
        for k, v in d.items():
            if k in skip: continue
            if k == 'Type' and kind and v == DROPTYPE.get(kind): continue
            out.append((label + nm(k), self.val(label + nm(k), v, out)))
        for k, v in out:
            if v == '<<stream>>': continue
            if k in (label + '/Group/Type', label + '/Trans/Type') and v == '/' + k.split('/')[-2]: continue     # optional
            self.f.add((topic, k, v))
    # ---- fonts
    def fontmap(self, ref):
        """code -> text of a Type0 font"""
        n = ref.n
        if n in self.fontmaps: return self.fontmaps[n]
        m = {}
        o = self.d(ref); tu = self.get(o.get('ToUnicode'))
        if isinstance(tu, Stream):
            t = decode_stream(tu, [], '').decode('latin-1')
            for sec in re.finditer(r'(\d+)\s+beginbfchar(.*?)endbfchar', t, re.S):
                prs = re.findall(r'<([0-9a-fA-F]+)>\s*<([0-9a-fA-F]*)>', sec.group(2))
                if len(prs) != int(sec.group(1)) or len(prs) > 100: self.prob(self.lab.get(n, 'font'), 'bad bfchar section')
                for a, b in prs:
                    try: u = bytes.fromhex(b).decode('utf-16-be')
                    except (UnicodeDecodeError, ValueError): u = '\ufffd'
                    if int(a, 16) in m: self.prob(self.lab.get(n, 'font'), 'code mapped twice')
                    m[int(a, 16)] = u
            for sec in re.finditer(r'(\d+)\s+beginbfrange(.*?)endbfrange', t, re.S):
                for a, b, c in re.findall(r'<([0-9a-fA-F]+)>\s*<([0-9a-fA-F]+)>\s*<([0-9a-fA-F]+)>', sec.group(2)):
                    for k in range(int(a, 16), int(b, 16) + 1):
                        m[k] = (bytes.fromhex(c).decode('utf-16-be')[:-1] + chr(ord(bytes.fromhex(c).decode('utf-16-be')[-1]) + k - int(a, 16)))
        self.fontmaps[n] = m
        return m
    def shown(self, b, font):
        if font is None: return '!nofont'
        m = self.fontmap(font)
        if len(b) % 2: return '!odd'
        out = ''
        for i in range(0, len(b), 2):
            c = b[i] * 256 + b[i + 1]
            self.used.setdefault(font.n, set()).add(c)
            out += canon_text(m[c]) if c in m else '~missing%d;' % c
            if self.wantfonts: self.glyphs.append(self.fonts[font.n].label(c) if font.n in self.fonts else '?')
        return out
    def fontobjs(self):
        if not self.wantfonts: return
        import fontread
        tags = {}
        for n, l in sorted(self.lab.items()):
            if l.startswith('font:'):
                self.fonts[n] = F = fontread.Font(self, n, l)
                for k, v in F.facts: self.f.add(('font', l + '/' + k, v))
                for x in F.problems: self.f.add(('font', l + '/problem', x))
                if F.tag in tags: self.f.add(('font', l + '/problem', 'subset tag used twice'))
                tags[F.tag] = 1
    used = None
    # ---- content streams
    def content(self, label, data, res):
        ops, problems = parse_content(data)
        if self.used is None: self.used = {}
        for x in problems: self.prob(label, x)
        res = self.d(res)
        def look(cat, name):
            r = self.d(res.get(cat)).get(str(name))
            if r is None: return '?' + cat + nm(name)
            if isinstance(r, Ref): return self.ref(r) or '?unlabelled %s' % r
            return '?direct'
        for cat, ent in res.items():
            if cat == 'ProcSet': continue
            if cat not in CATS: self.prob(label, 'unknown resource category %s' % cat); continue
            for k, r in self.d(ent).items():
                self.f.add(('res', label, cat + ' ' + ((self.ref(r) or '?') if isinstance(r, Ref) else '?direct')))
        font = None; fontstack = []
        for i, (w, args) in enumerate(ops):
            key = '%s/%d' % (label, i + 1); t = []; out = []; self.glyphs = []
            for j, a in enumerate(args):
                last = j == len(args) - 1
                if isinstance(a, Name):
                    if w == 'gs': t.append(look('ExtGState', a))
                    elif w == 'Do': t.append(look('XObject', a))
                    elif w == 'sh': t.append(look('Shading', a))
                    elif w in ('CS', 'cs'): t.append(nm(a) if a in ('DeviceRGB', 'DeviceGray', 'DeviceCMYK', 'Pattern') else look('ColorSpace', a))
                    elif w in ('SCN', 'scn'): t.append(look('Pattern', a))
                    elif w == 'Tf':
                        t.append(look('Font', a)); font = self.d(res.get('Font')).get(str(a))
                        if not isinstance(font, Ref): font = None
                    elif w in ('BDC', 'DP') and j == 1: t.append(look('Properties', a))
                    else: t.append(nm(a))
                elif isinstance(a, dict):
                    t.append('<<>>')
                    for k, v in a.items(): out.append((key + nm(k), self.val(key + nm(k), v, out)))
                elif isinstance(a, bytes) and w in ('Tj', "'", '"'): t.append('(' + self.shown(a, font) + ')')
                elif isinstance(a, list) and w == 'TJ':
                    s = '['; prev = ''
                    for x in a:
                        if isinstance(x, bytes):
                            y = self.shown(x, font)
                            if y == '': continue
                            s += y if prev == 's' else '(' + y
                            prev = 's'
                        else:
                            s += (')' if prev == 's' else ' ' if prev == 'k' else '') + self.scalar(x); prev = 'k'
                    t.append(s + (')' if prev == 's' else '') + ']')
                else:
                    v = self.val(key, a, out); t.append(v)
            if w == 'q': fontstack.append(font)
            elif w == 'Q' and fontstack: font = fontstack.pop()
            self.f.add(('ops', key, ' '.join(t + [w])))
            for k, v in out: self.f.add(('ops', k, v))
            for j, g in enumerate(self.glyphs): self.f.add(('glyph', '%s/%d' % (key, j + 1), g))
    # ---- pages
    def pages(self):
        for n in self.pagelist:
            o = self.d(Ref(n, 0)); lab = self.lab[n]
            self.f.add(('pagetree', lab.split(':')[1], '->' + lab))
            for k in ('MediaBox', 'CropBox', 'BleedBox', 'TrimBox', 'ArtBox'):
                if k in o:
                    b = self.get(o[k]); v = self.val(lab + '/' + k, b, [])
                    try:
                        if all(abs(float(x.v) - y) < 0.1 for x, y in zip(b, (0, 0, 595.276, 841.89))) and b[0].v == 0 and b[1].v == 0: v = 'A4'
                    except Exception: pass
                    self.f.add(('page', lab + '/' + k, v))
            self.flat('page', lab, o, ('MediaBox', 'CropBox', 'BleedBox', 'TrimBox', 'ArtBox', 'Parent', 'LastModified', 'Contents', 'Resources',
                                       'Annots', 'StructParents', 'Trans', 'VP', 'PresSteps'), 'page')
            lm = o.get('LastModified')
            if lm is not None and lm != self.now.encode(): self.prob(lab, 'wrong LastModified')
            c = self.get(o.get('Contents'))
            if isinstance(c, list): data = b'\n'.join(decode_stream(self.get(x), [], '') for x in c)
            elif isinstance(c, Stream): data = decode_stream(c, [], '')
            else: data = b''
            if 'Resources' not in o: self.prob(lab, 'no Resources')
            self.content(lab, data, o.get('Resources'))
            seen = set()
            for r in (self.get(o.get('Annots')) or []):
                if isinstance(r, Ref) and r.n in seen: self.prob(lab, 'annotation listed twice')
                if isinstance(r, Ref): seen.add(r.n)
                self.f.add(('annotlist', lab, (self.ref(r) if isinstance(r, Ref) else None) or '?'))
            if 'Trans' in o: self.flat('trans', lab, {'Trans': o['Trans']})
            if 'VP' in o: self.flat('vp', lab, {'VP': o['VP']})
            if 'PresSteps' in o:
                chain = []; r = o['PresSteps']
                while isinstance(r, Ref) and r.n not in [x.n for x in chain] and len(chain) < 1000:
                    chain.append(r); r = self.d(r).get('Next')
                idx = {x.n: i for i, x in enumerate(chain)}
                for i, x in enumerate(chain):
                    d = self.d(x); l = '%s/nav/%d' % (lab, i)
                    if d.get('Type') != 'NavNode': self.prob(lab, 'navigation node has wrong Type')
                    for k in ('Next', 'Prev'):
                        if k in d: self.f.add(('nav', l + '/' + k, 'nav/%s' % idx.get(d[k].n, '?') if isinstance(d[k], Ref) else '?'))
                    self.flat('nav', l, d, ('Type', 'Next', 'Prev'))
    # ---- separate objects
    def objects(self):
        for n, l in sorted(self.lab.items()):
            o = self.pdf.objs[n]; kind = l.split(':')[0]; d = o.d if isinstance(o, Stream) else o
            if kind == 'xf':
                self.flat('form', l, d, STREAMKEYS + ('Resources', 'StructParents', 'StructParent'), kind)
                self.content(l, decode_stream(o, [], ''), d.get('Resources'))
            elif kind == 'pat':
                self.flat('pat', l, d, STREAMKEYS + ('Resources',), kind)
                if isinstance(o, Stream): self.content(l, decode_stream(o, [], ''), d.get('Resources'))
            elif kind in ('sm', 'gs', 'ocg'): self.flat(kind, l, d, (), kind)
            elif kind == 'annot':
                e = dict(d)
                self.flat('annot', l, e, ('StructParent',), kind)
            elif kind == 'fn':
                self.flat('fn', l, d, STREAMKEYS)
                if isinstance(o, Stream): self.f.add(('fn', l + '/data', '(' + canon_bytes(decode_stream(o, [], '')) + ')'))
            elif kind == 'sh': self.shading(l, o)
            elif kind in ('img', '3d'):
                self.flat(kind, l, d, STREAMKEYS, kind); self.f.add((kind, l + '/data', self.blob(o)))
            elif kind == 'icc' and isinstance(o, Stream):
                self.flat('cs', l, d, STREAMKEYS); self.f.add(('cs', l + '/data', self.blob(o)))
            elif kind in ('sep', 'lab'):
                out = []; self.f.add(('cs', l, self.val(l, o, out)))
                for k, v in out: self.f.add(('cs', k, v))
            elif kind == 'ef':
                for k in ('F', 'UF'):
                    if k in d: self.f.add(('ef', l + '/' + k, '(' + fspec(d[k]) + ')'))
                s = self.get(self.d(d.get('EF')).get('F'))
                if not isinstance(s, Stream): self.prob(l, 'no embedded file stream'); continue
                if s.d.get('Type') not in (None, 'EmbeddedFile'): self.prob(l, 'wrong Type of embedded file')
                self.flat('ef', l, s.d, STREAMKEYS + ('Type',)); self.f.add(('ef', l + '/data', self.blob(s)))
                self.flat('ef', l, d, ('F', 'UF', 'EF'), kind)
    def shading(self, l, o):
        d = o.d if isinstance(o, Stream) else o
        mesh = isinstance(o, Stream)
        self.flat('sh', l, d, STREAMKEYS + (('BitsPerCoordinate', 'BitsPerComponent', 'BitsPerFlag', 'Decode') if mesh else ()))
        if not mesh: return
        bc, bp, bf = (d[k].v for k in ('BitsPerCoordinate', 'BitsPerComponent', 'BitsPerFlag'))
        D = [float(x.v) for x in d['Decode']]
        self.f.add(('sh', l + '/box', '[' + ' '.join(dec(d['Decode'][k]) for k in (0, 2, 1, 3)) + ']'))
        nc = {'DeviceRGB': 3, 'DeviceGray': 1, 'DeviceCMYK': 4}.get(str(d.get('ColorSpace')), 0)
        if len(D) != 4 + 2 * nc: self.prob(l, 'Decode has %d entries' % len(D)); return
        b = decode_stream(o, [], ''); bits = int.from_bytes(b, 'big'); total = len(b) * 8; pos = 0
        def take(n):
            nonlocal pos
            v = (bits >> (total - pos - n)) & ((1 << n) - 1); pos += n
            return v
        def co(axis):
            v = take(bc); return fdec(D[2*axis] + v * (D[2*axis+1] - D[2*axis]) / (2**bc - 1))
        def col(): return ' '.join(fdec(D[4+2*i] + take(bp) * (D[5+2*i] - D[4+2*i]) / (2**bp - 1)) for i in range(nc))
        t = d['ShadingType'].v; k = 0
        while total - pos >= 8:
            k += 1
            if total - pos < bf: break
            fl = take(bf)
            if t == 4:
                if total - pos < 2*bc + nc*bp: self.prob(l, 'mesh data cut short'); break
                self.f.add(('sh', '%s/%d' % (l, k), '%d(%s %s)%s' % (fl, co(0), co(1), col())))
                if pos % 8: take(8 - pos % 8)
            else:
                np_, ncol = (12, 4) if fl == 0 else (8, 2)
                if total - pos < 2*bc*np_ + ncol*nc*bp: self.prob(l, 'mesh data cut short'); break
                pts = ' '.join('%s %s' % (co(0), co(1)) for _ in range(np_))
                self.f.add(('sh', '%s/%d' % (l, k), '%d(%s)%s' % (fl, pts, ','.join(col() for _ in range(ncol)))))
                if pos % 8: take(8 - pos % 8)
    # ---- catalog
    def catalog(self):
        r = self.root
        self.flat('cat', '', {}, ())
        own = ('Type', 'Pages', 'PageLabels', 'Outlines', 'Names', 'AF', 'StructTreeRoot', 'AcroForm', 'OCProperties', 'OutputIntents', 'Metadata', 'Collection')
        out = []
        for k, v in r.items():
            if k in own: continue
            out.append((k, self.val(k, v, out)))
        for k, v in out: self.f.add(('cat', k, v))
        pl = self.d(r.get('PageLabels'))
        if 'PageLabels' in r:
            nums = self.get(pl.get('Nums')) or []
            prev = None
            for i in range(0, len(nums), 2):
                k = nums[i].v; key = 'PageLabels/%d' % k
                if prev is not None and k <= prev: self.prob('labels', 'keys out of order')
                prev = k
                self.f.add(('labels', key, str(i // 2 + 1)))
                self.flat('labels', key, self.d(nums[i + 1]), ('Type',))
        if 'OCProperties' in r:
            oc = self.d(r['OCProperties']); out = []
            for k, v in oc.items():
                if k == 'D':
                    for kk, vv in self.d(v).items(): out.append(('D/' + kk, self.val('D/' + kk, vv, out)))
                else: out.append((k, self.val(k, v, out)))
            for k, v in out: self.f.add(('ocg', k, v))
        names = self.d(r.get('Names'))
        for k in names:
            if k != 'EmbeddedFiles': self.prob('catalog', 'unexpected name tree %s' % k)
        streams = {}
        for n, l in self.lab.items():
            if l.startswith('ef:'):
                s = self.d(self.pdf.objs[n].get('EF')).get('F')
                if isinstance(s, Ref): streams.setdefault(s.n, l)
        if 'EmbeddedFiles' in names:
            t = self.d(names['EmbeddedFiles']); nn = self.get(t.get('Names')) or []
            self.f.add(('ef', 'Names', str(len(nn) // 2)))
            keys = [nn[i] for i in range(0, len(nn), 2)]
            if keys != sorted(keys): self.prob('ef', 'name tree keys out of order')
            lim = self.get(t.get('Limits'))
            if lim is not None and keys and lim != [min(keys), max(keys)]: self.prob('ef', 'wrong name tree limits')
            for i in range(0, len(nn), 2): self.f.add(('ef', 'Names/' + keytext(nn[i]), self.ref(nn[i + 1]) or '?'))
        if 'AF' in r:
            af = self.get(r['AF']) or []
            self.f.add(('ef', 'AF', str(len(af))))
            for i, x in enumerate(af):
                x = self.d(x); k = 'AF/%d' % (i + 1)
                for kk in ('F', 'UF'):
                    if kk in x: self.f.add(('ef', k + '/' + kk, '(' + fspec(x[kk]) + ')'))
                e = self.d(x.get('EF')); fs = {v.n for v in e.values() if isinstance(v, Ref)}
                if x.get('Type') != 'Filespec': self.prob('ef', 'AF entry is not a Filespec')
                self.f.add(('ef', k + '/file', '->' + streams.get(fs.pop(), '?') if len(fs) == 1 else '?'))
                self.flat('ef', k, x, ('Type', 'F', 'UF', 'EF'))
        if 'Collection' in r: self.flat('coll', 'coll', self.d(r['Collection']), ())
        if 'OutputIntents' in r:
            oi = self.get(r['OutputIntents']) or []
            if len(oi) != 1: self.prob('oi', '%d output intents' % len(oi))
            out = []
            for k, v in self.d(oi[0]).items(): out.append((k, self.val(k, v, out)))
            for k, v in out: self.f.add(('oi', k, v))
    # ---- structure tree
    def struct(self):
        r = self.root.get('StructTreeRoot')
        if r is None: 
            return
        root = self.d(r)
        if root.get('Type') != 'StructTreeRoot': self.prob('struct', 'root has wrong Type')
        rn = r.n if isinstance(r, Ref) else -1
        def klist(k):
            k = self.get(k) if not isinstance(k, Ref) else k
            return [] if k is None else k if isinstance(k, list) else [k]
        def kidrefs(d): return [x for x in klist(d.get('K')) if isinstance(x, Ref)]
        self.f.add(('struct', 'root/kids', '[' + ' '.join(self.ref(x) or '?' for x in kidrefs(root)) + ']'))
        for k, v in self.d(root.get('RoleMap')).items(): self.f.add(('struct', 'role/' + nm(k)[1:], self.scalar(v)))
        for k in root:
            if k not in ('Type', 'K', 'RoleMap', 'ParentTree', 'ParentTreeNextKey'): self.prob('struct', 'unexpected key %s in the root' % k)
        tree = {}
        if 'ParentTree' in root:
            if not isinstance(root['ParentTree'], (Ref, dict)): self.prob('struct', 'ParentTree is not a number tree')
            nums = self.get(self.d(root['ParentTree']).get('Nums')) or []
            for i in range(0, len(nums), 2): tree[nums[i].v] = self.get(nums[i + 1])
            if [nums[i].v for i in range(0, len(nums), 2)] != sorted(tree): self.prob('struct', 'ParentTree keys out of order')
        nk = root.get('ParentTreeNextKey')
        if isinstance(nk, Num) and tree and nk.v <= max(tree): self.prob('struct', 'ParentTreeNextKey too small')
        used = set()
        for n in self.pagelist:
            o = self.d(Ref(n, 0)); sp = o.get('StructParents')
            if isinstance(sp, Num):
                if sp.v in used: self.prob('struct', 'StructParents used twice')
                used.add(sp.v)
                if sp.v not in tree: self.prob('struct', 'StructParents not in the parent tree'); continue
                for j, x in enumerate(tree[sp.v] if isinstance(tree[sp.v], list) else []):
                    self.f.add(('struct', '%s/mcid/%d' % (self.lab[n], j), (self.ref(x) if isinstance(x, Ref) else None) or '?'))
        for n, l in self.lab.items():
            if not l.startswith('si:'): continue
            d = self.pdf.objs[n]
            self.flat('struct', l, d, ('K', 'P', 'Pg'), 'si')
            p = d.get('P')
            self.f.add(('struct', l + '/P', 'root' if isinstance(p, Ref) and p.n == rn else (self.ref(p) if isinstance(p, Ref) else None) or '?'))
            self.f.add(('struct', l + '/kids', '[' + ' '.join(self.ref(x) or '?' for x in kidrefs(d)) + ']'))
            for x in klist(d.get('K')):
                if isinstance(x, Num): self.f.add(('struct', l + '/content', '%s %s' % ((self.ref(d['Pg']) if isinstance(d.get('Pg'), Ref) else '?'), dec(x))))
                elif not isinstance(x, Ref):
                    xd = self.d(x)
                    pg = xd.get('Pg', d.get('Pg'))
                    if xd.get('Type') == 'MCR': self.f.add(('struct', l + '/content', '%s %s' % ((self.ref(pg) if isinstance(pg, Ref) else '?'), dec(xd.get('MCID')))))
                    else: self.prob('struct', 'strange kid of ' + l)
            if 'Pg' in d and not any(not isinstance(x, Ref) for x in klist(d.get('K'))): self.f.add(('struct', l + '/Pg', self.val('', d['Pg'], [])))
    # ---- outlines
    def outlines(self):
        r = self.root.get('Outlines')
        if r is None: return
        rn = r.n if isinstance(r, Ref) else -1
        root = self.d(r)
        for k, v in root.items():
            if k == 'Type':
                if v != 'Outlines': self.prob('outline', 'wrong Type')
            else: self.f.add(('outline', 'root/' + k, self.val('', v, [])))
        for n, l in self.lab.items():
            if not l.startswith('outl:'): continue
            d = self.pdf.objs[n]
            p = d.get('Parent')
            self.f.add(('outline', l + '/Parent', 'root' if isinstance(p, Ref) and p.n == rn else (self.ref(p) if isinstance(p, Ref) else None) or '?'))
            self.flat('outline', l, d, ('Parent',))
    # ---- form fields
    def fields(self):
        r = self.root.get('AcroForm')
        if r is None: return
        out = []
        for k, v in self.d(r).items(): out.append(('root/' + k, self.val('root/' + k, v, out)))
        for k, v in out: self.f.add(('ff', k, v))
        for n, l in self.lab.items():
            if l.startswith('ff:'): self.flat('ff', l, self.pdf.objs[n], ())
    # ---- information dictionary and metadata
    def info(self):
        i = self.pdf.trailer.get('Info')
        if i is None: return
        for k, v in self.d(i).items():
            s = self.scalar(v)
            if k == 'Producer' and isinstance(v, bytes) and v.startswith(b'CapyPDF '): s = 'producer'
            if k in ('CreationDate', 'ModDate') and v == self.now.encode(): s = 'now'
            self.f.add(('info', k, s))
    def meta(self):
        m = self.get(self.root.get('Metadata'))
        if m is None: return
        if not isinstance(m, Stream): self.prob('meta', 'Metadata is not a stream'); return
        if m.d.get('Type') != 'Metadata' or m.d.get('Subtype') != 'XML': self.prob('meta', 'wrong type of the metadata stream')
        b = decode_stream(m, [], '')
        if not b.startswith(b'<?xpacket'):      # supplied by the caller: kept as it was given
            self.f.add(('meta', 'xml', '(' + canon_text(b.decode('utf-8', 'replace')) + ')')); return
        import xml.etree.ElementTree as ET
        try: x = ET.fromstring(b.strip(b'\n'))
        except ET.ParseError as e: self.prob('meta', 'XMP is not well-formed XML: %s' % e); return
        ns = {'http://www.aiim.org/pdfa/ns/id/': 'pdfaid', 'http://ns.adobe.com/pdf/1.3/': 'pdf', 'http://ns.adobe.com/xap/1.0/': 'xmp', 'http://purl.org/dc/elements/1.1/': 'dc'}
        def put(tag, v):
            mm = re.match(r'\{(.*)\}(.*)', tag)
            if not mm or mm.group(1) not in ns: return
            k = (ns[mm.group(1)], mm.group(2)); v = (v or '').strip()
            if k == ('pdf', 'Producer'): self.f.add(('meta', 'producer', 'producer' if v.startswith('CapyPDF ') else v))
            elif k[0] == 'pdfaid': self.f.add(('meta', k[1], v))
            elif k == ('xmp', 'CreatorTool'): self.f.add(('meta', 'creator', '(' + canon_text(v) + ')'))
            elif k in (('xmp', 'CreateDate'), ('xmp', 'ModifyDate'), ('xmp', 'MetadataDate')):
                self.f.add(('meta', k[1], v))
            else: self.f.add(('meta', ':'.join(k), '(' + canon_text(v) + ')'))
        for e in x.iter():
            if len(e) == 0: put(e.tag, e.text)
            for a, v in e.attrib.items(): put(a, v)

def facts(data, blobs=None, topics=None):
    return View(data, blobs, topics=topics).f

if __name__ == '__main__':
    for f in sorted(facts(open(sys.argv[1], 'rb').read())): print(*f)
