"""A strict, independent PDF reader.  It knows nothing about CapyPDF's sources.

Every departure from the file format is reported as a string in Pdf.problems,
so that the caller can turn it into a trace event."""
import re, zlib

class Name(str):
    __slots__ = ()
    def __repr__(self): return '/' + str.__str__(self)
class Ref:
    __slots__ = ('n', 'g')
    def __init__(self, n, g): self.n = n; self.g = g
    def __repr__(self): return '%d %d R' % (self.n, self.g)
    def __eq__(self, o): return isinstance(o, Ref) and (o.n, o.g) == (self.n, self.g)
    def __hash__(self): return hash((self.n, self.g))
class Op(str):
    __slots__ = ()
class Num:
    """A number with its source text (so that the token's form can be judged)."""
    __slots__ = ('t', 'isint')
    def __init__(self, t):
        self.t = t; self.isint = '.' not in t
    @property
    def v(self): return int(self.t) if self.isint else float(self.t)
    def __repr__(self): return 'N' + self.t
    def __eq__(self, o): return isinstance(o, Num) and o.v == self.v
    def __hash__(self): return hash(self.v)
class Stream:
    __slots__ = ('d', 'raw', 'data', 'onum')
    def __init__(self, d, raw): self.d = d; self.raw = raw; self.data = None; self.onum = None
class Dict(dict):
    """Dictionary that remembers duplicated keys."""
    __slots__ = ('dups',)
class PdfSyntaxError(Exception): pass

WS = b'\x00\t\n\x0c\r '
DELIM = b'()<>[]{}/%'
NUMRE = re.compile(rb'[+-]?(\d+\.?\d*|\.\d+)$')
REG = re.compile(rb'[^\x00\t\n\x0c\r ()<>\[\]{}/%]+')
WSRE = re.compile(rb'(?:[\x00\t\n\x0c\r ]+|%[^\r\n]*)*')

class Lexer:
    def __init__(self, buf, pos=0, end=None):
        self.b = buf; self.p = pos; self.e = len(buf) if end is None else end
    def ws(self):
        m = WSRE.match(self.b, self.p, self.e); self.p = m.end()
    def peek(self):
        self.ws()
        return self.b[self.p:self.p+1] if self.p < self.e else b''
    def string(self):
        b = self.b; p = self.p + 1; depth = 1; out = bytearray()
        while True:
            if p >= self.e: raise PdfSyntaxError('unterminated string at %d' % self.p)
            c = b[p]
            if c == 0x5c:
                p += 1
                if p >= self.e: raise PdfSyntaxError('unterminated string at %d' % self.p)
                c = b[p]
                esc = {0x6e: 10, 0x72: 13, 0x74: 9, 0x62: 8, 0x66: 12, 0x28: 0x28, 0x29: 0x29, 0x5c: 0x5c}
                if c in esc: out.append(esc[c])
                elif 0x30 <= c <= 0x37:
                    v = 0; k = 0
                    while k < 3 and p < self.e and 0x30 <= b[p] <= 0x37:
                        v = v*8 + b[p]-0x30; p += 1; k += 1
                    out.append(v & 255); continue
                elif c == 13:
                    if b[p+1:p+2] == b'\n': p += 1
                elif c == 10: pass
                else: out.append(c)
            elif c == 0x28: depth += 1; out.append(c)
            elif c == 0x29:
                depth -= 1
                if depth == 0: self.p = p+1; return bytes(out)
                out.append(c)
            elif c == 13:
                out.append(10)
                if b[p+1:p+2] == b'\n': p += 1
            else: out.append(c)
            p += 1
    def hexstring(self):
        q = self.b.find(b'>', self.p, self.e)
        if q < 0: raise PdfSyntaxError('unterminated hex string at %d' % self.p)
        h = re.sub(rb'[\x00\t\n\x0c\r ]', b'', self.b[self.p+1:q])
        if not re.fullmatch(rb'[0-9A-Fa-f]*', h): raise PdfSyntaxError('bad hex string at %d' % self.p)
        if len(h) % 2: h += b'0'
        self.p = q+1
        return bytes.fromhex(h.decode())
    def name(self):
        m = REG.match(self.b, self.p+1, self.e)
        if not m:
            self.p += 1; return Name('')
        t = m.group(); self.p = m.end()
        if b'#' in t:
            if re.search(rb'#(?![0-9A-Fa-f]{2})', t): raise PdfSyntaxError('bad name escape %r' % t)
            t = re.sub(rb'#([0-9A-Fa-f]{2})', lambda m: bytes([int(m.group(1), 16)]), t)
        if any(c < 33 or c > 126 for c in m.group()):
            raise PdfSyntaxError('unescaped byte in name %r' % t)
        return Name(t.decode('latin-1'))
    def obj(self, refs=True, content=False):
        c = self.peek()
        if c == b'': raise PdfSyntaxError('unexpected end at %d' % self.p)
        b = self.b
        if c == b'(': return self.string()
        if c == b'/': return self.name()
        if c == b'<':
            if b[self.p:self.p+2] == b'<<':
                self.p += 2; d = Dict(); d.dups = []
                while True:
                    c = self.peek()
                    if c == b'': raise PdfSyntaxError('unterminated dictionary')
                    if b[self.p:self.p+2] == b'>>': self.p += 2; return d
                    if c != b'/': raise PdfSyntaxError('dictionary key is not a name near %r' % b[self.p:self.p+20])
                    k = self.name()
                    c = self.peek()
                    if b[self.p:self.p+2] == b'>>': raise PdfSyntaxError('dictionary key %r without value' % k)
                    v = self.obj(refs)
                    if isinstance(v, Op): raise PdfSyntaxError('bare word %r as value of %r' % (str(v), k))
                    if k in d: d.dups.append(k)
                    d[k] = v
            return self.hexstring()
        if c == b'[':
            self.p += 1; a = []
            while True:
                c = self.peek()
                if c == b'': raise PdfSyntaxError('unterminated array')
                if c == b']': self.p += 1; return a
                v = self.obj(refs)
                if isinstance(v, Op): raise PdfSyntaxError('bare word %r in array' % str(v))
                a.append(v)
        m = REG.match(b, self.p, self.e)
        if not m: raise PdfSyntaxError('unexpected %r at %d' % (c, self.p))
        t = m.group(); start = self.p; self.p = m.end()
        if NUMRE.match(t):
            if refs and t.isdigit():
                save = self.p
                m2 = re.compile(rb'[\x00\t\n\x0c\r ]+(\d+)[\x00\t\n\x0c\r ]+R(?![^\x00\t\n\x0c\r ()<>\[\]{}/%])').match(b, self.p, self.e)
                if m2:
                    self.p = m2.end(); return Ref(int(t), int(m2.group(1)))
                self.p = save
            return Num(t.decode())
        if t == b'true': return True
        if t == b'false': return False
        if t == b'null': return None
        return Op(t.decode('latin-1'))

def decode_stream(s, problems, label=''):
    if s.data is not None: return s.data
    d = s.raw
    f = s.d.get('Filter')
    fl = [] if f is None else (f if isinstance(f, list) else [f])
    for x in fl:
        if x == 'FlateDecode':
            try:
                do = zlib.decompressobj()
                out = do.decompress(d) + do.flush()
                if not do.eof: problems.append('%s: truncated deflate data' % label)
                elif do.unused_data.strip(b'\r\n'): problems.append('%s: bytes after the deflate data' % label)
                d = out
            except zlib.error as e:
                problems.append('%s: bad deflate data' % label); d = b''
        elif x in ('DCTDecode', 'JPXDecode'): pass
        else: problems.append('%s: unknown filter %s' % (label, x))
    s.data = d
    return d

class Pdf:
    def __init__(self, data):
        self.data = data; self.problems = []; self.objs = {}; self.trailer = {}
        self.xrefkind = ''; self.order = []     # object numbers, in file order
        self.phys = {}                          # offset -> object number found in the body
        self.xref = {}                          # number -> (kind, a, b)
        self.objstm = {}
        try: self.read()
        except PdfSyntaxError as e: self.problems.append('syntax: %s' % e)
    def prob(self, s): self.problems.append(s)
    def read(self):
        d = self.data
        m = re.match(rb'%PDF-(\d\.\d)\r?\n(%[^\n]*\n)?', d)
        if not m: self.prob('no header'); self.version = ''; return
        self.version = m.group(1).decode()
        if not m.group(2) or sum(1 for c in m.group(2) if c >= 128) < 4: self.prob('no binary marker after the header')
        m = re.search(rb'startxref\r?\n(\d+)\r?\n%%EOF\r?\n?$', d)
        if not m: self.prob('no startxref/EOF at the end'); return
        sx = int(m.group(1)); self.startxref = sx
        if d[sx:sx+4] == b'xref': self.read_table(sx, m.start())
        else: self.read_xrefstm(sx, m.start())
        # objects
        for n, (k, a, g) in sorted(self.xref.items()):
            if k == 1:
                if n in self.objs: continue
                try:
                    self.objs[n] = self.read_indirect(a, n, g)
                except PdfSyntaxError as e:
                    self.prob('object %d: %s' % (n, e))
        stms = {}
        for n, (k, a, g) in sorted(self.xref.items()):
            if k == 2:
                try:
                    if a not in stms: stms[a] = self.read_objstm(a)
                    lst = stms[a]
                    if g >= len(lst) or lst[g][0] != n:
                        self.prob('object %d is not at index %d of object stream %d' % (n, g, a)); continue
                    self.objs[n] = lst[g][1]
                except PdfSyntaxError as e:
                    self.prob('object stream %d: %s' % (a, e)); stms.setdefault(a, [])
        for a, lst in stms.items():
            for i, (n, o) in enumerate(lst):
                if self.xref.get(n) != (2, a, i): self.prob('object stream %d holds object %d, which the xref places elsewhere' % (a, n))
        self.objstm = {a: [n for n, _ in l] for a, l in stms.items()}
        self.check_body(sx)
        self.check_graph()
    def read_indirect(self, off, n, g, check=True):
        d = self.data
        m = re.compile(rb'(\d+) (\d+) obj(?=[\x00\t\n\x0c\r <\[(/%+\-.0-9tfn])').match(d, off)
        if not m: raise PdfSyntaxError('no object at offset %d' % off)
        if check and (int(m.group(1)) != n or int(m.group(2)) != g): raise PdfSyntaxError('offset %d holds object %s %s' % (off, m.group(1).decode(), m.group(2).decode()))
        lx = Lexer(d, m.end())
        o = lx.obj()
        if isinstance(o, Op): raise PdfSyntaxError('bare word %r as object' % str(o))
        lx.ws()
        if d[lx.p:lx.p+6] == b'stream':
            if not isinstance(o, dict): raise PdfSyntaxError('stream without dictionary')
            p = lx.p+6
            if d[p:p+2] == b'\r\n': p += 2
            elif d[p:p+1] == b'\n': p += 1
            else: raise PdfSyntaxError('stream keyword not followed by end of line')
            L = o.get('Length')
            if isinstance(L, Ref):
                raise PdfSyntaxError('indirect length')
            if not isinstance(L, Num) or not L.isint: raise PdfSyntaxError('bad stream length')
            L = L.v
            tail = re.compile(rb'(\r\n|\n|\r)?endstream').match(d, p+L)
            if not tail: raise PdfSyntaxError('stream length %d does not end at endstream' % L)
            s = Stream(o, d[p:p+L]); s.onum = n
            lx.p = tail.end(); lx.ws(); res = s
        else: res = o
        if d[lx.p:lx.p+6] != b'endobj': raise PdfSyntaxError('no endobj, found %r' % d[lx.p:lx.p+12])
        self.phys[off] = (int(m.group(1)), lx.p+6)
        return res
    def read_table(self, sx, end):
        d = self.data; self.xrefkind = 'table'
        m = re.compile(rb'xref\r?\n0 (\d+)\r?\n').match(d, sx)
        if not m: raise PdfSyntaxError('bad xref header')
        cnt = int(m.group(1)); p = m.end()
        for i in range(cnt):
            e = d[p:p+20]; p += 20
            mm = re.fullmatch(rb'(\d{10}) (\d{5}) ([nf])( \n| \r|\r\n)', e)
            if not mm: raise PdfSyntaxError('bad xref entry %d %r' % (i, e))
            if mm.group(3) == b'n': self.xref[i] = (1, int(mm.group(1)), int(mm.group(2)))
            else:
                self.xref[i] = (0, int(mm.group(1)), int(mm.group(2)))
        if self.xref.get(0) != (0, 0, 65535): self.prob('xref entry 0 is not the free list head')
        lx = Lexer(d, p, end); lx.ws()
        if d[lx.p:lx.p+7] != b'trailer': raise PdfSyntaxError('no trailer')
        lx.p += 7
        t = lx.obj()
        if not isinstance(t, dict): raise PdfSyntaxError('trailer is not a dictionary')
        self.trailer = t; self.size_check(cnt)
    def size_check(self, cnt):
        s = self.trailer.get('Size')
        if not isinstance(s, Num) or s.v != cnt: self.prob('trailer Size %r, %d xref entries' % (s, cnt))
    def read_xrefstm(self, sx, end):
        d = self.data; self.xrefkind = 'stream'
        s = self.read_indirect(sx, 0, 0, check=False)
        n = self.phys[sx][0]; s.onum = n
        self.xrefobj = n
        if not isinstance(s, Stream) or s.d.get('Type') != 'XRef': raise PdfSyntaxError('no xref stream at startxref')
        self.trailer = s.d
        W = [w.v for w in s.d.get('W', [])]
        if len(W) != 3: raise PdfSyntaxError('bad W')
        data = decode_stream(s, self.problems, 'xref stream'); rl = sum(W)
        idx = s.d.get('Index'); cnt = len(data)//rl
        if len(data) % rl: self.prob('xref stream length is not a multiple of the record length')
        rng = range(cnt)
        if idx is not None:
            rng = []
            for a, c in zip(idx[::2], idx[1::2]): rng += range(a.v, a.v+c.v)
        if len(rng) != cnt: self.prob('xref stream holds %d records for %d objects' % (cnt, len(rng)))
        for i, k in zip(range(cnt), rng):
            r = data[i*rl:(i+1)*rl]
            f = []; p = 0
            for w in W: f.append(int.from_bytes(r[p:p+w], 'big')); p += w
            t = f[0] if W[0] else 1
            if t not in (0, 1, 2): self.prob('xref record %d has type %d' % (k, t))
            self.xref[k] = (t, f[1], f[2])
        if self.xref.get(0, (1,))[0] != 0: self.prob('xref entry 0 is not free')
        self.size_check(max(self.xref)+1)
        self.objs[n] = s
        if self.xref.get(n) != (1, sx, 0): self.prob('the xref stream does not list itself at its own offset')
    def read_objstm(self, a):
        x = self.xref.get(a)
        if not x or x[0] != 1: raise PdfSyntaxError('object stream %d is not a plain object' % a)
        s = self.objs.get(a)
        if not isinstance(s, Stream) or s.d.get('Type') != 'ObjStm': raise PdfSyntaxError('object %d is not an object stream' % a)
        data = decode_stream(s, self.problems, 'object stream')
        N = s.d['N'].v; first = s.d['First'].v
        hdr = data[:first].split()
        if len(hdr) != 2*N: raise PdfSyntaxError('object stream header has %d entries for N=%d' % (len(hdr), N))
        offs = [int(x) for x in hdr]; out = []
        for i in range(N):
            n, o = offs[2*i], offs[2*i+1]
            e = first + offs[2*i+3] if i+1 < N else len(data)
            if not (first + o <= e <= len(data)): raise PdfSyntaxError('object stream offsets out of order')
            lx = Lexer(data, first+o, e)
            try:
                v = lx.obj()
                if isinstance(v, Op): raise PdfSyntaxError('bare word %r' % str(v))
                lx.ws()
                if lx.p != e: raise PdfSyntaxError('garbage %r after object' % data[lx.p:lx.p+12])
            except PdfSyntaxError as ex:
                self.prob('object %d in object stream: %s' % (n, ex)); v = None
            out.append((n, v))
        return out
    def check_body(self, sx):
        """The body is a gapless sequence of objects, each reachable from the xref."""
        d = self.data
        p = re.match(rb'%PDF-\d\.\d\r?\n(%[^\n]*\n)?', d).end()
        seen = set()
        limit = sx if self.xrefkind == 'table' else d.rfind(b'startxref')
        while True:
            m = re.compile(rb'[\x00\t\n\x0c\r ]*').match(d, p); p = m.end()
            if p >= limit: break
            if p not in self.phys: self.prob('unlisted bytes in the body at %d: %r' % (p, d[p:p+16])); break
            n, e = self.phys[p]
            if n in seen: self.prob('object %d appears twice' % n)
            seen.add(n); self.order.append(n); p = e
        for n, (k, a, g) in self.xref.items():
            if k == 1 and n not in seen: self.prob('object %d of the xref is not in the body' % n)
        nums = set(self.xref)
        if nums != set(range(max(nums)+1)): self.prob('object numbers are not dense')
        for n, (k, a, g) in self.xref.items():
            if n and k == 0: self.prob('object %d is free' % n)
    def walk(self, o, fn, path=''):
        fn(o, path)
        if isinstance(o, Stream): self.walk(o.d, fn, path); return
        if isinstance(o, dict):
            for k, v in o.items(): self.walk(v, fn, path + '/' + str(k))
        elif isinstance(o, list):
            for i, v in enumerate(o): self.walk(v, fn, path + '[%d]' % i)
    def check_graph(self):
        for key in ('Root', 'ID'):
            if key not in self.trailer: self.prob('trailer has no %s' % key)
        ID = self.trailer.get('ID')
        if ID is not None and not (isinstance(ID, list) and len(ID) == 2 and all(isinstance(x, bytes) and len(x) for x in ID)):
            self.prob('bad trailer ID')
        def fn(label):
            def g(o, path):
                if isinstance(o, Ref):
                    if o.n not in self.objs or o.g != 0: self.prob('%s%s: reference to missing object %d' % (label, path, o.n))
                if isinstance(o, dict) and getattr(o, 'dups', None):
                    self.prob('%s%s: duplicated key %s' % (label, path, ','.join(o.dups)))
            return g
        for n, o in list(self.objs.items()):
            self.walk(o, fn('object %d' % n))
            if isinstance(o, Stream): decode_stream(o, self.problems, 'object %d' % n)
        self.walk(self.trailer, fn('trailer'))
        root = self.get(self.trailer.get('Root'))
        if not isinstance(root, dict) or root.get('Type') != 'Catalog': self.prob('Root is not a catalog')
        # reachability
        seen = set(); todo = [self.trailer]
        while todo:
            x = todo.pop()
            def g(o, path):
                if isinstance(o, Ref) and o.n not in seen and o.n in self.objs:
                    seen.add(o.n); todo.append(self.objs[o.n])
            self.walk(x, g)
        self.reach = seen
    def get(self, o):
        k = 0
        while isinstance(o, Ref):
            o = self.objs.get(o.n); k += 1
            if k > 20: return None
        return o

def parse_content(data):
    """-> (list of (operator, operands), problems)"""
    lx = Lexer(data); ops = []; args = []; problems = []
    try:
        while lx.peek() != b'':
            o = lx.obj(refs=False)
            if isinstance(o, Op):
                ops.append((str(o), args)); args = []
            else: args.append(o)
        if args: problems.append('operands without operator at the end')
    except PdfSyntaxError as e:
        problems.append('content syntax: %s' % e)
    return ops, problems

if __name__ == '__main__':
    import sys
    p = Pdf(open(sys.argv[1], 'rb').read())
    for n in sorted(p.objs):
        o = p.objs[n]
        if isinstance(o, Stream):
            print(n, o.d, 'STREAM', len(o.raw), (o.data or b'')[:3000] if o.d.get('Type') not in ('XRef', 'ObjStm') and len(o.data or b'') < 6000 else '')
        else: print(n, o)
    print('trailer', p.trailer, 'version', p.version)
    print('PROBLEMS', p.problems)
