"""Execute histories of CapyPDF API calls (JSON records) against the real library.

A call is a record  {"f": function without the capy_ prefix, "o": handle, "h": [handles],
"n": [numbers; a double is given in thousandths], "i": [symbolic ids], "s": [strings],
"z": [explicit string sizes], "d": [[double arrays]], "out": handle to create}.
The driver adds "rc" (error code, or -1000 when the process died) and "id" (symbolic id)."""
import ctypes, os, sys, json, re, hashlib, math, signal, struct
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import header
REPO = os.environ.get('VERIF_REPO', '/repo')
FUNCS, ENUMS, IDS = header.parse(os.path.join(REPO, 'include/capypdf.h.in'))
OPAQUE = {b for r, a in FUNCS.values() for b, s, n in a
          if b.startswith('CapyPDF_') and s >= 1 and b not in ENUMS and b not in IDS}

FAM = {'form': 'xf', 'tg': 'xf'}
class IdS(ctypes.Structure): _fields_ = [('id', ctypes.c_int32)]
SPECIAL = {2000000001: float('nan'), 2000000002: float('inf'), 2000000003: float('-inf'),
           2000000004: 1e20, 2000000005: -1e20, 2000000006: 1e-9,
           2000000007: 1 / 3, 2000000008: 123456.789012, 2000000009: -0.000001, 2000000010: -0.0, 2000000011: sys.float_info.max}
NEGSIZE = 2000000012
def num(v):
    return SPECIAL[v] if v in SPECIAL else v / 1000.0

KIND = {'FormXObjectId': 'form', 'TransparencyGroupId': 'tg', 'SoftMaskId': 'sm', 'PatternId': 'pat', 'EmbeddedFileId': 'ef',
        'FontId': 'font', 'ImageId': 'img', 'FunctionId': 'fn', 'ShadingId': 'sh', 'GraphicsStateId': 'gs',
        'StructureItemId': 'si', '3DStreamId': '3d', 'IccColorSpaceId': 'icc', 'LabColorSpaceId': 'lab', 'SeparationId': 'sep',
        'OptionalContentGroupId': 'ocg', 'AnnotationId': 'annot', 'FormFieldId': 'ff', 'RoleId': 'role', 'OutlineId': 'outl'}

def unesc(s):
    """Specification string notation -> bytes.  ~uHEX; code point, ~xHEX..; raw bytes, ~rN,c; repetition."""
    out = bytearray(); p = 0
    for m in re.finditer(r'~u([0-9A-F]+);|~x([0-9A-F]*);|~r(\d+),(.);', s):
        out += s[p:m.start()].encode('ascii'); p = m.end()
        if m.group(1): out += chr(int(m.group(1), 16)).encode('utf-8', 'surrogatepass')
        elif m.group(2) is not None: out += bytes.fromhex(m.group(2))
        else: out += m.group(4).encode() * int(m.group(3))
    out += s[p:].encode('ascii')
    return bytes(out)

def blob(spec):
    """Named binary data: 'fill:LEN:SEED', 'file:PATH', 'hex:..'"""
    k, _, r = spec.partition(':')
    if k == 'fill':
        a = r.split(':'); n = int(a[0]); seed = int(a[1])
        return bytes(((i*7 + seed*31 + (i >> 3)*seed) & 255) for i in range(n))
    if k == 'rand':
        import random
        a = r.split(':'); return random.Random(int(a[1])).randbytes(int(a[0]))
    if k == 'zfill':
        import zlib
        return zlib.compress(blob('fill:' + r))
    if k in ('img', 'conv'):
        import images
        return images.convert(spec) if k == 'conv' else images.data(*r.split(':'))
    if k == 'file': return open(path(r), 'rb').read()
    if k == 'hex': return bytes.fromhex(r)
    return unesc(spec)

def path(s):
    return s.replace('@I', IMAGES).replace('@F', os.path.join(os.path.dirname(IMAGES), 'fonts')).replace('@T', os.path.join(REPO, 'testdata')).replace('@W', WORK[0])
WORK = ['.']; IMAGES = os.path.join(os.path.dirname(HERE), '.build', 'images')
BLOBARGS = {('generator_load_image_from_memory', 'buf'), ('generator_add_icc_profile', 'buf'),
            ('raster_image_builder_set_pixel_data', 'buf'), ('raster_image_builder_set_alpha_data', 'buf'),
            ('embedded_file_set_contents', 'data')}
PATHARGS = {'filename', 'fname', 'path', 'profile_path'}

DESTROY = {a[0][0]: n for n, (r, a) in FUNCS.items() if n.endswith('_destroy')}
class Lib:
    def __init__(self, so):
        self.l = ctypes.CDLL(so)
        self.fn = {}
        for n, (r, a) in FUNCS.items():
            try: f = getattr(self.l, n)
            except AttributeError: continue
            f.restype = ctypes.c_int32 if r == 'CapyPDF_EC' else ctypes.c_char_p
            at = []
            for b, s, nm in a:
                if s >= 1: at.append(ctypes.c_void_p if b != 'char' else ctypes.c_void_p)
                elif b == 'double': at.append(ctypes.c_double)
                elif b in IDS: at.append(IdS)
                elif b in ('int32_t',) or b in ENUMS or b == 'CapyPDF_EC': at.append(ctypes.c_int32)
                elif b == 'uint32_t': at.append(ctypes.c_uint32)
                elif b == 'int64_t': at.append(ctypes.c_int64)
                elif b == 'uint64_t': at.append(ctypes.c_uint64)
                else: raise ValueError((n, b))
            f.argtypes = at
            self.fn[n] = f

class Run:
    def __init__(self, lib, fonts=None):
        self.lib = lib; self.h = {}; self.kind = {}; self.keep = []
        self.ids = {}           # generator handle -> kind -> raw ids in the order first seen
        self.own = {}           # context/text handle -> generator handle
    def hd(self, name):
        if name == 'null': return None
        return self.h[name]
    def destroy(self, seed):
        """destroy everything that is left: contexts and texts before the documents they belong to"""
        import random
        r = random.Random(seed); l = [x for x in self.h if self.kind.get(x)]; r.shuffle(l)
        rank = {'capy_text_destroy': 0, 'capy_dc_destroy': 1, 'capy_generator_destroy': 3}
        l.sort(key=lambda x: rank.get(self.kind[x], r.choice((0, 1, 2, 3, 4))))
        for x in l:
            rc = self.lib.fn[self.kind[x]](self.h.pop(x))
            if rc: return '%s returns %d' % (self.kind[x], rc)
    def idv(self, s, g):
        k, _, v = s.partition(':')
        if v.startswith('#'): return int(v[1:])
        n = int(v) - 1
        if k == 'icc': return n
        for t in ([self.ids[g]] if g in self.ids else []) + list(self.ids.values()):
            if n < len(t.get(FAM.get(k, k), [])): return t[FAM.get(k, k)][n][1]
        raise KeyError(s)
    def call(self, c):
        f = c['f']; name = 'capy_' + f
        ret, args = FUNCS[name]; fn = self.lib.fn[name]
        g = c.get('g') or self.own.get(c.get('o'), c.get('o'))
        hs = ([c['o']] if c.get('o') else []) + list(c.get('h', []))
        ns = list(c.get('n', [])); iss = list(c.get('i', [])); ss = list(c.get('s', []))
        zs = list(c.get('z', [])); ds = list(c.get('d', [])); hhs = list(c.get('hh', [])); ias = list(c.get('ia', []))
        cargs = []; keep = []; out = None; outid = None; res = []
        k = 0
        while k < len(args):
            b, s, nm = args[k]; nxt = args[k+1] if k+1 < len(args) else None
            if s == 2 and nm == 'out_ptr':
                out = ctypes.c_void_p(); cargs.append(ctypes.addressof(out))
            elif s == 2:
                l = [self.hd(x) for x in hhs.pop(0)]
                arr = (ctypes.c_void_p * max(1, len(l)))(*l); keep.append(arr); cargs.append(ctypes.addressof(arr))
            elif b in IDS and s == 1 and nm == 'out_ptr':
                outid = IdS(-77); cargs.append(ctypes.addressof(outid)); idk = KIND[b[8:]]
            elif b in IDS and s == 1:
                if nxt and re.search('size|num_values', nxt[2]):
                    l = [IdS(self.idv(x, g)) for x in ias.pop(0)]
                    arr = (IdS * max(1, len(l)))(*l); keep.append(arr); cargs.append(ctypes.addressof(arr))
                    cargs.append(len(l)); k += 1
                else:
                    x = iss.pop(0)
                    if x == 'null': cargs.append(None)
                    else:
                        v = IdS(self.idv(x, g)); keep.append(v); cargs.append(ctypes.addressof(v))
            elif b in IDS: cargs.append(IdS(self.idv(iss.pop(0), g)))
            elif b == 'char' and s == 1:
                x = ss.pop(0)
                if x == 'null': data = None
                elif (f, nm) in BLOBARGS: data = blob(x)
                elif nm in PATHARGS: data = path(x).encode()
                else: data = unesc(x)
                if data is None: cargs.append(None)
                else:
                    sized = nxt and re.search(r'(size|len)$', nxt[2]) and nxt[1] == 0
                    z = (zs[0] if zs else -1) if sized else -1
                    if sized and (f, nm) in BLOBARGS: z = len(data)
                    # text of a given size ends there, without a terminator
                    full = data[:len(data) if z == -2 else z] if z == -2 or z >= 0 else data + b'\0'
                    buf = (ctypes.c_char * max(1, len(full))).from_buffer_copy(full or b'~'); keep.append(buf); cargs.append(ctypes.addressof(buf))
                if nxt and re.search(r'(size|len)$', nxt[2]) and nxt[1] == 0:
                    z = zs.pop(0) if zs else -1
                    if (f, nm) in BLOBARGS: z = len(data)
                    elif z == -2: z = len(data or b'')         # explicit exact length
                    cargs.append(z); k += 1
            elif b == 'double' and s == 1 and nm == 'out_ptr':
                v = ctypes.c_double(-1); res.append(v); cargs.append(ctypes.addressof(v))
            elif b == 'double' and s == 1:
                l = ds.pop(0)
                if l == 'null' or (len(l) == 0 and nm in ('x', 'y', 'z')): cargs.append(None)
                else:
                    arr = (ctypes.c_double * max(1, len(l)))(*[num(x) for x in l]); keep.append(arr); cargs.append(ctypes.addressof(arr))
                if nxt and re.search('size|num_values', nxt[2]):
                    cargs.append(0 if l == 'null' else -len(l) if NEGSIZE in l else len(l)); k += 1
            elif (b in ENUMS or b in ('uint32_t', 'int32_t')) and s == 1:
                if nm in ('w', 'h', 'out_ptr'):
                    v = ctypes.c_int32(-77); res.append(v); cargs.append(ctypes.addressof(v))
                else:
                    x = ns.pop(0)
                    if x == -99: cargs.append(None)
                    else:
                        v = ctypes.c_int32(x); keep.append(v); cargs.append(ctypes.addressof(v))
            elif s == 1 and b in OPAQUE: cargs.append(self.hd(hs.pop(0)))
            elif b == 'double': cargs.append(num(ns.pop(0)))
            else: cargs.append(ns.pop(0))
            k += 1
        rc = fn(*cargs)
        c['rc'] = rc
        if outid is not None:
            c['id'] = ''
            if rc == 0:
                fam = FAM.get(idk, idk); l = self.ids.setdefault(g, {}).setdefault(fam, [])
                if fam == 'icc': sym = outid.id + 1
                elif (idk, outid.id) in l: sym = l.index((idk, outid.id)) + 1
                else: l.append((idk, outid.id)); sym = len(l)
                c['id'] = '%s:%d' % (fam, sym)
        if out is not None and rc == 0 and c.get('out'):
            self.h[c['out']] = out.value; self.kind[c['out']] = DESTROY.get(args[-1][0])
            self.own[c['out']] = c['out'] if f == 'generator_new' else g
        if res: c['val'] = [int(round(v.value*1000)) if isinstance(v, ctypes.c_double) else v.value for v in res]
        return rc

def blobs_of(calls):
    """digest of every piece of binary data a history mentions -> its name"""
    out = {}
    for c in calls:
        args = FUNCS['capy_' + c['f']][1]; ss = list(c.get('s', []))
        for b, s, nm in args:
            if b == 'char' and s == 1 and ss:
                x = ss.pop(0)
                if x == 'null': continue
                try:
                    if (c['f'], nm) in BLOBARGS:
                        for y in {x, x[1:] if x.startswith('zfill:') else x}: out[hashlib.sha256(blob(y)).digest()] = y
                    elif nm in PATHARGS and x.startswith('@T'): out[hashlib.sha256(open(path(x), 'rb').read()).digest()] = 'file:' + x
                except OSError: pass
    import images
    for c in calls:
        for x in c.get('s', []):
            n = x.split('@I/', 1)[1] if c['f'].startswith('generator_load_image') and '@I/' in x else ''
            if n in images.catalogue() and images.wide(n): out[hashlib.sha256(images.shifted(n)).digest()] = 'img:%s:shifted' % n
    out[hashlib.sha256(b'').digest()] = 'fill:0:0'
    return out

LAST = [0]
def sandboxed(fn, work, timeout=60):
    """Run fn(emit) in a forked child; -> (list of emitted values, status, signal)."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(r); st = 1
        try:
            WORK[0] = work
            import resource
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
            signal.alarm(timeout)
            dn = os.open('/dev/null', os.O_WRONLY); os.dup2(dn, 1); os.dup2(dn, 2)
            os.environ['SOURCE_DATE_EPOCH'] = '1700000000'
            with os.fdopen(w, 'w') as f:
                def emit(x): f.write(json.dumps(x) + '\n'); f.flush()
                fn(emit)
                f.write('.\n')
            st = 0
        except BaseException:
            import traceback
            try:
                with open(os.path.join(work, 'driver-error.txt'), 'a') as ef: traceback.print_exc(file=ef)
            except Exception: pass
        os._exit(st)
    os.close(w); ev = []; done = False
    with os.fdopen(r, errors='replace') as f:
        for line in f:
            if line == '.\n': done = True
            else:
                try: ev.append(json.loads(line))
                except ValueError: pass
    _, st = os.waitpid(pid, 0); LAST[0] = pid
    if done: return ev, 'ok', 0
    if os.WIFSIGNALED(st): return ev, 'crash', os.WTERMSIG(st)
    return ev, 'driver-error', 0
