"""A small PDF reader for the demonstration."""
import os, sys, re, zlib, tempfile, shutil, atexit
sys.path.insert(0, os.environ.get('CAPY_PY', '/repo/python'))
os.environ.setdefault('CAPYPDF_SO_OVERRIDE', '/repo/_build/src')
os.environ['SOURCE_DATE_EPOCH'] = '1700000000'
T = '/repo/testdata'
WORK = tempfile.mkdtemp(prefix='demo-')
atexit.register(shutil.rmtree, WORK, True)
import ctypes
try:
    import capypdf
except Exception:
    capypdf = None
def path(n): return os.path.join(WORK, n)
def read(n): return open(path(n), 'rb').read()
def objects(data):
    """object number -> (dictionary text, decoded stream or None)"""
    out = {}
    for m in re.finditer(rb'(?:^|\n)(\d+) 0 obj\n(.*?)\nendobj', data, re.S):
        n = int(m.group(1)); body = m.group(2); s = None
        k = re.search(rb'>>\s*\nstream\n', body)
        if k:
            d = body[:k.start() + 2]; l = int(re.search(rb'/Length (\d+)', d).group(1)); s = body[k.end():k.end() + l]
            if b'/FlateDecode' in d: s = zlib.decompress(s)
        else: d = body
        out[n] = (d, s)
    for n, (d, s) in list(out.items()):
        if b'/ObjStm' in d:
            first = int(re.search(rb'/First (\d+)', d).group(1)); idx = [int(x) for x in s[:first].split()]
            pairs = list(zip(idx[::2], idx[1::2])) + [(0, len(s) - first)]
            for (a, o), (_, e) in zip(pairs, pairs[1:]): out[a] = (s[first + o:first + e], None)
    return out
def find(o, pat): return [n for n in sorted(o) if re.search(pat, o[n][0], re.S)]
def check(ok, what):
    if not ok: print('FAILED: ' + what); sys.exit(1)
    print('ok: ' + what)
def refused(f, *a):
    try: f(*a)
    except capypdf.CapyPDFException: return True
    return False
