"""Further comparisons of the real library against what the specification says about whole
histories (not single calls)."""
import os, re, shutil, json, ctypes
import driver, facts

def play(lib, hist, work, keep=lambda e: True, timeout=60):
    """make the calls of a history again; -> ({file: bytes}, what went wrong)"""
    shutil.rmtree(work, ignore_errors=True); os.makedirs(work)
    def body(emit):
        driver.WORK[0] = work
        run = driver.Run(lib)
        for k, e in enumerate(hist):
            if not keep(e): continue
            c = dict(e['c']); c['g'] = e['g']
            emit(k)
            rc = run.call(c)
            if (rc == 0) != (e['rc'] == 0): emit(['!', k, 'returned %s' % ('success' if rc == 0 else 'an error (%d)' % rc)]); return
    ev, st, sig = driver.sandboxed(body, work, timeout)
    if st != 'ok': return files(work), (ev[-1] if ev else 0, 'the process died (%s %d)' % (st, sig))
    if ev and isinstance(ev[-1], list): return files(work), (ev[-1][1], ev[-1][2])
    return files(work), None
def files(work):
    out = {}
    for n in sorted(os.listdir(work)):
        p = os.path.join(work, n)
        if os.path.isfile(p) and n != 'driver-error.txt': out[n] = noid(open(p, 'rb').read())
    return out
def noid(b):
    """the identifier in the trailer is random by design"""
    return re.sub(rb'/ID\s*\[\s*<[0-9A-Fa-f]*>\s*<[0-9A-Fa-f]*>\s*\]', b'/ID[]', b)

def drop(lib, hist, work, topics, opts):
    """P05: leaving the refused calls out changes nothing"""
    a = files(work)
    w2 = work + '-b'
    b, err = play(lib, hist, w2, lambda e: e['rc'] == 0 or e['c']['f'] == 'generator_write', opts.get('timeout', 60))
    shutil.rmtree(w2, ignore_errors=True)
    if err: return dict(at=err[0], why=['without the refused calls before it: ' + err[1]])
    if a != b:
        n = sorted(set(a) ^ set(b)) or [k for k in a if a[k] != b[k]]
        d = ''
        if not set(a) ^ set(b):
            x, y = a[n[0]], b[n[0]]; i = next((i for i in range(min(len(x), len(y))) if x[i] != y[i]), min(len(x), len(y)))
            d = ' at byte %d: %r / %r' % (i, x[max(0, i - 30):i + 40], y[max(0, i - 30):i + 40])
        bad = max([k for k, e in enumerate(hist) if e['c']['f'] == 'generator_write'] or [0])
        return dict(at=bad, why=['leaving out the refused calls changes the file %s%s' % (n, d)])
    return None

def python(so, lib, hist, work, opts):
    """P24: the calls through the Python interface do what they do through the C interface"""
    import pydriver
    t = opts.get('timeout', 60)
    def both(make, w):
        shutil.rmtree(w, ignore_errors=True); os.makedirs(w)
        def body(emit):
            driver.WORK[0] = w
            run = make(); bad = None
            for k, e in enumerate(hist):
                c = dict(e['c']); c['g'] = e['g']
                emit(['>', k])
                r = run.call(c)
                r, why = r if isinstance(r, tuple) else (r, None)
                emit(['=', k, r, c.get('id', '') if not r else '', c.get('val') if not r else None, why, c.get('rcs'), c.get('exc')])
            if hasattr(run, 'stack'):
                run.h.clear(); run.ids.clear(); run.pat.clear(); run.stack.clear()
                import gc; gc.collect()
            emit(['end'])
        ev, st, sig = driver.sandboxed(body, w, t)
        err = ''
        try: err = open(os.path.join(w, 'driver-error.txt')).read()[-1500:]
        except OSError: pass
        return ev, st, sig, err
    w2 = work + '-b'
    try:
        a, sta, siga, erra = both(lambda: driver.Run(lib), work)
        if sta == 'driver-error': return dict(at=len(a) // 2, why=['HARNESS: ' + erra], harness=True)
        b, stb, sigb, errb = both(lambda: pydriver.PyRun(os.path.dirname(so)), w2)
        A = {x[1]: x for x in a if x[0] == '='}; B = {x[1]: x for x in b if x[0] == '='}
        for k in range(len(hist)):
            if k not in A: return None                  # the library itself dies here: not a matter of Python
            if k not in B:
                if stb == 'driver-error': return dict(at=k, why=['HARNESS: ' + errb], harness=True)
                return dict(at=k, why=['the Python process died (%s %d)' % (stb, sigb)])
            x, y = A[k], B[k]
            if y[5]: return dict(at=k, why=[y[5]])
            if (x[2] == 0) != (y[2] == 0): return dict(at=k, why=['in C the call %s, in Python it %s' % ('succeeds' if x[2] == 0 else 'is refused (%d)' % x[2], 'succeeds' if y[2] == 0 else 'fails: %s' % y[7])])
            if x[2] and y[6] and y[6][0] != x[2]: return dict(at=k, why=['in C the call returns error %d, in Python %d' % (x[2], y[6][0])])
            if hist[k]['id'] and x[3] != y[3]: return dict(at=k, why=['in C the call returns %s, in Python %s' % (x[3], y[3])])
            if x[4] is not None and x[4] != y[4]: return dict(at=k, why=['in C the call returns %s, in Python %s' % (x[4], y[4])])
        last = max([k for k, e in enumerate(hist) if e['c']['f'] == 'generator_write'] or [0])
        if ['end'] not in b: return dict(at=last, why=['the Python process died while its objects were destroyed (%s %d)' % (stb, sigb)])
        fa, fb = files(work), files(w2)
        if fa != fb:
            n = sorted(set(fa) ^ set(fb)) or [k for k in fa if fa[k] != fb[k]]
            d = ''
            if not set(fa) ^ set(fb):
                x, y = fa[n[0]], fb[n[0]]; i = next((i for i in range(min(len(x), len(y))) if x[i] != y[i]), min(len(x), len(y)))
                d = ' at byte %d: C %r / Python %r' % (i, x[max(0, i - 40):i + 40], y[max(0, i - 40):i + 40])
                try:
                    bl = driver.blobs_of([e['c'] for e in hist])
                    p, q = facts.facts(open(os.path.join(work, n[0]), 'rb').read(), bl), facts.facts(open(os.path.join(w2, n[0]), 'rb').read(), bl)
                    if p != q: d = ': only in C %s; only in Python %s' % (sorted(p - q)[:3], sorted(q - p)[:3])
                except Exception: pass
            return dict(at=last, why=['the Python interface writes another file: %s%s' % (n, d)])
        return None
    finally: shutil.rmtree(w2, ignore_errors=True)
INSTEAD = dict(python=python)
def leftovers(lib, hist, work, topics, opts):
    """P11: only documents whose writing succeeded are in the directory"""
    name = {}; good = set(); last = 0
    for k, e in enumerate(hist):
        c = e['c']
        if c['f'] == 'generator_new': name[c['out']] = os.path.basename(c['s'][0])
        if c['f'] == 'generator_write':
            last = k
            if e['rc'] == 0: good.add(name[c['o']])
    there = set(files(work))
    if there == good: return None
    return dict(at=last, why=['the directory holds %s; must hold %s' % (sorted(there), sorted(good))])
def noise(l, n, seed):
    """leave the heap in another state"""
    import random
    r = random.Random(seed); l.malloc.restype = ctypes.c_void_p; l.malloc.argtypes = [ctypes.c_size_t]; l.free.argtypes = [ctypes.c_void_p]
    b = [l.malloc(r.choice((16, 24, 40, 64, 100, 200, 500, 1000, 5000))) for _ in range(n)]
    r.shuffle(b)
    for p in b[:n * 2 // 3]: l.free(p)
def elsewhere(work, seed):
    """another process environment: directory, time zone, language, file mode, heap"""
    import locale, time
    l = ctypes.CDLL(None); l.mallopt(-6, 0xA5)
    os.chdir('/'); os.umask(0o077); os.environ['TZ'] = 'Asia/Kolkata'; time.tzset()
    for k in ('HOME', 'LANG', 'USER'): os.environ[k] = '/nonexistent'
    if LOCALE[0]:
        os.environ['LOCPATH'] = LOCALE[0]; l.setlocale.restype = ctypes.c_char_p
        if not l.setlocale(6, b'xx_XX.UTF-8'): raise RuntimeError('no locale')
    noise(l, 3000, seed)
    return l
LOCALE = [None]
def mklocale(d):
    """a language that writes 1.234,5"""
    import subprocess
    p = os.path.join(d, 'locale'); os.makedirs(p, exist_ok=True)
    subprocess.run(['localedef', '-c', '-i', 'de_DE', '-f', 'UTF-8', os.path.join(p, 'xx_XX.UTF-8')], capture_output=True)
    return p if os.path.exists(os.path.join(p, 'xx_XX.UTF-8/LC_NUMERIC')) else None
def differ(a, b, names):
    for n in names:
        if n not in a or n not in b: 
            if (n in a) != (n in b): return '%s is there only once' % n
            continue
        x, y = a[n], b[n]
        if x != y:
            i = next((i for i in range(min(len(x), len(y))) if x[i] != y[i]), min(len(x), len(y)))
            return '%s differs at byte %d: %r / %r' % (n, i, x[max(0, i - 40):i + 40], y[max(0, i - 40):i + 40])
def again(lib, hist, work, topics, opts):
    """P23: the same calls give the same bytes: in another environment, after themselves, and without the calls about other documents"""
    a = files(work); w2 = work + '-b'
    last = max([k for k, e in enumerate(hist) if e['c']['f'] == 'generator_write'] or [0])
    LOCALE[0] = opts.get('locale')
    def body(emit):
        l = elsewhere(w2, len(hist)); old = []
        for r in (1, 2):
            w = os.path.join(w2, str(r)); os.makedirs(w); driver.WORK[0] = w
            run = driver.Run(lib); old.append(run)
            for k, e in enumerate(hist):
                c = dict(e['c']); c['g'] = e['g']; emit([k])
                rc = run.call(c)
                if (rc == 0) != (e['rc'] == 0): emit(['!', k, 'made again (%d) it returns %s' % (r, 'success' if rc == 0 else 'an error (%d)' % rc)]); return
                if k % 3 == 0: noise(l, 12, k)
    shutil.rmtree(w2, ignore_errors=True); os.makedirs(w2)
    try:
        ev, st, sig = driver.sandboxed(body, w2, opts.get('timeout', 60))
        if st == 'driver-error': return dict(at=0, why=['HARNESS: ' + open(os.path.join(w2, 'driver-error.txt')).read()[-1500:]], harness=True)
        if st != 'ok': return dict(at=ev[-1][0] if ev else 0, why=['made again, the process died (%s %d)' % (st, sig)])
        if ev and ev[-1][0] == '!': return dict(at=ev[-1][1], why=[ev[-1][2]])
        for r in (1, 2):
            b = files(os.path.join(w2, str(r))); d = differ(a, b, sorted(set(a) | set(b)))
            if d: return dict(at=last, why=['the same calls again (%d): ' % r + d])
        import replay
        if opts['so2'] not in replay.LIBS: replay.LIBS[opts['so2']] = driver.Lib(opts['so2'])
        gens = [e['c']['out'] for e in hist if e['c']['f'] == 'generator_new' and e['rc'] == 0]
        for g in gens:
            have = {'null'}; shared = set(); keep = set(); skip = False; name = None
            for k, e in enumerate(hist):
                c = e['c']; m = {c['o']} | set(c['h']) | {x for l in c['hh'] for x in l}; m.discard('')
                if not (c['out'] == g if c['f'] == 'generator_new' else e['g'] in (g, '') or (not c['i'] and not c['ia'] and (not c['o'] or c['o'] in shared))): continue
                if not m <= have:
                    if e['rc'] == 0: skip = True
                    continue
                keep.add(k)
                if c['out'] and e['rc'] == 0: have.add(c['out'])
                if not c['o'] and c['f'] != 'generator_new': shared.add(c['out'])
                if c['f'] == 'generator_new' and c['out'] == g: name = os.path.basename(c['s'][0])
            if skip: continue
            idx = {id(e): k for k, e in enumerate(hist)}
            b, err = play(replay.LIBS[opts['so2']], hist, w2, lambda e: idx[id(e)] in keep, opts.get('timeout', 60))
            if err: return dict(at=err[0], why=['without the other documents: ' + err[1]])
            d = differ(a, b, [name])
            if d: return dict(at=last, why=['without the other documents: ' + d])
    finally: shutil.rmtree(w2, ignore_errors=True)
    return None
RUN = dict(again=again, drop=drop, leftovers=leftovers)
