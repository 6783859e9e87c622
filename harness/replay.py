"""Replay histories of the specification against the real library and compare every
outcome: result (accepted / refused), returned id, returned values, and the facts an
independent reader finds in each written file."""
import os, sys, json, shutil, hashlib, multiprocessing as mp
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import driver, facts

ZNOT = 'null'
def diff(want, got, topics):
    w = {tuple(x) for x in want}
    miss = sorted(w - got); extra = sorted(x for x in got - w)
    return ['missing %s %s = %s' % x for x in miss] + ['unexpected %s %s = %s' % x for x in extra]

def same(want, got):
    if want[0] == 'about': return bool(got) and abs(got[0] - want[1]) <= want[2]
    return want == got
def message(lib, rc):
    m = lib.fn['capy_error_message'](rc)
    return m and b'nvalid error code' not in m and m != lib.fn['capy_error_message'](0)
def named(want, blobs):
    """expected facts, with the data they speak of under one name for the same bytes"""
    out = []
    for x in want:
        if x[2].startswith(('img:', 'conv:', 'file:')):
            try: x = [x[0], x[1], blobs.setdefault(hashlib.sha256(driver.blob(x[2])).digest(), x[2])]
            except OSError: pass
        out.append(x)
    return out
def report():
    """what the sanitizer said about the last process"""
    f = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), '.build', 'asan.%d' % driver.LAST[0])
    try:
        t = open(f, errors='replace').read(); os.remove(f)
        l = [x.strip() for x in t.split('\n') if 'ERROR' in x or 'runtime error' in x or '/src/' in x]
        return ': ' + '; '.join(l[:6])
    except OSError: return ''
def expectedfile(run, e): return run.files.get(e['c']['o'])

def replay(lib, hist, work, topics, timeout=60, destroy=False, env=None):
    """-> None when the real library behaves as the specification says, else a dict"""
    topics = set(topics)
    calls = [e['c'] for e in hist]
    shutil.rmtree(work, ignore_errors=True); os.makedirs(work)
    def body(emit):
        driver.WORK[0] = work; os.environ.update(env or {})
        run = driver.Run(lib); files = {}
        blobs = driver.blobs_of(calls)
        for k, e in enumerate(hist):
            c = dict(e['c']); c['g'] = e['g']
            emit(['>', k])
            rc = run.call(c)
            bad = []
            if (rc == 0) != (e['rc'] == 0):
                bad.append('returned %s; must %s' % ('success' if rc == 0 else 'an error (%d)' % rc, 'succeed' if e['rc'] == 0 else 'be refused'))
            elif rc == 0 and e['id'] and c.get('id', '') != e['id']: bad.append('returned id %s; must be %s' % (c.get('id'), e['id']))
            elif rc == 0 and e['val'] and not same(e['val'], c.get('val')): bad.append('returned %s; must be %s' % (c.get('val'), e['val']))
            if c['f'] == 'generator_new': files[c['out']] = driver.path(c['s'][0])
            if not bad and c['f'] == 'generator_write' and rc == 0:
                try: data = open(files[c['o']], 'rb').read()
                except OSError as ex: bad.append('no file written: %s' % ex); data = None
                if data is not None:
                    want = named(e['xf'], blobs)
                    try: F = {x for x in facts.facts(data, blobs, topics) if x[0] in topics or x[0] == 'problem'}
                    except Exception as ex: bad = ['the written file can not be read back: %s: %s' % (type(ex).__name__, str(ex)[:300])]
                    else: bad = diff(want, F, topics)
            if not bad and rc != 0 and not message(lib, rc): bad.append('no message for error %d' % rc)
            if c['f'].endswith('_destroy'): run.h.pop(c['o'], None)
            if bad: emit(['!', k, bad]); return
        if destroy:
            bad = run.destroy(len(hist))
            if bad: emit(['!', len(hist) - 1, [bad]])
    ev, st, sig = driver.sandboxed(body, work, timeout)
    if st == 'crash': return dict(at=ev[-1][1] if ev else 0, why=['the process died (signal %d)%s' % (sig, report())])
    if st == 'driver-error':
        err = ''
        try: err = open(os.path.join(work, 'driver-error.txt')).read()[-1500:]
        except OSError: pass
        return dict(at=ev[-1][1] if ev else 0, why=['HARNESS: ' + err], harness=True)
    if ev and ev[-1][0] == '!': return dict(at=ev[-1][1], why=ev[-1][2])
    return None

def show(c):
    a = [c['o']] if c['o'] else []
    for k in ('h', 'i', 'n', 's', 'z', 'd', 'ia', 'hh'):
        a += [json.dumps(x) if k == 's' else str(x) for x in c[k]]
    return c['f'] + '(' + ', '.join(a) + ')' + (' -> ' + c['out'] if c['out'] else '')

LIBS = {}
def one(so, k, line, topics, base, opts):
    """replay one history (JSON) in this process's sandbox; -> (k, mismatch or None, calls, statistics)"""
    if so not in LIBS: LIBS[so] = driver.Lib(so)
    hist = json.loads(line)
    work = os.path.join(base, 'w%d' % os.getpid())
    if opts.get('instead'):
        import extra
        r = extra.INSTEAD[opts['instead']](so, LIBS[so], hist, work, opts)
    else: r = replay(LIBS[so], hist, work, topics, opts.get('timeout', 60), opts.get('destroy'), opts.get('env'))
    if not r and opts.get('extra'):
        import extra
        r = extra.RUN[opts['extra']](LIBS[so], hist, work, topics, opts)
    shutil.rmtree(work, ignore_errors=True)
    n = len(hist) if not r else r['at'] + 1
    fns = {}
    for e in hist[:n]:
        c = fns.setdefault(e['c']['f'], [0, 0]); c[1 if e['rc'] else 0] += 1
    return k, r, n, dict(calls=n, refused=sum(1 for e in hist[:n] if e['rc']), writes=sum(1 for e in hist[:n] if e['c']['f'] == 'generator_write'),
                         facts=sum(len(e['xf']) for e in hist[:n]), fns=fns)
