"""P11: real writes under faults, recorded and judged by the specification of the file system.

The plans (which call fails, or where the process dies) are the terminal behaviours TLC finds of
CapyWriter.  Each is carried out on a real write with strace's fault injection; the recorded
system calls and the directory found afterwards are checked by TLC against CapyFsTrace, at every
point of every record."""
import os, sys, json, re, subprocess, shutil, signal, time
HERE = os.path.dirname(os.path.abspath(__file__))
import driver, engine, extra
WR = 'write,writev,pwrite64,pwritev,pwritev2'
CALLS = {'open': 'openat,open,creat', 'write': WR, 'fsync': 'fsync,fdatasync', 'close': 'close', 'rename': 'rename,renameat,renameat2', 'unlink': 'unlink,unlinkat'}
TRACE = ','.join(CALLS.values()) + ',ftruncate,truncate,link,linkat,symlink,sendfile,copy_file_range,fallocate,mkdir,rmdir,splice'
KINDOF = {n: k for k, v in CALLS.items() for n in v.split(',')}
OLD = b'%PDF-1.7 the document that was here before\n' * 40
OTHER = b'a file of the user\n'

def parse(log, work):
    """strace output -> (events concerning the directory, the same with their number among calls of their kind)"""
    ev = []; count = {}
    for l in open(log, errors='replace'):
        m = re.match(r'(?:\d+ +)?(\w+)\((.*)\) += (-?\d+|\?)(<[^>]*>)?(.*)$', l)
        if not m: continue
        f, a, ret, rp, tail = m.groups()
        k = KINDOF.get(f)
        if k: count[k] = count.get(k, 0) + 1
        if work not in l: continue
        r = -1 if ret == '?' else int(ret)
        names = [os.path.basename(x) for x in re.findall(r'"((?:[^"\\]|\\.)*)"', a) if work in x or '/' not in x] if f in ('openat', 'open', 'creat', 'rename', 'renameat', 'renameat2', 'unlink', 'unlinkat', 'truncate', 'link', 'linkat', 'symlink') else []
        e = dict(op=k or f, a='', b='', fd=-1, ret=r, t=False)
        if k == 'open':
            if not re.search(r'O_WRONLY|O_RDWR', a) and f != 'creat': continue
            e.update(a=names[0], t='O_TRUNC' in a or f == 'creat')
        elif k in ('write', 'fsync', 'close'):
            e.update(fd=int(re.match(r'(\d+)', a).group(1)))
            if k == 'fsync' and '<' in a: pass
        elif k == 'rename': e.update(a=names[0], b=names[-1])
        elif k == 'unlink': e.update(a=names[0])
        else: e.update(op='?' + f)
        ev.append((e, k, count.get(k, 0), 'INJECTED' in tail))
    return ev

def have_strace(work):
    try: r = subprocess.run(['strace', '-f', '-qq', '-o', os.path.join(work, 'probe'), '-e', 'trace=close', 'true'], capture_output=True, timeout=20)
    except Exception: return False
    return r.returncode == 0

class Doc:
    def __init__(self, so, base, k, hist, name):
        self.so = so; self.k = k; self.name = name; self.base = base
        self.hist = []
        for e in hist:
            e = json.loads(json.dumps(e))
            if e['c']['f'] == 'generator_new': e['c']['s'] = ['@W/' + name]
            self.hist.append(e)
        self.file = os.path.join(base, 'doc%d.json' % k); json.dump(self.hist, open(self.file, 'w'))
        self.wi = max(i for i, e in enumerate(self.hist) if e['c']['f'] == 'generator_write' and e['rc'] == 0)

def attempt(a):
    """one real write; -> dict(ev, dir, ok, killed, ...)"""
    doc, tag, had, inject, fsize, strace, whole = a
    work = os.path.join(doc['base'], 'w-' + tag); shutil.rmtree(work, ignore_errors=True); os.makedirs(work)
    log, res = os.path.join(doc['base'], 'log-' + tag), os.path.join(doc['base'], 'res-' + tag)
    for f in (log, res):
        if os.path.exists(f): os.unlink(f)
    open(os.path.join(work, 'other'), 'wb').write(OTHER)
    if had: open(os.path.join(work, doc['name']), 'wb').write(OLD)
    cmd = [sys.executable, '-B', os.path.join(HERE, 'fsrun.py'), doc['so'], doc['file'], work, res] + ([str(fsize)] if fsize is not None else [])
    if strace: cmd = ['strace', '-f', '--seccomp-bpf', '-qq', '-yy', '-s', '4096', '-o', log, '-e', 'trace=' + TRACE] + sum((['-e', 'inject=' + x] for x in inject), []) + cmd
    env = {k: v for k, v in os.environ.items() if k not in ('LD_PRELOAD',)}
    p = subprocess.run(cmd, env=dict(env, PYTHONHASHSEED='0', PYTHONDONTWRITEBYTECODE='1'), stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, timeout=120)
    try: rcs = json.load(open(res))
    except (OSError, ValueError): rcs = None
    out = {}
    for n in sorted(os.listdir(work)):
        b = extra.noid(open(os.path.join(work, n), 'rb').read())
        out[n] = 'old other' if b == OTHER else 'old ' + doc['name'] if b == OLD else 'new' if whole is not None and b == whole else 'partial'
        if whole is None and n == doc['name']: new = b
    r = dict(dir=out, rcs=rcs, killed=rcs is None, ev=parse(log, work) if strace else [], status=p.returncode, err=p.stderr.decode('utf-8', 'replace')[-300:])
    if whole is None: r['new'] = new if doc['name'] in out else None
    if doc['name'] in out and whole is None: r['size'] = os.path.getsize(os.path.join(work, doc['name']))
    shutil.rmtree(work, ignore_errors=True)
    for f in (log, res):
        if os.path.exists(f): os.unlink(f)
    return r

def plans(s, writes, maxfail):
    """terminal behaviours of CapyWriter"""
    cfg = os.path.join(s.work, 'writer.json'); json.dump(dict(writes=writes, maxfail=maxfail), open(cfg, 'w'))
    out, states, trans = tlc(s, 'CapyWriter', dict(CAPY_WRITER=cfg))
    return out, states, trans

def tlc(s, module, env):
    d = os.path.join(s.work, 'tlc-%s-%d' % (module, time.time_ns())); os.makedirs(d)
    for f in os.listdir(engine.SPEC): shutil.copy(os.path.join(engine.SPEC, f), d)
    p = subprocess.run(['java', '-Djava.io.tmpdir=' + d, '-Xss64m', '-XX:+UseSerialGC', '-Xmx3g', '-cp', engine.CP, 'tlc2.TLC', '-workers', '1', '-noGenerateSpecTE', '-config', module + '.cfg',
                        '-metadir', os.path.join(d, 'm'), module + '.tla'], cwd=d, env=dict(os.environ, **env), capture_output=True, text=True, timeout=800)
    if p.returncode or 'No error has been found' not in p.stdout:
        print('TLC failed (%s):\n%s' % (module, p.stdout[-3000:])); sys.exit(2)
    rows = [json.loads(json.loads(l)[2:]) for l in p.stdout.split('\n') if l.startswith('"@@')]
    m = re.search(r'([\d,]+) states generated, ([\d,]+) distinct', p.stdout)
    shutil.rmtree(d, ignore_errors=True)
    return rows, int(m.group(2).replace(',', '')), int(m.group(1).replace(',', ''))

ERR = {'open': ['EACCES', 'ENOSPC', 'EROFS'], 'write': ['ENOSPC', 'EIO'], 'fsync': ['EIO', 'ENOSPC'], 'close': ['EIO', 'ENOSPC'], 'rename': ['EACCES', 'EXDEV', 'EIO'], 'unlink': ['EACCES']}
NAMES = ['a.pdf', 'noextension', 'b.pdf~', 'c.x.y', 'd.pdf']

def check(s, hists):
    """carry out the plans on every document and judge the records"""
    rep = s.rep; base = os.path.join(s.work, 'fs'); os.makedirs(base)
    so = s.so(); strace = have_strace(base)
    if not strace: rep.assume.append('strace could not be used: only faults by file size limit were tried')
    runs = []; todo = []; docs = []
    for k, h in enumerate(hists):
        d = Doc(so, base, k, h, NAMES[k % len(NAMES)]); dd = dict(so=so, base=base, file=d.file, name=d.name)
        docs.append((d, dd))
    recs = s.pool.map(attempt, [(dd, 'r%d' % d.k, False, [], None, strace, None) for d, dd in docs])
    writes = max([sum(1 for e in r['ev'] if e[1] == 'write') for r in recs] + [1]) if strace else 1
    pl, st, tr = plans(s, min(writes, 6 if s.quick else 12), 2)
    rep.cov['states'] = rep.cov.get('states', 0) + st; rep.cov['transitions'] = rep.cov.get('transitions', 0) + tr
    rep.cov['fault_plans'] = len(pl)
    for (d, dd), r in zip(docs, recs):
        if r['new'] is None or r['rcs'] is None or r['rcs'][d.wi] != 0:
            rep.violation('history', dict(history=d.hist, at=d.wi, topics=['problem']), 'a write without faults: returned %s, files %s %s' % (r['rcs'] and r['rcs'][d.wi], r['dir'], r['err'])); continue
        whole = r['new']; seq = 0
        def add(had, inject, fsize, what, plan):
            nonlocal seq
            todo.append(((dd, 'f%d-%d' % (d.k, seq), had, inject, fsize, strace, whole), d, r['size'], what, had)); seq += 1
        add(True, [], None, 'no fault', []); add(False, [], None, 'no fault', [])
        if strace:
            evs = [e for e in r['ev']]
            byk = {}
            for e, k, n, inj in evs:
                if k: byk.setdefault(k, []).append(n)
            w = byk.get('write', [])
            done = set()
            for p in pl:
                for ei in range(3):
                    inject = []; what = []; skip = False
                    for x in p['plan']:
                        occ = byk.get(x['op'], [])
                        if x['op'] == 'unlink': n = '1+'; occ = [1]
                        elif not occ: skip = True; break
                        elif x['op'] == 'write':
                            # spread the plan's writes over the real ones
                            q = min(x['k'], len(occ) - 1) if len(occ) <= 6 or x['k'] < 3 else len(occ) - 1 - (5 - min(x['k'], 5))
                            n = occ[max(0, q)]
                        elif x['op'] == 'close': n = occ[-1]
                        else: n = occ[0]
                        er = ERR[x['op']]
                        if ei >= len(er) and not x['kill']: skip = ei > 0; 
                        kind = 'signal=SIGKILL' if x['kill'] else 'error=' + er[min(ei, len(er) - 1)]
                        inject.append('%s:%s:when=%s' % (CALLS[x['op']], kind, n)); what.append('%s %s at its call %s' % (x['op'], kind, n))
                    key = (tuple(inject), p['had'])
                    if skip or key in done: continue
                    if not p['plan']: continue
                    done.add(key); add(p['had'], inject, None, ', '.join(what), p)
        size = r['size']
        import random
        rng = random.Random(s.seed * 77 + d.k)
        for n in [0, 1, size - 1, size // 2, 4096, 4095] + [rng.randrange(size) for _ in range(4 if s.quick else 60)]:
            if 0 <= n < size: add(rng.random() < 0.5, [], n, 'files limited to %d of %d bytes' % (n, size), None)
    if len(todo) > (500 if s.quick else 6000): todo = todo[:500 if s.quick else 6000]
    res = s.pool.map(attempt, [t[0] for t in todo], chunksize=4)
    data = []; idx = []; faulted = 0
    for t, r in zip(todo, res):
        a, d, size, what, had = t
        if a[3] and strace and not any(e[3] for e in r['ev']) and not r['killed']: continue     # the fault hit something else
        faulted += 1
        odd = [e[0]['op'] for e in r['ev'] if e[0]['op'].startswith('?')]
        ok = bool(r['rcs']) and r['rcs'][d.wi] == 0
        data.append(dict(names=sorted({'other'} | ({d.name} if had else set())), target=d.name, whole=size, ok=ok, killed=r['killed'],
                         ev=[e[0] for e in r['ev']] if not odd else [], dir=r['dir']))
        idx.append((t, r, odd))
        if odd or not strace:       # calls the file system model does not have: only the outcome is judged
            x = data.pop(); idx.pop()
            want = {'new'} if x['ok'] else {'old ' + d.name} if had else {'absent'}
            if r['killed']: want |= {'new'}
            got = r['dir'].get(d.name, 'absent')
            if got not in want or r['dir'].get('other') != 'old other': report(s, t, r, 'the target holds %s data after %s' % (got, 'success' if x['ok'] else 'an error'))
    tf = os.path.join(s.work, 'traces.json'); json.dump(data, open(tf, 'w'))
    rows, st, tr = tlc(s, 'CapyFsTrace', dict(CAPY_TRACES=tf)) if data else ([], 0, 0)
    rep.cov['states'] += st; rep.cov['transitions'] += tr
    rep.cov['traces_validated_against_impl'] = rep.cov.get('traces_validated_against_impl', 0) + len(data)
    rep.cov['faulted_writes'] = faulted; rep.cov['system_calls_checked'] = sum(len(x['ev']) for x in data)
    rep.samples += [[what[3]] for what in todo[2:5]]
    seen = set()
    for x in rows:
        t, r, odd = idx[x['run'] - 1]; key = re.sub(r'\d+', '#', x['why'])[:50]
        if key in seen or len(seen) > 4: continue
        seen.add(key)
        report(s, t, r, x['why'] + ' (after call %d of the record)' % x['at'])

def report(s, t, r, why):
    a, d, size, what, had = t
    s.rep.violation('write', dict(history=d.hist, inject=a[3], fsize=a[4], had=had, record=[e[0] for e in r['ev']], files=r['dir']),
                    'writing %s (%s) with %s: %s' % (d.name, 'replacing an older file' if had else 'no file there before', what, why))
