"""Runs TLC on the specification and replays its histories on the library."""
import sys, os, json, time, subprocess, tempfile, shutil, threading, queue, hashlib, re, multiprocessing as mp, signal
HERE = os.path.dirname(os.path.abspath(__file__)); ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
TLA = '/opt/veriftools/tla'
CP = TLA + '/tla2tools.jar:' + TLA + '/CommunityModules-deps.jar'
SPEC = os.path.join(ROOT, 'spec')
STATE = os.path.join(ROOT, '.build')

class Tlc:
    """One TLC process; its histories are appended to `sink` as they come."""
    def __init__(self, name, module, profile, env, work, seed, num=0, depth=400, mem='2g', limit=600):
        self.name = name; self.module = module
        d = os.path.join(work, 'tlc-' + name); os.makedirs(d)
        for f in os.listdir(SPEC):
            if f.endswith(('.tla', '.cfg')): shutil.copy(os.path.join(SPEC, f), d)
        self.dir = d; pf = os.path.join(d, 'profile.json'); json.dump(profile, open(pf, 'w'))
        cmd = ['java', '-Djava.io.tmpdir=' + d, '-Xss64m', '-XX:+UseSerialGC', '-XX:TieredStopAtLevel=4', '-Xmx' + mem, '-cp', CP, 'tlc2.TLC', '-deadlock', '-workers', '1',
               '-config', module + '.cfg', '-metadir', os.path.join(d, 'meta'), '-noGenerateSpecTE']
        if num: cmd += ['-simulate', 'num=%d' % num, '-depth', str(depth), '-seed', str(seed)]
        cmd += [module + '.tla']
        e = dict(os.environ, CAPY_ENV=env, CAPY_PROFILE=pf); e.pop('LD_PRELOAD', None)
        self.log = []; self.limit = limit; self.t0 = time.time(); self.timedout = False; self.made = 0
        self.p = subprocess.Popen(cmd, cwd=d, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', start_new_session=True)
    def run(self, put):
        t = threading.Timer(self.limit, self.stop); t.start()
        for line in self.p.stdout:
            if line.startswith('"@@'): self.made += 1; put((self, line))
            else: self.log.append(line.rstrip('\n')[:2000])
        self.p.wait(); t.cancel()
        shutil.rmtree(self.dir, ignore_errors=True)
    def stop(self):
        self.timedout = True
        try: os.killpg(self.p.pid, signal.SIGKILL)
        except OSError: pass
    def failed(self):
        if self.timedout: return None          # out of time: what it produced still counts
        bad = [l for l in self.log if l.startswith('Error:') or 'Exception' in l]
        if self.p.returncode not in (0,) or bad:
            open(os.path.join(ROOT, ".build", 'tlc-%s.log' % self.name), 'w').write('\n'.join(self.log))
            return '\n'.join([l for k, l in enumerate(self.log) if any(x.startswith(('Error:', '<<', 'Semantic err', '***')) for x in self.log[max(0, k - 3):k + 1])][:60] + ['...'] + self.log[-20:])
        return None
    def states(self):
        txt = '\n'.join(self.log)
        m = re.findall(r'([\d,]+) states generated, ([\d,]+) distinct', txt)
        if m: return int(m[-1][0].replace(',', '')), int(m[-1][1].replace(',', ''))
        m = re.findall(r'(?:number of states generated: |Progress: )([\d,]+)', txt)
        n = int(m[-1].replace(',', '')) if m else 0
        return n, 0

def depth(job):
    p = job['profile']
    return max(600, len(p.get('prelude', ())) + 2 * p.get('len', 0) + 200)

def known(pid):
    out = []
    f = os.path.join(ROOT, 'known_findings.txt')
    if os.path.exists(f):
        for l in open(f):
            m = re.match(r'known: property=(\S+) match=/((?:[^/\\]|\\.)*)/ (.*)', l.strip())
            if m and m.group(1) == pid: out.append((re.compile(m.group(2)), m.group(3)))
    return out

class Report:
    def __init__(self, pid, tier, seed):
        self.pid = pid; self.tier = tier; self.seed = seed; self.viol = []; self.cov = {}; self.t0 = time.time(); self.assume = []; self.known = known(pid); self.hit = set()
        self.samples = []
    def listed(self, text):
        """is it a finding that is recorded in known_findings.txt?"""
        for rx, what in self.known:
            if rx.fullmatch(text):
                if what not in self.hit: print('KNOWN-FINDING: property=%s %s' % (self.pid, what), flush=True); self.hit.add(what)
                return True
        return False
    def violation(self, kind, data, text):
        if self.listed(text): return
        d = os.path.join(STATE, 'replay'); os.makedirs(d, exist_ok=True)
        p = os.path.join(d, '%s-%d.json' % (self.pid, len(self.viol)))
        json.dump(dict(kind=kind, property=self.pid, why=text, data=data), open(p, 'w'), indent=1)
        self.viol.append(p)
        print('VIOLATION property=%s replay=%s' % (self.pid, p)); print('  ' + text.replace('\n', '\n  ')[:3000], flush=True)
    def finish(self):
        self.cov['samples'] = self.samples[:4] or self.cov.get('samples', ['none'])
        ev = dict(property=self.pid, tier=self.tier, seed=self.seed, level=self.cov.pop('_level', 'model_checking'), coverage=self.cov,
                  assumptions=self.assume, wall_s=round(time.time() - self.t0, 2), violations=len(self.viol))
        os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
        json.dump(ev, open(os.path.join(ROOT, 'evidence', self.pid + '.json'), 'w'), indent=1)
        if not self.viol:
            print('%s: no violation; %s' % (self.pid, ', '.join('%s %s' % (k, v) for k, v in self.cov.items() if isinstance(v, (int, float)))))
        return 1 if self.viol else 0


import replay
def _pool(a):
    so, k, line, topics, base, opts = a
    try: return replay.one(so, k, line, topics, base, opts)
    except Exception as ex:
        import traceback
        return k, dict(at=0, why=['HARNESS: ' + traceback.format_exc()[-1500:]], harness=True), 0, {}

class Session:
    def __init__(self, pid, tier, seed, work, rep):
        self.pid = pid; self.tier = tier; self.seed = seed; self.work = work; self.rep = rep
        self.pool = mp.Pool(8)              # forked before any thread starts
        self.quick = tier == 'quick'
        self.env = os.path.join(work, 'env.json')
        import fontinfo
        json.dump(fontinfo.env(), open(self.env, 'w'))
        self.sos = {}
    def so(self, variant='plain'):
        import build
        if variant not in self.sos: self.sos[variant] = build.build(variant)
        return self.sos[variant]
    def close(self):
        self.pool.terminate(); self.pool.join()

    def histories(self, job):
        """the histories of one TLC job"""
        out = []
        t = Tlc(job['name'], job['module'], job['profile'], self.env, self.work, job['seed'], job.get('num', 0), depth=depth(job))
        t.run(lambda x: out.append(json.loads(json.loads(x[1])[2:])))
        err = t.failed()
        if err: print('TLC failed (%s):\n%s' % (t.name, err)); sys.exit(2)
        return out

    def explore(self, jobs, variant='plain', opts=None, jvms=6, maxbad=6, budget=None):
        """jobs: dicts name, module, profile, seed, num.  Replays everything; reports violations.
        Returns the statistics for the evidence file."""
        rep = self.rep; q = queue.Queue(); live = []; opts = opts or {}
        sem = threading.Semaphore(jvms); stop = threading.Event()
        def worker(job):
            with sem:
                if not stop.is_set():
                    t = Tlc(job['name'], job['module'], job['profile'], self.env, self.work, job['seed'], job.get('num', 0),
                            limit=job.get('limit', budget or 400), mem=job.get('mem', '2g'), depth=depth(job))
                    t.job = job; live.append(t)
                    t.run(q.put)
            q.put(None)
        for j in jobs: threading.Thread(target=worker, args=(j,), daemon=True).start()
        so = self.so(variant)
        base = os.path.join(self.work, 'replay'); os.makedirs(base, exist_ok=True)
        pend = queue.Queue(); nsub = 0; seen = set(); done = 0; lines = {}; ndup = 0; nhist = 0
        st = dict(calls=0, refused=0, writes=0, facts=0, fns={}, res=0)
        bad = []; results = queue.Queue(); inflight = 0; finished = 0
        def cb(r): results.put(r)
        maxin = 64
        while finished < len(jobs) or inflight or not q.empty():
            while not results.empty():
                k, r, n, stat = results.get(); inflight -= 1; st['res'] += 1
                for x in ('calls', 'refused', 'writes', 'facts'): st[x] += stat.get(x, 0)
                for f, c in stat.get('fns', {}).items():
                    o = st['fns'].setdefault(f, [0, 0]); o[0] += c[0]; o[1] += c[1]
                if r and rep.listed('; '.join(r['why'])): del lines[k]
                elif r: bad.append((k, r))
                else: del lines[k]
                if len(bad) >= maxbad and not stop.is_set():
                    stop.set()
                    for t in live: t.stop()
            if inflight < maxin:
                try: x = q.get(timeout=0.02)
                except queue.Empty: continue
                if x is None: finished += 1; continue
                if stop.is_set(): continue
                t, line = x
                h = hashlib.blake2b(line.encode(), digest_size=12).digest()
                if h in seen: ndup += 1; continue
                seen.add(h); nhist += 1
                js = json.loads(line)[2:]
                k = nhist; lines[k] = (js, t.job)
                if len(rep.samples) < 3 and nhist in (1, 40, 90):
                    rep.samples.append([replay.show(e['c']) + ' => ' + ('refused' if e['rc'] else e['id'] or 'ok') for e in json.loads(js)][:40])
                self.pool.apply_async(_pool, ((so, k, js, t.job['profile']['topics'], base, dict(opts, **t.job['profile'].get('opts', {}))),), callback=cb)
                inflight += 1
            else: time.sleep(0.002)
        for t in live:
            err = None if stop.is_set() else t.failed()
            if not err and not t.timedout and not stop.is_set() and not t.job.get('model') and t.made == 0: err = 'no history came out of it'
            if err:
                print('TLC failed (%s):\n%s' % (t.name, err)); self.close(); sys.exit(2)
        gen = sum(t.states()[0] for t in live); dist = sum(t.states()[1] for t in live)
        # confirm: the same history must fail again on its own
        shown = set()
        for k, r in sorted(bad, key=lambda x: x[1]['at'])[:12]:
            js, job = lines[k]
            if r.get('harness'):
                print('harness error: ' + '\n'.join(r['why'])); self.close(); sys.exit(2)
            hist = json.loads(js)
            key = (hist[r['at']]['c']['f'], re.sub(r'\d+', '#', r['why'][0])[:60])
            if key in shown or len(shown) >= 4: continue
            k2, r2, n, stat = _pool((so, k, js, job['profile']['topics'], base, dict(opts, **job['profile'].get('opts', {}), timeout=240)))
            if not r2:
                print('not repeatable: %s' % r); rep.cov['unrepeatable'] = rep.cov.get('unrepeatable', 0) + 1; continue
            shown.add(key)
            ctx = [replay.show(e['c']) + ' => ' + ('refused' if e['rc'] else 'ok ' + e['id']) for e in hist[:r2['at'] + 1]][-6:]
            rep.violation('history', dict(history=hist, at=r2['at'], topics=job['profile']['topics'], opts=dict(opts, **job['profile'].get('opts', {}))),
                          'call %d %s: %s\n%s' % (r2['at'], replay.show(hist[r2['at']]['c']), '; '.join(r2['why'][:6]), '\n'.join(ctx)))
        c = rep.cov
        c['states'] = c.get('states', 0) + (dist or 0) + sum(t.states()[0] for t in live if not t.states()[1])
        c['transitions'] = c.get('transitions', 0) + gen
        c['traces_validated_against_impl'] = c.get('traces_validated_against_impl', 0) + st['res']
        for a, b in (('calls_compared', 'calls'), ('calls_refused', 'refused'), ('files_compared', 'writes'), ('facts_expected', 'facts')):
            c[a] = c.get(a, 0) + st[b]
        fns = c.setdefault('accepted_and_refused_by_function', {})
        for f, v in st['fns'].items():
            o = fns.setdefault(f, [0, 0]); o[0] += v[0]; o[1] += v[1]
        c.setdefault('runs', []).extend('%s %s: %d generated, %d distinct%s' % (t.module, t.name, t.states()[0], t.states()[1], ' (stopped at its time limit)' if t.timedout and not stop.is_set() else '') for t in live)
        return st
