"""runhist.py SO HISTORIES: replay until one history fails; prints the property that notices"""
import sys, os, json, tempfile, shutil
ROOT = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__)))); sys.path.insert(0, os.path.join(ROOT, 'harness'))
import replay
so, hf = sys.argv[1:3]; base = tempfile.mkdtemp(prefix='mrun-', dir='/tmp'); n = 0
allk = len(sys.argv) > 3; seen = set()
try:
    for l in open(hf):
        pid, name, topics, opts, h = json.loads(l); n += 1
        if allk and pid in seen: continue
        opts = {k: v for k, v in opts.items() if k not in ('so2',)}
        if opts.get('extra') == 'again': opts.pop('extra')
        k, r, c, st = replay.one(so, n, h, topics, base, opts)
        if r:
            hist = json.loads(h)
            print('KILLED', n, pid, name, hist[r['at']]['c']['f'], r['why'][0][:160], flush=True); seen.add(pid)
            if not allk: break
    else: print('SURVIVED' if not seen else 'END', n)
finally: shutil.rmtree(base, ignore_errors=True)
