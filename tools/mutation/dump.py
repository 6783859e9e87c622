"""dump.py OUT.jsonl [PIDs]: the histories of every property's quick check, for replaying many times"""
import sys, os, json, threading, tempfile, shutil
ROOT = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__)))); sys.path.insert(0, os.path.join(ROOT, 'harness'))
import engine, plan, profiles, fontinfo
from concurrent.futures import ThreadPoolExecutor
def main():
    out = open(sys.argv[1], 'w'); pids = sys.argv[2:] or [p for p in sorted(profiles.PROFILES) if p not in ('P24',)]
    work = tempfile.mkdtemp(prefix='dump-', dir='/tmp'); env = os.path.join(work, 'env.json'); json.dump(fontinfo.env(), open(env, 'w'))
    lock = threading.Lock(); seen = set()
    def run(a):
        pid, j = a; L = []
        t = engine.Tlc(pid + j['name'], j['module'], j['profile'], env, work, j['seed'], j.get('num', 0), limit=300, depth=engine.depth(j))
        t.run(lambda x: L.append(json.loads(x[1])[2:]))
        if t.failed(): print('FAILED', pid, j['name'])
        if j['module'] == 'CapyMC': L = L[::max(1, len(L) // 300)]
        with lock:
            for h in L:
                if h in seen: continue
                seen.add(h); out.write(json.dumps([pid, j['name'], j['profile']['topics'], j['profile'].get('opts', {}), h]) + '\n')
            print(pid, j['name'], len(L), flush=True)
    jobs = [(p, j) for p in pids for j in plan.jobs(p, 1, True)]
    with ThreadPoolExecutor(int(os.environ.get('LANES', '8'))) as ex: list(ex.map(run, jobs))
    out.close(); shutil.rmtree(work)
main()
