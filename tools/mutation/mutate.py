"""mutate.py TREE HISTORIES N SEED LANES [FILE...]: N random one-token changes of TREE's sources; which do the histories notice?"""
import sys, os, re, random, subprocess, shutil, threading, json, queue, tempfile
HERE = os.path.dirname(os.path.abspath(__file__)); ROOT = os.path.dirname(os.path.dirname(HERE))
SKIP = re.compile(r'^\s*(//|#|\*|/\*)|fprintf|static_assert|assert\(|std::abort|printf\(|^\s*(using|namespace|class|struct|template|typedef|friend|public|private|break;|return;|else|\})')
SWAPS = [('x', 'y'), ('front', 'back'), ('w', 'h'), ('x1', 'x2'), ('y1', 'y2'), ('minx', 'maxx'), ('miny', 'maxy'), ('first', 'last'), ('left', 'right'), ('top', 'bottom'), ('width', 'height'),
         ('r', 'g'), ('c', 'm'), ('pages', 'outlines'), ('i', '0'), ('stroke', 'fill'), ('begin', 'end'), ('fill_alpha', 'stroke_alpha'), ('CA', 'ca'), ('prev', 'next'), ('x0', 'x1'), ('y0', 'y1'), ('amin', 'amax'), ('red', 'blue'), ('xMin', 'xMax')]
def sites(path):
    out = []; depth = 0
    src = open(path).read().split('\n')
    for n, l in enumerate(src):
        if SKIP.search(l) or not l.strip(): continue
        code = re.sub(r'"(\\.|[^"\\])*"', lambda m: '"' + '_' * (len(m.group(0)) - 2) + '"', l).split('//')[0]
        def at(rx, f):
            for m in re.finditer(rx, code): out.append((n, l[:m.start()] + f(m) + l[m.end():]))
        inner = l.startswith('    ')
        if not inner: continue
        at(r' (<=|>=|==|!=|<|>) ', lambda m: ' ' + {'<': '<=', '<=': '<', '>': '>=', '>=': '>', '==': '!=', '!=': '=='}[m.group(1)] + ' ')
        at(r'&&|\|\|', lambda m: '||' if m.group(0) == '&&' else '&&')
        at(r' ([+\-*/]) ', lambda m: ' ' + {'+': '-', '-': '+', '*': '/', '/': '*'}[m.group(1)] + ' ')
        at(r'(?<![\w.])(\d+)(?![\w.])', lambda m: str(int(m.group(1)) + 1))
        at(r'\btrue\b|\bfalse\b', lambda m: 'false' if m.group(0) == 'true' else 'true')
        at(r'\bif\(', lambda m: 'if(false && ')
        at(r'\bif\(', lambda m: 'if(true || ')
        at(r'\+\+', lambda m: '--')
        m = re.match(r'^\s+([\w.\->\[\]:()*]+\(.*\)|[\w.\->\[\]]+ [+|]?= .*);$', l)
        if m and not l.strip().startswith(('return', 'auto ', 'const ')) : out.append((n, re.match(r'\s*', l).group(0) + ';'))
        m = re.match(r'^\s+[\w.]+\.add_token.*;$', l)
        if m: out += [(n, re.match(r'\s*', l).group(0) + ';')] * 2
        if re.match(r'^\s+ABCHECK|^\s+ERCV?\(|^\s+CHECK_', l): out.append((n, re.match(r'\s*', l).group(0) + ';'))
        # on the second or third occasion only
        for k in (2, 3):
            late = '([]{static int capy_n = 0; return ++capy_n %s %d;}())'
            if m0 := re.match(r'^(\s+)([\w.\->\[\]:()*]+\(.*\)|[\w.\->\[\]]+ [+|]?= .*|ERCV?\(.*\));$', l):
                if not l.strip().startswith(('return', 'auto ', 'const ', 'ERC(')): out.append((n, m0.group(1) + 'if' + late % ('!=', k) + ' { ' + m0.group(2) + '; }'))
            at(r'\bif\((?!auto|const)', lambda m: 'if(' + late % ('!=', k) + ' && ')
            at(r'\bif\((?!auto|const)', lambda m: 'if(' + late % ('==', k) + ' || ')
        for a, b in SWAPS:
            at(r'(?<=[\w.>_])?\b%s\b' % a, lambda m: b); at(r'\b%s\b' % b, lambda m: a)
        for m in re.finditer(r'"((?:\\.|[^"\\]){2,})"', l):
            s = m.group(1)
            if 'RETERR' not in l and not s.endswith('pp'): out.append((n, l[:m.start(1)] + s[:-1].replace('\\', '\\') + ('' if s[-2] != '\\' else s[-1]) + l[m.end(1):]))
    return [(n, t) for n, t in out if t != src[n]]
def main():
    tree, hf, N, seed, lanes = sys.argv[1], sys.argv[2], int(sys.argv[3]), int(sys.argv[4]), int(sys.argv[5])
    files = sys.argv[6:] or [f for f in sorted(os.listdir(tree + '/src')) if f.endswith('.cpp') and 'fuzz' not in f]
    rnd = random.Random(seed); all_ = [(f, n, t) for f in files for n, t in sites(tree + '/src/' + f)]
    print(len(all_), 'sites', flush=True); rnd.shuffle(all_); q = queue.Queue()
    for x in all_[:N]: q.put(x)
    lock = threading.Lock()
    def lane(k):
        d = '/tmp/mut-%s-%d' % (seed, k); shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
        subprocess.run(['cp', '-a', tree, d + '/repo'])
        env = dict(os.environ, VERIF_REPO=d + '/repo', VERIF_BUILD=d + '/b', PYTHONDONTWRITEBYTECODE='1')
        build = lambda: subprocess.run(['python3', '-B', ROOT + '/harness/build.py'], env=env, capture_output=True, text=True)
        build()
        while True:
            try: f, n, t = q.get_nowait()
            except queue.Empty: break
            p = d + '/repo/src/' + f; orig = open(p).read(); L = orig.split('\n'); old = L[n]; L[n] = t; open(p, 'w').write('\n'.join(L))
            r = build()
            if r.returncode: res = 'NOBUILD'
            else:
                try: res = subprocess.run(['timeout', '1500', 'python3', '-B', HERE + '/runhist.py', r.stdout.strip().split('\n')[-1], hf], env=env, capture_output=True, text=True).stdout.strip().split('\n')[-1]
                except Exception as ex: res = 'ERR %s' % ex
            open(p, 'w').write(orig)
            with lock: print('%s\n   %s:%d\n   - %s\n   + %s' % (res or 'NOTHING', f, n + 1, old.strip(), t.strip()), flush=True)
        shutil.rmtree(d, ignore_errors=True)
    T = [threading.Thread(target=lane, args=(k,)) for k in range(lanes)]
    for x in T: x.start()
    for x in T: x.join()
main()
