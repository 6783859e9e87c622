"""Build libcapypdf from /repo's current working tree into a private directory.

Nothing under /repo is written: sources are compiled straight from there."""
import os, subprocess, sys, glob, re, hashlib, shutil, json
REPO = os.environ.get('VERIF_REPO', '/repo')
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
OUT = os.environ.get('VERIF_BUILD', os.path.join(ROOT, '.build'))

EXCLUDE = {'ttf_fuzz.cpp', 'cff_fuzz.cpp'}

def sources():
    """The library's sources as its own build description lists them."""
    txt = open(os.path.join(REPO, 'src/meson.build')).read()
    m = re.search(r"capypdf_lib\s*=\s*library\((.*?)\)\s*\n\n", txt, flags=re.S)
    names = re.findall(r"'([\w/]+\.cpp)'", m.group(1)) if m else []
    names = [n for n in names if os.path.exists(os.path.join(REPO, 'src', n))]
    if not names:
        names = [os.path.basename(p) for p in glob.glob(os.path.join(REPO, 'src/*.cpp'))]
    return [n for n in dict.fromkeys(names) if n not in EXCLUDE]

def gen_header(dst):
    os.makedirs(os.path.dirname(dst), exist_ok=True)
    txt = open(os.path.join(REPO, 'include/capypdf.h.in')).read()
    def sub(m):
        k = m.group(1)
        v = {'CAPYPDF_VERSION_STR': '"0.21.99"', 'CAPYPDF_VERSION_MAJOR': '0',
             'CAPYPDF_VERSION_MINOR': '21', 'CAPYPDF_VERSION_MICRO': '99'}.get(k)
        return '#define %s %s' % (k, v) if v else '/* #undef %s */' % k
    txt = re.sub(r'#mesondefine (\w+)', sub, txt)
    if not os.path.exists(dst) or open(dst).read() != txt:
        open(dst, 'w').write(txt)

def stale(out, inc):
    """file times need not follow the contents (a tree may have been copied): forget objects whose sources differ from those they were made of"""
    rec = os.path.join(out, 'sources.json'); now = {}
    for p in sorted(glob.glob(os.path.join(REPO, 'src/*.[ch]pp')) + glob.glob(os.path.join(REPO, 'include/*')) + [os.path.join(inc, 'capypdf.h')]):
        if os.path.isfile(p): now[p] = hashlib.sha256(open(p, 'rb').read()).hexdigest()
    try: old = json.load(open(rec))
    except (OSError, ValueError): old = {}
    bad = {p for p in set(now) | set(old) if now.get(p) != old.get(p)}
    for o in glob.glob(os.path.join(out, '*.o')):
        if any(not p.endswith('.cpp') or os.path.basename(p) + '.o' == os.path.basename(o) for p in bad): os.remove(o)
    json.dump(now, open(rec, 'w'))

def build(variant='plain', quiet=True):
    cxx = 'g++'
    flags = ['-std=c++23', '-fPIC', '-DBUILDING_CAPYPDF', '-D_GLIBCXX_ASSERTIONS', '-w']
    ld = []
    if variant == 'plain':
        flags += ['-O1']
    elif variant == 'pattern':          # every variable of automatic storage starts as garbage
        flags += ['-O2', '-ftrivial-auto-var-init=pattern']
    elif variant == 'asan':
        flags += ['-O1', '-g1', '-fsanitize=address,undefined', '-fno-sanitize-recover=undefined', '-fno-sanitize=vptr,enum']
        ld += ['-fsanitize=address,undefined']
    out = os.path.join(OUT, variant)
    os.makedirs(out, exist_ok=True)
    inc = os.path.join(OUT, 'include')
    gen_header(os.path.join(inc, 'capypdf.h'))
    pk = subprocess.run(['pkg-config', '--cflags', 'libpng', 'zlib', 'lcms2', 'libjpeg', 'freetype2', 'libtiff-4'],
                        capture_output=True, text=True).stdout.split()
    libs = subprocess.run(['pkg-config', '--libs', 'libpng', 'zlib', 'lcms2', 'libjpeg', 'freetype2', 'libtiff-4'],
                          capture_output=True, text=True).stdout.split()
    allf = flags + ['-I' + os.path.join(REPO, 'include'), '-I' + inc, '-I' + os.path.join(REPO, 'src')] + pk
    so = os.path.join(out, 'libcapypdf.so')
    n = ['ninja_required_version = 1.3',
         'rule cc', '  command = %s %s -MD -MF $out.d -c $in -o $out' % (cxx, ' '.join(allf)),
         '  depfile = $out.d', '  deps = gcc',
         'rule link', '  command = %s -shared -o $out $in %s %s' % (cxx, ' '.join(ld), ' '.join(libs))]
    objs = []
    big = {'capi.cpp': 0, 'document.cpp': 1}
    for s in sorted(sources(), key=lambda x: big.get(x, 9)):
        o = os.path.join(out, s.replace('/', '_') + '.o')
        n.append('build %s: cc %s' % (o, os.path.join(REPO, 'src', s)))
        objs.append(o)
    stale(out, inc)
    n.append('build %s: link %s' % (so, ' '.join(objs)))
    n.append('default ' + so)
    nf = os.path.join(out, 'build.ninja')
    open(nf, 'w').write('\n'.join(n) + '\n')
    r = subprocess.run(['ninja', '-C', out, '-f', nf], capture_output=True, text=True, env={k: v for k, v in os.environ.items() if k != 'LD_PRELOAD'})
    if r.returncode != 0:
        sys.stderr.write(r.stdout[-6000:] + r.stderr[-2000:])
        raise SystemExit('BUILD-FAILED')
    return so

if __name__ == '__main__':
    print(build(*sys.argv[1:]))
