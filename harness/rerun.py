"""python3 harness/rerun.py REPLAY.json [-v]: run a saved counterexample again on /repo's library."""
import sys, os, json, tempfile, shutil
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build, replay, driver
d = json.load(open(sys.argv[1])); so = build.build('plain')
h = d['data']['history']
if '-v' in sys.argv:
    for k, e in enumerate(h): print(k, replay.show(e['c']), '=> refused' if e['rc'] else '=> ' + (e['id'] or 'ok'))
w = tempfile.mkdtemp()
if d['kind'] == 'write':
    import fswrite; x = d['data']; doc = fswrite.Doc(so, w, 0, h, [e['c']['s'][0] for e in h if e['c']['f'] == 'generator_new'][0].replace('@W/', ''))
    print(fswrite.attempt((dict(so=so, base=w, file=doc.file, name=doc.name), 'r', x['had'], x['inject'], x['fsize'], True, b''))); sys.exit()
print(replay.one(so, 0, json.dumps(h), d['data']['topics'], w, dict(d['data'].get('opts') or {}, timeout=240))[1])
shutil.rmtree(w)
