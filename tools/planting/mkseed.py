import os, sys, subprocess, shutil, json, tempfile
FIXES = subprocess.check_output(['git', '-C', '/repo', 'log', '--format=%s', '--grep=^fix:'], text=True).split('\n')[:-1]
def mk(id, prop, file, edits, needs, breaks, demo, extra=None):
    """edits: list of (old, new); demo: python text"""
    d = '/verif/seeded/' + id; os.makedirs(d, exist_ok=True)
    w = tempfile.mkdtemp(prefix='mk-', dir='/tmp')
    try:
        subprocess.check_call(['git', '-C', '/repo', 'worktree', 'add', '-q', '--detach', w + '/r'])
        if isinstance(file, str): edits = [(file,) + e for e in edits]
        for f, a, b in edits:
            p = w + '/r/' + f; s = open(p).read(); assert s.count(a) == 1, (id, f, s.count(a), a)
            open(p, 'w').write(s.replace(a, b))
            # the lines changed must be the original repository's
            n = s[:s.index(a)].count('\n'); al, bl = a.split('\n'), b.split('\n')
            for k, line in enumerate(al):
                if line.strip() and line not in bl and k < len(al):
                    w_ = subprocess.run(['git', '-C', '/repo', 'blame', '-p', '-L', '%d,%d' % (n + k + 1, n + k + 1), 'HEAD', '--', f], capture_output=True, text=True).stdout
                    if any(('summary ' + x) in w_ for x in FIXES): print('  WARNING %s: line added by a fix: %s' % (id, line.strip()))
        diff = subprocess.check_output(['git', '-C', w + '/r', 'diff'])
        open(d + '/patch.diff', 'wb').write(diff)
    finally:
        subprocess.call(['git', '-C', '/repo', 'worktree', 'remove', '--force', w + '/r']); shutil.rmtree(w, ignore_errors=True)
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(d + '/meta.json', 'w'), indent=1)
    shutil.copy('/verif/tools/planting/pdfdemo.py', d)
    open(d + '/demo.py', 'w').write('from pdfdemo import *\n' + demo.lstrip('\n'))
    open(d + '/demo.sh', 'w').write('#!/bin/sh\nexec python3 -B "$(dirname "$0")/demo.py"\n')
    print(id, diff.count(b'\n'), 'diff lines')
