"""Prepare: compile the library once (checks rebuild what changed) and parse the specification."""
import os, sys, subprocess
HERE = os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0, HERE)
import build, engine
print(build.build('plain'))
for m in ('CapyGen', 'CapyMC'):
    r = subprocess.run(['java', '-cp', engine.CP, 'tla2sany.SANY', m + '.tla'], cwd=engine.SPEC, capture_output=True, text=True)
    if r.returncode: print(r.stdout[-3000:]); sys.exit(1)
print('specification parsed')
