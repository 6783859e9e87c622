"""One property's check.

  python3 harness/check.py P01 [--thorough] [--keep]

TLC runs the specification in /verif/spec under the property's profiles (exhaustively over a
small alphabet, and at random over the whole one) and prints histories: calls with the outcome
the specification requires of each.  The library is compiled from /repo's working tree and every
history is replayed on it; the first difference is a violation."""
import sys, os, tempfile, shutil
HERE = os.path.dirname(os.path.abspath(__file__)); ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)

def sanitized():
    """run this program again with the address sanitizer's runtime, which the library built for P14 needs"""
    import subprocess
    # libstdc++ must be there for the runtime to find the exception functions
    lib = ' '.join(os.path.realpath(subprocess.run(['g++', '-print-file-name=' + x], capture_output=True, text=True).stdout.strip()) for x in ('libasan.so', 'libstdc++.so.6'))
    o = 'detect_leaks=0:abort_on_error=1:handle_abort=0:quarantine_size_mb=16:allocator_may_return_null=1:detect_stack_use_after_return=0:log_path=' + os.path.join(ROOT, '.build', 'asan')
    os.makedirs(os.path.join(ROOT, '.build'), exist_ok=True)
    os.execve(sys.executable, [sys.executable] + sys.argv, dict(os.environ, LD_PRELOAD=lib, ASAN_OPTIONS=o, UBSAN_OPTIONS='print_stacktrace=1:' + o, PYTHONMALLOC='malloc'))
def main():
    pid = sys.argv[1]; tier = 'thorough' if '--thorough' in sys.argv or os.environ.get('VERIF_TIER') == 'thorough' else 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    if pid == 'P14' and 'ASAN_OPTIONS' not in os.environ: sanitized()
    import engine, plan
    rep = engine.Report(pid, tier, seed)
    os.makedirs(engine.STATE, exist_ok=True)
    work = tempfile.mkdtemp(prefix='run-%s-' % pid, dir=engine.STATE)
    try: rc = plan.run(pid, tier, seed, work, rep)
    finally: shutil.rmtree(work, ignore_errors=True)
    sys.exit(rc)
if __name__ == '__main__': main()
