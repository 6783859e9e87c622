"""Make the calls of one history in this process (run under strace by fswrite.py).
  fsrun.py LIBRARY HISTORY.json WORKDIR RESULT.json [FSIZE]
The result file says what generator_write returned; it is written outside WORKDIR."""
import sys, os, json
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import driver
def main():
    so, hist, work, result = sys.argv[1:5]
    os.environ['SOURCE_DATE_EPOCH'] = '1700000000'
    driver.WORK[0] = work
    dn = os.open('/dev/null', os.O_WRONLY); os.dup2(dn, 1); os.dup2(dn, 2)
    run = driver.Run(driver.Lib(so)); last = None
    if len(sys.argv) > 5:
        import resource, signal
        signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
        n = int(sys.argv[5]); resource.setrlimit(resource.RLIMIT_FSIZE, (n, resource.RLIM_INFINITY))
    rcs = []
    for e in json.load(open(hist)):
        c = dict(e['c']); c['g'] = e['g']
        rcs.append(run.call(c))
    if len(sys.argv) > 5: resource.setrlimit(resource.RLIMIT_FSIZE, (resource.RLIM_INFINITY, resource.RLIM_INFINITY))
    with open(result, 'w') as f: json.dump(rcs, f)
    os._exit(0)
main()
