"""mutrun.py LIST.py DIR [first] [last]: tries the changes of LIST (M: property, file, old, new) in the twin DIR."""
import os, runpy, subprocess, sys, time
M = runpy.run_path(sys.argv[1])['M']
D = sys.argv[2]
a, b = int(sys.argv[3]) if len(sys.argv) > 3 else 0, int(sys.argv[4]) if len(sys.argv) > 4 else len(M)
for k in range(a, min(b, len(M))):
    pid, f, old, new = M[k][:4]
    p = os.path.join(D, 'repo', f)
    t = open(p).read()
    n = M[k][4] if len(M[k]) > 4 else 1
    if t.count(old) < 1:
        print(k, pid, f, 'NOT FOUND', repr(old[:60]), flush=True)
        continue
    parts = t.split(old)
    i = min(n, len(parts) - 1)
    open(p, 'w').write(old.join(parts[:i]) + new + old.join(parts[i:]))
    try:
        r = subprocess.run('cargo test --offline 2>&1 | tail -60', shell=True, cwd=D + '/repo', capture_output=True, text=True)
        tests = 'compile-error' if 'could not compile' in r.stdout else 'tests-FAIL' if 'FAILED' in r.stdout else 'tests-ok'
        for q in pid.split(','):
            t0 = time.time()
            rc = '-'
            out = ''
            if tests != 'compile-error':
                r = subprocess.run(['./check.sh', q], cwd=D + '/verif', capture_output=True, text=True)
                rc, out = r.returncode, r.stdout
            v = [l for l in out.split('\n') if l.startswith(('VIOLATION', 'ERROR'))]
            print(k, q, os.path.basename(f), tests, 'rc=%s' % rc, '%.0fs' % (time.time() - t0), repr(new[:50]), (v or [''])[0][:150], flush=True)
    finally:
        open(p, 'w').write(t)
