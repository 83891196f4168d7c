"""refrun.py LIST.py DIR [regex]: tries the behaviour-preserving edits of LIST (R: name, checks, edits) in the twin DIR."""
import os, re, runpy, subprocess, sys, time
R = runpy.run_path(sys.argv[1])['R']
D = sys.argv[2]
rx = sys.argv[3] if len(sys.argv) > 3 else '.'
for name, checks, edits in R:
    if not re.search(rx, name):
        continue
    try:
        bad = False
        for f, old, new in edits:
            p = os.path.join(D, 'repo', f)
            t = open(p).read()
            if t.count(old) < 1:
                print(name, f, 'NOT FOUND', repr(old[:60]), flush=True)
                bad = True
            open(p, 'w').write(t.replace(old, new, 1))
        if bad:
            continue
        r = subprocess.run('cargo test --offline 2>&1 | tail -60', shell=True, cwd=D + '/repo', capture_output=True, text=True)
        tests = 'compile-error' if 'could not compile' in r.stdout else 'tests-FAIL' if 'FAILED' in r.stdout else 'tests-ok'
        for q in checks.split():
            t0 = time.time()
            rc = '-'
            out = ''
            if tests != 'compile-error':
                r = subprocess.run(['./check.sh', q], cwd=D + '/verif', capture_output=True, text=True)
                rc, out = r.returncode, r.stdout
            else:
                print(r.stdout[-1500:])
            v = [l for l in out.split('\n') if l.startswith(('VIOLATION', 'ERROR'))]
            print(name, q, tests, 'rc=%s' % rc, '%.0fs' % (time.time() - t0), (v or [''])[0][:200], flush=True)
    finally:
        subprocess.run(['git', 'checkout', '-q', '--', '.'], cwd=D + '/repo')
