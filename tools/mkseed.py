"""Makes and confirms a planted bug: mkseed.py SPEC.py  (SPEC defines id, property, needs, breaks, edits, main).
Works in scratch copies under /tmp; /repo is not touched."""
import json
import os
import runpy
import shutil
import subprocess
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '''#!/bin/bash
# exit 0: the property holds on the demonstrated input; non-zero: it does not
here=$(cd "$(dirname "$0")" && pwd)
d=$(mktemp -d) || exit 2
trap 'rm -rf "$d"' EXIT
mkdir "$d/src"
cp "$here/main.rs" "$d/src/main.rs"
cp "$PWD/Cargo.lock" "$d/Cargo.lock" 2>/dev/null
printf '[package]\\nname = "demo"\\nversion = "0.1.0"\\nedition = "2021"\\n[workspace]\\n[dependencies]\\nscarlet = { path = "%s" }\\n' "$PWD" > "$d/Cargo.toml"
cd "$d" && CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$d/target" cargo run --offline -q
'''


def sh(cmd, cwd, **k):
    return subprocess.run(cmd, shell=True, cwd=cwd, capture_output=True, text=True, **k)


def main(spec):
    s = runpy.run_path(spec)
    d = os.path.join(V, 'seeded', s['id'])
    os.makedirs(d, exist_ok=True)
    open(d + '/main.rs', 'w').write(s['main'])
    open(d + '/demo.sh', 'w').write(DEMO)
    os.chmod(d + '/demo.sh', 0o755)
    json.dump(dict(property=s['property'], needs=s['needs'], what_it_breaks=s['breaks']), open(d + '/meta.json', 'w'), indent=1)
    w = '/tmp/seed_' + s['id']
    shutil.rmtree(w, ignore_errors=True)
    subprocess.check_call(['cp', '-a', '/repo', w])
    ok = True
    try:
        r = sh(d + '/demo.sh', w)
        if r.returncode != 0:
            print('demo fails on the unchanged tree:', r.returncode, r.stderr[-1500:])
            ok = False
        for f, old, new in s['edits']:
            p = os.path.join(w, f)
            t = open(p).read()
            assert t.count(old) == 1, (f, old, t.count(old))
            open(p, 'w').write(t.replace(old, new))
        open(d + '/patch.diff', 'w').write(sh('git diff', w).stdout)
        r = sh('cargo test --offline 2>&1 | tail -60', w)
        if 'test result: FAILED' in r.stdout or 'test result: ok' not in r.stdout:
            print('tests fail:', '\n'.join(l for l in r.stdout.split('\n') if 'FAILED' in l or 'error' in l)[:1500])
            ok = False
        r = sh(d + '/demo.sh', w)
        if r.returncode == 0 or 'could not compile' in r.stderr:
            print('demo passes with the bug', r.stderr[-800:])
            ok = False
        # lines touched must be original
        base = sh('git log --format=%h --reverse | head -1', '/repo').stdout.strip()
        for f, old, new in s['edits']:
            orig = sh('git show %s:%s' % (base, f), '/repo').stdout
            ol, nl = set(old.split('\n')), set(new.split('\n'))
            for line in ol - nl:
                if line.strip() and line not in orig:
                    print('WARNING not an original line:', line)
    finally:
        shutil.rmtree(w, ignore_errors=True)
    if not ok:
        shutil.rmtree(d)
    print(s['id'], 'kept' if ok else 'REJECTED')


for a in sys.argv[1:]:
    main(a)
