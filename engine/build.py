"""Builds the LLVM IR and the native replay library from /repo's current tree."""
import fcntl
import hashlib
import os
import shutil
import subprocess

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'
BUILD = os.path.join(VERIF, 'build')


class BuildError(Exception):
    pass


def tree_hash():
    h = hashlib.sha256()
    roots = [os.path.join(REPO, 'src'), os.path.join(VERIF, 'harness', 'src')]
    files = [os.path.join(REPO, 'Cargo.toml'), os.path.join(VERIF, 'harness', 'Cargo.toml')]
    for r in roots:
        for d, ds, fs in os.walk(r):
            ds.sort()
            files += [os.path.join(d, f) for f in sorted(fs)]
    for f in files:
        h.update(f.encode())
        with open(f, 'rb') as fh:
            h.update(fh.read())
        h.update(b'\0')
    return h.hexdigest()[:16]


def cargo(target, flags, args, log):
    env = dict(os.environ)
    env.update(RUSTUP_TOOLCHAIN='stable', CARGO_TARGET_DIR=target, CARGO_INCREMENTAL='0', RUSTFLAGS=flags,
               CARGO_NET_OFFLINE='true')
    env.pop('CARGO_BUILD_RUSTFLAGS', None)
    p = subprocess.run(['cargo', 'build', '--offline'] + args, cwd=os.path.join(VERIF, 'harness'), env=env,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    with open(log, 'w') as f:
        f.write(p.stdout)
    if p.returncode:
        raise BuildError('cargo build failed:\n' + p.stdout[-4000:])


class Built:
    def __init__(self, d):
        self.dir = d
        self.ll = [os.path.join(d, 'vharness.ll'), os.path.join(d, 'scarlet.ll')]
        self.so = os.path.join(d, 'native.so')

    def release_so(self):
        p = os.path.join(self.dir, 'native_release.so')
        if not os.path.exists(p):
            t = os.path.join(self.dir, 't_rel')
            cargo(t, '', ['--release', '--features', 'native', '--lib'], os.path.join(self.dir, 'rel.log'))
            shutil.copy(os.path.join(t, 'release', 'libvharness.so'), p)
            shutil.rmtree(t, ignore_errors=True)
        return p


def build():
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, '.lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        h = tree_hash()
        d = os.path.join(BUILD, h)
        b = Built(d)
        if all(os.path.exists(p) for p in b.ll + [b.so]):
            os.utime(d)
            return b
        old = sorted((e for e in os.scandir(BUILD) if e.is_dir() and e.name != h), key=lambda e: e.stat().st_mtime)
        for e in old[:-3]:
            shutil.rmtree(e.path, ignore_errors=True)
        os.makedirs(d, exist_ok=True)
        t1, t2 = os.path.join(d, 't_ir'), os.path.join(d, 't_nat')
        from concurrent.futures import ThreadPoolExecutor
        with ThreadPoolExecutor(2) as ex:
            f1 = ex.submit(cargo, t1, '--emit=llvm-ir -C codegen-units=1 -C panic=abort', ['--lib'],
                           os.path.join(d, 'ir.log'))
            f2 = ex.submit(cargo, t2, '', ['--features', 'native', '--lib'], os.path.join(d, 'nat.log'))
            f1.result()
            f2.result()
        deps = os.path.join(t1, 'debug', 'deps')
        for want, pre in ((b.ll[0], 'vharness'), (b.ll[1], 'scarlet')):
            c = [f for f in os.listdir(deps) if f.startswith(pre) and f.endswith('.ll')]
            if len(c) != 1:
                raise BuildError('IR for %s not found: %r' % (pre, c))
            shutil.copy(os.path.join(deps, c[0]), want + '.tmp')
            os.rename(want + '.tmp', want)
        shutil.copy(os.path.join(t2, 'debug', 'libvharness.so'), b.so + '.tmp')
        os.rename(b.so + '.tmp', b.so)
        shutil.rmtree(t1, ignore_errors=True)
        shutil.rmtree(t2, ignore_errors=True)
        return b
