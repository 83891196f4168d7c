"""Runs the obligations of one property and reports the verdict.

exit 0: every obligation discharged by the solver
exit 1: a violation that was reproduced on the native build of the real code
exit 2: anything else (a query without an answer, an encoding failure, a vacuous harness ...)
"""
import importlib.util
import json
import faulthandler
import os
import signal
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(VERIF, 'checks'))


def load_check(pid):
    p = os.path.join(VERIF, 'checks', pid.lower() + '.py')
    spec = importlib.util.spec_from_file_location(pid.lower(), p)
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    return m


def child(prog, so, ob, seed, scale, w):
    from core import Run
    from native import Native
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    sys.setrecursionlimit(20000)
    nat = Native(so)
    r = Run(prog, nat, ob, seed, scale)
    try:
        res = r.run()
    except MemoryError:
        res = dict(name=ob.name, fn=ob.fn, dom=ob.dom, status='error', note='out of memory', violations=[], unknown=[])
    except Exception:
        res = dict(name=ob.name, fn=ob.fn, dom=ob.dom, status='error', note=traceback.format_exc()[-1500:],
                   violations=[], unknown=[])
    if res['status'] == 'ok' and ob.fn != '-':
        try:
            n, bad, sample = r.validate(ob.nvalid)
            res['validated'] = n
            res['mismatch'] = [str(b) for b in bad[:3]]
            res['sample'] = sample
            if bad:
                res['status'] = 'error'
                res['note'] = 'executor disagrees with the native code: ' + str(bad[0])
        except Exception:
            res['status'] = 'error'
            res['note'] = 'validation: ' + traceback.format_exc()[-1500:]
    data = json.dumps(res, default=str).encode()
    while data:
        n = os.write(w, data)
        data = data[n:]


def run_all(prog, so, obs, seed, scale, deadline, jobs, verbose):
    pending = list(obs)
    live = {}
    out = []
    bufs = {}
    import select
    stop = False
    while pending or live:
        while pending and len(live) < jobs and not stop:
            ob = pending.pop(0)
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                try:
                    os.close(r)
                    os.setpgid(0, 0)
                    child(prog, so, ob, seed, scale, w)
                except BaseException:
                    traceback.print_exc()
                finally:
                    os._exit(0)
            os.close(w)
            live[r] = (pid, ob, time.time())
            bufs[r] = b''
        if stop and pending:
            for ob in pending:
                out.append(dict(name=ob.name, fn=ob.fn, dom=ob.dom, status='skipped', note='not reached',
                                violations=[], unknown=[]))
            pending = []
            continue
        rs, _, _ = select.select(list(live), [], [], 1.0)
        for r in rs:
            d = os.read(r, 1 << 16)
            if d:
                bufs[r] += d
                continue
            pid, ob, t0 = live.pop(r)
            os.close(r)
            os.waitpid(pid, 0)
            try:
                res = json.loads(bufs.pop(r))
            except ValueError:
                res = dict(name=ob.name, fn=ob.fn, dom=ob.dom, status='error', note='the obligation process died',
                           violations=[], unknown=[])
            res['ob_wall'] = round(time.time() - t0, 1)
            out.append(res)
            if verbose:
                print('  [%6.1fs] %-9s %s paths=%s goals=%s/%s q=%s solver=%ss %s %s' % (
                    res['ob_wall'], res['status'], res['name'], res.get('paths'), res.get('discharged'),
                    res.get('goals'), res.get('queries'), res.get('solver_s'), res.get('how', ''),
                    str(res.get('note', ''))[-300:]), flush=True)
                for u in res['unknown']:
                    print('      unknown:', str(u)[:200], flush=True)
                for v in res['violations']:
                    print('      violation:', str({k: v[k] for k in ('goal', 'inputs', 'ghosts', 'outputs', 'panicked', 'found_by')})[:500], flush=True)
            if res['violations'] and not verbose:
                stop = True
        now = time.time()
        for r in list(live):
            pid, ob, t0 = live[r]
            limit = (ob.hard or max(600, 4 * ob.timeout)) * scale
            if now - t0 > limit or now > deadline or (stop and now - t0 > 20):
                try:
                    os.killpg(pid, signal.SIGKILL)
                except ProcessLookupError:
                    pass
                try:
                    os.kill(pid, signal.SIGKILL)
                except ProcessLookupError:
                    pass
                os.waitpid(pid, 0)
                os.close(r)
                live.pop(r)
                bufs.pop(r)
                out.append(dict(name=ob.name, fn=ob.fn, dom=ob.dom, status='unknown', note='time limit of the obligation',
                                violations=[], unknown=[], ob_wall=now - t0))
                if verbose:
                    print('  [%6.1fs] TIMEOUT %s' % (now - t0, ob.name), flush=True)
        if now > deadline:
            stop = True
    return out


def known_findings():
    p = os.path.join(VERIF, 'known_findings.jsonl')
    out = []
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line:
                out.append(json.loads(line))
    return out


def main(pid, only=None, verbose=False):
    t0 = time.time()
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    try:
        from build import build
        import llir
        b = build()
    except Exception as e:
        print('ERROR: cannot build the code under check: %s' % e)
        return 2
    t_build = time.time() - t0
    prog = llir.load(b.ll)
    mod = load_check(pid)
    scale = 1.0 if tier == 'quick' else 4.0
    obs = [o for o in mod.obligations(tier)]
    obs = [o for o in obs if tier == 'thorough' or o.tier == 'quick']
    if only:
        import re
        obs = [o for o in obs if re.search(only, o.name)]
    names = [o.name for o in obs]
    assert len(set(names)) == len(names), 'duplicate obligation names'
    obs.sort(key=lambda o: -o.prio)
    budget = (780 if tier == 'quick' else 4 * 3600)
    res = run_all(prog, b.so, obs, seed, scale, t0 + budget, int(os.environ.get('VERIF_JOBS', os.cpu_count() or 8)),
                  verbose)
    known = [k for k in known_findings() if k.get('property') == pid and k.get('status') == 'finding']
    viol, kfs, errs = [], [], []
    os.makedirs(os.path.join(VERIF, 'replays'), exist_ok=True)
    for r in res:
        for v in r['violations']:
            k = next((k for k in known if k['obligation'] == r['name'] and k['goal'] == v['goal']), None)
            if k:
                kfs.append((k, v))
                continue
            ob = next(o for o in obs if o.name == r['name'])
            path = os.path.join(VERIF, 'replays', '%s-%s.json' % (pid, r['name'].replace('/', '_')))
            json.dump(dict(property=pid, obligation=r['name'], function=r['fn'], tin=ob.tin, tout=ob.tout,
                           **v), open(path, 'w'), indent=1, default=str)
            viol.append((r, v, path))
        if r['status'] in ('unknown', 'error') and not r['violations']:
            errs.append(r)
    funcs = sorted({f for r in res for f in r.get('functions', [])})
    tot = lambda k: sum(r.get(k) or 0 for r in res)
    by = {}
    for r in res:
        for k, n in (r.get('how') or {}).items():
            by[k] = by.get(k, 0) + n
    samples = [s for r in res for s in ([r['sample']] if r.get('sample') else [])][:6]
    if not samples:
        samples = ['%s: %s' % (r['name'], r['status']) for r in res[:6]]
    ev = dict(property=pid, tier=tier, seed=seed, level='model_checking',
              coverage=dict(states=tot('paths'), transitions=tot('steps'),
                            traces_validated_against_impl=tot('validated'), samples=samples,
                            obligations=len(obs), goals=tot('goals'), goals_discharged=tot('discharged'),
                            queries=tot('queries') + tot('feas_queries'), solver_s=round(tot('solver_s'), 2),
                            discharged_by=by,
                            functions_encoded=[demangle(f) for f in funcs if 'vharness' not in f][:400],
                            harness_functions=sorted({o.fn for o in obs if o.fn != '-'}),
                            bounds=sorted({o.bound for o in obs if o.bound}) + list(getattr(mod, 'BOUNDS', [])),
                            not_covered=list(getattr(mod, 'OUTSIDE', [])),
                            explanation='states = symbolic paths, transitions = IR instructions executed '
                                        'symbolically, traces_validated = concrete executions of the encoding '
                                        'compared with the native build on random inputs',
                            results=[{k: r.get(k) for k in ('name', 'fn', 'dom', 'status', 'paths', 'goals',
                                                            'discharged', 'queries', 'solver_s', 'ob_wall', 'note')}
                                     for r in res], build_s=round(t_build, 1)),
              assumptions=list(getattr(mod, 'ASSUMPTIONS', [])), wall_s=round(time.time() - t0, 1),
              violations=len(viol))
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w'), indent=1, default=str)
    for k, v in kfs:
        print('KNOWN-FINDING: property=%s %s' % (pid, k['what']))
    for r, v, path in viol:
        print('VIOLATION property=%s replay=%s' % (pid, path))
        print('  %s: goal "%s" fails for %s(%s)' % (r['name'], v['goal'], r['fn'],
                                                   ', '.join(map(str, v['inputs']))))
        print('  native outputs: %s flags: %s panicked: %s' % (str(v['outputs'])[:400], str(v['flags'])[:200], v['panicked']))
    print('%s %s: %d obligations, %d paths, %d goals (%d discharged), %d queries, %.1fs solver, %.1fs wall' % (
        pid, tier, len(obs), tot('paths'), tot('goals'), tot('discharged'), tot('queries') + tot('feas_queries'),
        tot('solver_s'), time.time() - t0))
    if viol:
        return 1
    if errs or not obs:
        for r in errs[:10]:
            print('ERROR: no verdict for %s: %s %s' % (r['name'], r.get('note', ''), str(r['unknown'])[:600]))
        return 2
    return 0


def demangle(f):
    """Readable name of a v0/legacy mangled symbol (best effort)."""
    import re
    m = re.match(r'@?"?_ZN(.*)E"?$', f)
    if not m:
        return f.strip('@"')
    s, out = m.group(1), []
    while s and s[0].isdigit():
        k = re.match(r'\d+', s).group(0)
        s = s[len(k):]
        n = int(k)
        out.append(s[:n])
        s = s[n:]
    if out and re.match(r'h[0-9a-f]{16}$', out[-1]):
        out.pop()
    t = '::'.join(out)
    for a, b in (('$LT$', '<'), ('$GT$', '>'), ('$u20$', ' '), ('$C$', ','), ('$RF$', '&'), ('$u5b$', '['),
                 ('$u5d$', ']'), ('$u7b$', '{'), ('$u7d$', '}'), ('..', '::'), ('$LP$', '('), ('$RP$', ')')):
        t = t.replace(a, b)
    return t


if __name__ == '__main__':
    import signal
    faulthandler.register(signal.SIGUSR1)
    args = sys.argv[1:]
    verbose = '-v' in args
    args = [a for a in args if a != '-v']
    rc = main(args[0], args[1] if len(args) > 1 else None, verbose)
    sys.stdout.flush()
    os._exit(rc)
