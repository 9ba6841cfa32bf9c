#!/opt/venv/bin/python
"""check.py ID [--tier quick|thorough] [--replay FILE] [-v]

Verifies the contracts of property ID (contracts/<id>.py) against the current source of the code under
test ($PYDV_REPO, default /repo), function by function, and runs the bounded layer of the property
(the same contracts on random inputs of the real code, and bounded/<id>.py).
Exit status: 0 held on everything explored, 1 with a VIOLATION line otherwise.
"""
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.setdefault('PYDV_REPO', '/repo')
if os.environ.get('PYDV_ENV') != '1':
    env = dict(os.environ, PYDV_ENV='1', PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', MPLBACKEND='Agg', OPENBLAS_NUM_THREADS='1',
               OMP_NUM_THREADS='1', MPLCONFIGDIR='/tmp/pydv-mpl-%d' % os.getuid())
    os.execve('/opt/venv/bin/python', ['/opt/venv/bin/python', os.path.abspath(__file__)] + sys.argv[1:], env)
sys.path.insert(0, HERE)
sys.path.insert(0, REPO)
sys.dont_write_bytecode = True
sys.setrecursionlimit(20000)

import argparse  # noqa: E402
import importlib  # noqa: E402
import json  # noqa: E402
import logging  # noqa: E402
import pickle  # noqa: E402
import select  # noqa: E402
import signal  # noqa: E402
import time  # noqa: E402
import traceback  # noqa: E402
import warnings  # noqa: E402

warnings.simplefilter('ignore')
NPROC = max(1, len(os.sched_getaffinity(0)))
TIERS = dict(quick=dict(explore=90, prove=8000, runs=30, extra=400, extra_s=25, task=330, total=700),
             thorough=dict(explore=240, prove=20000, runs=400, extra=3000, extra_s=60, task=500, total=840))
TRUSTED = [
    'z3 5.3 and cvc5 (SMT back ends)',
    'pydv/instrument.py and pydv/rt.py: the AST-level instrumentation and its runtime (branch merging, loop summaries)',
    'pydv/npmodel.py, pydv/arr.py: models of the numpy operations the code uses',
    'pydv/heap.py: model of at.Lattice / at.Element attribute storage',
]
ASSUME = [
    'floating-point numbers are treated as mathematical reals (NaN is modelled, rounding, overflow and infinities are not)',
    'array arguments of a call and array attributes of distinct elements do not share storage unless the code makes them',
    'logging, plotting and warnings have no effect on the modelled state',
]


# ------------------------------------------------------------------ tasks in separate processes
class Pool:
    """one forked process per task, with a time limit per task"""
    def __init__(self, n):
        self.n = n

    def run(self, tasks, fn, limit, until, on_result):
        tasks = list(tasks)
        running = {}
        while tasks or running:
            while tasks and len(running) < self.n:
                t = tasks.pop(0)
                if time.time() > until:
                    on_result(t, None)
                    continue
                r, w = os.pipe()
                sys.stdout.flush()
                sys.stderr.flush()
                pid = os.fork()
                if pid == 0:
                    code = 0
                    try:
                        os.close(r)
                        os.setpgid(0, 0)
                        dn = os.open(os.devnull, os.O_WRONLY)
                        if not os.environ.get('PYDV_DEBUG'):
                            os.dup2(dn, 1)
                            os.dup2(dn, 2)
                        try:
                            res = fn(t)
                        except BaseException as e:  # noqa: B902
                            res = dict(error=f'{type(e).__name__}: {e}', tb=traceback.format_exc()[-1500:])
                        data = pickle.dumps(res)
                        with os.fdopen(w, 'wb') as f:
                            f.write(data)
                    except BaseException:
                        code = 1
                    finally:
                        os._exit(code)
                os.close(w)
                running[r] = (pid, t, time.time(), bytearray())
            if not running:
                continue
            rd, _, _ = select.select(list(running), [], [], 0.5)
            now = time.time()
            for r in list(running):
                pid, t, t0, buf = running[r]
                if r in rd:
                    d = os.read(r, 1 << 20)
                    if d:
                        buf += d
                        continue
                    del running[r]
                    os.close(r)
                    os.waitpid(pid, 0)
                    try:
                        on_result(t, pickle.loads(bytes(buf)))
                    except Exception:
                        on_result(t, None)
                elif now - t0 > limit or now > until + 20:
                    del running[r]
                    for k in (lambda: os.killpg(pid, signal.SIGKILL), lambda: os.kill(pid, signal.SIGKILL)):
                        try:
                            k()
                        except OSError:
                            pass
                    os.close(r)
                    os.waitpid(pid, 0)
                    on_result(t, None)


def sname(sc):
    return ','.join(f'{k}={v}' for k, v in sc.items())


def con_runs(con, sc, seeds, limit_s, stop=True, only=None):
    """random runs of a contract on the real code: (runs, failures)"""
    from pydv import contract as C
    t0 = time.time()
    runs, fails, odd = 0, [], None
    for seed in seeds:
        if time.time() - t0 > limit_s:
            break
        try:
            B = C.run_concrete(con, sc, seed, nmax=con.opts.get('nmax', 3 + seed % 6))
        except Exception as e:
            odd = odd or e
            continue
        if B is None:
            continue
        runs += 1
        bad = [(n, str(i)) for n, ok, i in B.obl if not ok]
        if bad:
            fails.append(dict(seed=seed, bad=bad, tb=getattr(B, 'last_tb', '')[-1200:], inputs=describe(B)))
            if stop:
                break
    if odd is not None and not fails:
        raise odd
    return runs, fails


def describe(B):
    out = {}
    for n, x, x0 in B.inputs:
        out[n] = str(x0)[:300]
    for k, v in getattr(B, 'log', {}).items():
        out[k] = str(v)[:2000]
    return out


class TimeUp(BaseException):
    """the symbolic part of a task has used up its time: what the runs on the real code found is kept"""


def alarm(seconds):
    def up(*a):
        signal.setitimer(signal.ITIMER_REAL, 5)       # again, should it be swallowed
        raise TimeUp()
    signal.signal(signal.SIGALRM, up)
    signal.setitimer(signal.ITIMER_REAL, max(seconds, 1))


def task_contract(con, sc, tier, seed, until=None):
    T = TIERS[tier]
    res, failed, state = {}, [], {}
    try:
        runs_first(con, sc, T, tier, seed, res)
        if con.opts.get('bounded'):
            return res
        left = T['task'] - T['extra_s'] - 40
        if until is not None:
            left = min(left, until - time.time() - T['extra_s'])
        alarm(min(left, 100) if res['fails'] else left)
        prove_all(con, sc, T, res, failed, state)
        signal.setitimer(signal.ITIMER_REAL, 0)
    except TimeUp:
        signal.setitimer(signal.ITIMER_REAL, 0)
        res.update(status='unsupported', note='time limit')
        state['spurious'] = {f[0] for f in failed}
    return conclude(con, sc, T, seed, res, failed, state)


def runs_first(con, sc, T, tier, seed, res):
    res.update(contract=con.name, scenario=sc, targets=con.targets, obl=[], fails=[], secs=0.0, status='bounded', note='', paths=0,
               assumed=[], fns=[])
    n = con.opts.get('runs', T['runs'] if tier == 'quick' else None) or T['runs']
    runs, fails = con_runs(con, sc, range(seed * 100003, seed * 100003 + n * (1 if tier == 'quick' else 1)), con.opts.get('run_s', 40))
    res['runs'] = runs
    res['fails'] = fails
    if con.opts.get('bounded'):
        if not runs:
            res['status'] = 'vacuous'


def prove_all(con, sc, T, res, failed, state):
    from pydv import contract as C, solve
    t0 = time.time()
    state['spurious'] = spurious = set()
    obls, c, status, note, attrs, npaths = C.explore(con, sc, deadline=time.time() + T['explore'])
    res.update(status=status, note=note, paths=npaths, assumed=sorted(c.assumed_lib), fns=sorted(c.used_fns))
    if status == 'ok':
        dead = time.time() + T['explore'] * 2
        live = False
        for name, pc, goal, env in obls:
            if time.time() > dead:
                r = solve.Result('unknown', '-', 0.0, note='time limit')
            else:
                try:
                    r = solve.prove(env, pc, goal, timeout=T['prove'])
                except Exception as e:
                    r = solve.Result('unknown', '-', 0.0, note=f'{type(e).__name__}: {e}')
            res['obl'].append((name, r.status, r.backend, round(r.secs, 3)))
            if r.status != 'proved':
                failed.append((name, pc, goal, env, r))
        for name, pc, goal, env in obls[::-1]:
            live = live or not solve.contradictory(env, pc)
            if live:
                break
        if not live or not obls:
            res['status'] = 'vacuous'
    res['secs'] = round(time.time() - t0, 2)
    if res['fails']:
        return
    # counterexamples on the real code
    for name, pc, goal, env, r in failed:
        if r.model is None:
            continue
        B = None
        try:
            B = C.run_model(con, sc, r.model, attrs)
        except Exception as e:
            res['note'] += f' model replay: {type(e).__name__}: {e}'
        if B is None:
            continue
        bad = [(n_, str(i)) for n_, ok, i in B.obl if not ok]
        if bad:
            res['fails'].append(dict(seed=None, bad=bad, tb=getattr(B, 'last_tb', '')[-1200:], inputs=describe(B),
                                     model=model_dump(B)))
            return
        spurious.add(name)


def conclude(con, sc, T, seed, res, failed, state):
    if res['fails']:
        return res
    spurious = state['spurious']
    if failed or res['status'] != 'ok':
        r2, f2 = con_runs(con, sc, range(seed * 100003 + 50000, seed * 100003 + 50000 + T['extra']), T['extra_s'])
        res['runs'] += r2
        res['fails'] = f2
    if not res['fails']:
        res['refuted'] = sorted({name for name, pc, goal, env, r in failed if r.status == 'refuted' and name not in spurious})
        res['undecided'] = sorted({name for name, pc, goal, env, r in failed} - set(res['refuted']))
        res['models'] = {name: str(r.model)[:4000] for name, pc, goal, env, r in failed if r.status == 'refuted'}
    return res


def model_dump(B):
    return {k: v for k, v in B.log.items()}


def task_bounded(fn, tier, seed):
    t0 = time.time()
    r = fn.run(tier, seed)
    r.update(bounded=fn.__name__, label=fn.label, secs=round(time.time() - t0, 2))
    return r


# ------------------------------------------------------------------ known findings
def known_findings(pid):
    out = []
    p = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(p):
        for ln in open(p):
            ln = ln.strip()
            if ln.startswith('known:') and f'property={pid} ' in ln:
                key = ln.split('key=', 1)[1].split(' ', 1)
                out.append((key[0], key[1] if len(key) > 1 else ''))
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('id')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'), choices=list(TIERS))
    ap.add_argument('--replay')
    ap.add_argument('--only')
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    pid, tier = a.id.upper(), a.tier
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    logging.disable(logging.CRITICAL)
    t0 = time.time()
    T = TIERS[tier]
    from pydv import contract as C
    from pydv import bounded as BD
    errors = []
    shadow_error = None
    try:
        from pydv import shadow
        shadow.shadow()
    except Exception as e:
        shadow_error = f'{type(e).__name__}: {e}'
    mod = importlib.import_module(f'contracts.{pid.lower()}')
    cons = C.REG.get(pid.lower(), [])
    try:
        importlib.import_module(f'bounded.{pid.lower()}')
    except ModuleNotFoundError as e:
        if e.name != f'bounded.{pid.lower()}':
            raise
    bnds = BD.REG.get(pid.lower(), [])
    if a.replay:
        return replay(pid, a.replay, cons, bnds)
    tasks = []
    for con in cons:
        for sc in con.scenarios():
            if a.only and a.only not in con.name + ':' + sname(sc):
                continue
            if tier == 'quick' and con.opts.get('quick') and not con.opts['quick'](**sc):
                continue
            tasks.append(('con', con, sc))
    for b in bnds:
        if not a.only or a.only in b.__name__:
            tasks.append(('bnd', b, None))
    tasks.sort(key=lambda t: -t[1].opts.get('cost', 0) if t[0] == 'con' else -1)

    def work(t):
        return task_contract(t[1], t[2], tier, seed, t0 + T['total']) if t[0] == 'con' else task_bounded(t[1], tier, seed)
    results = []

    def on(t, r):
        if r is None:
            r = dict(status='unsupported', note='time limit')
        if 'error' in r:
            r = dict(status='unsupported', note=r['error'], tb=r.get('tb'))
        if t[0] == 'con':
            r.setdefault('contract', t[1].name)
            r.setdefault('scenario', t[2])
            r.setdefault('targets', t[1].targets)
            for k, v in dict(obl=[], fails=[], runs=0, secs=0.0, paths=0, assumed=[]).items():
                r.setdefault(k, v)
        else:
            r.setdefault('bounded', t[1].__name__)
            r.setdefault('label', t[1].label)
            r.setdefault('fails', [])
            r.setdefault('cases', 0)
        results.append((t[0], r))
        if a.v:
            nm = r.get('contract', r.get('bounded')) + ('[' + sname(r['scenario']) + ']' if t[0] == 'con' else '')
            nb = sum(o[1] != 'proved' for o in r.get('obl', []))
            print(f"  {nm}: {r.get('status')} {r.get('note', '')} obl={len(r.get('obl', []))} notproved={nb} "
                  f"runs={r.get('runs', r.get('cases'))} fails={len(r['fails'])} {r.get('secs')}s"
                  + (f" REFUTED {r.get('refuted')} UNDECIDED {r.get('undecided')}" if nb else '')
                  + (f" {r['fails'][0].get('bad', r['fails'][0])}" if r['fails'] else ''), flush=True)
            if r.get('tb'):
                print(r['tb'])
            if r['fails'] and r['fails'][0].get('tb'):
                print(r['fails'][0]['tb'])
    Pool(NPROC).run(tasks, work, T['task'], t0 + T['total'], on)
    return report(pid, tier, seed, mod, cons, results, t0, shadow_error)


def report(pid, tier, seed, mod, cons, results, t0, shadow_error):
    evdir = os.environ.get('PYDV_EVIDENCE') or os.path.join(HERE, 'evidence')
    rpdir = os.path.join(evdir, 'replays')
    os.makedirs(rpdir, exist_ok=True)
    known = known_findings(pid)
    viol, knownhit = [], set()
    cr = [r for k, r in results if k == 'con']
    br = [r for k, r in results if k == 'bnd']

    def add(key, payload, noinput=False):
        for k, d in known:
            if k == key or (k.endswith('*') and key.startswith(k[:-1])):
                knownhit.add((k, d))
                return
        viol.append((key, payload, noinput))
    for r in cr:
        for f in r['fails'][:1]:
            for bad in f['bad'][:1]:
                add(f"{r['contract']}:{bad[0]}", dict(kind='contract', contract=r['contract'], scenario=r['scenario'], **f))
    for r in br:
        for f in r['fails'][:1]:
            add(f"{r['bounded']}:{f.get('what', '')}", dict(kind='bounded', bounded=r['bounded'], **f))
    for r in cr:
        if not r['fails']:
            for name in r.get('refuted', []):
                add(f"{r['contract']}:{name}", dict(kind='obligation', contract=r['contract'], scenario=r['scenario'], obligation=name,
                                                     verifier_output=r.get('models', {}).get(name, '')), True)
    # obligations per back end
    by = {}
    nobl = ndis = 0
    solver_s = 0.0
    und = []
    for r in cr:
        for name, st, be, secs in r['obl']:
            nobl += 1
            solver_s += secs
            if st == 'proved':
                ndis += 1
                by[be] = by.get(be, 0) + 1
            else:
                und.append(f"{r['contract']}[{sname(r['scenario'])}]:{name}: {st}")
        if r['status'] not in ('ok', 'bounded'):
            und.append(f"{r['contract']}[{sname(r['scenario'])}]: {r['status']}: {r.get('note', '')}")
    for r in br:
        if r.get('status') == 'unsupported':
            und.append(f"bounded {r['bounded']}: {r.get('note')}")
    fns = sorted({t for r in cr for t in r['targets'] if r['status'] == 'ok'})
    bfns = sorted({t for r in cr for t in r['targets'] if r['status'] != 'ok'} - set(fns))
    assumed = sorted({x for r in cr for x in r.get('assumed', [])})
    ev = dict(property=pid, tier=tier, seed=seed, level=getattr(mod, 'LEVEL', 'proof'),
              coverage=dict(
                  obligations=nobl, discharged=ndis,
                  checker_cmd=f'/opt/venv/bin/python check.py {pid} --tier {tier}',
                  trusted_base=TRUSTED + [f'model of {x}' for x in assumed] + list(getattr(mod, 'TRUSTED', [])),
                  functions_under_contract=fns, functions_bounded_only=bfns,
                  by_backend=by, solver_seconds=round(solver_s, 2),
                  paths=sum(r['paths'] for r in cr),
                  scenarios=len(cr), undecided=und[:80],
                  contracts={f"{r['contract']}[{sname(r['scenario'])}]": dict(
                      status=r['status'], obligations=len(r['obl']), discharged=sum(o[1] == 'proved' for o in r['obl']),
                      runs=r['runs'], secs=r['secs']) for r in cr},
                  bounded_runs_of_contracts=dict(
                      label='bounded: random inputs, at most 9 elements, run on the real code; not counted as proved',
                      runs=sum(r['runs'] for r in cr)),
                  bounded_checks=[dict(name=r['bounded'], label=r['label'], cases=r.get('cases', 0), secs=r.get('secs')) for r in br],
              ),
              assumptions=ASSUME + list(getattr(mod, 'ASSUME', [])),
              wall_s=round(time.time() - t0, 2), violations=len(viol))
    lv = ev['level']
    cov = ev['coverage']
    if lv == 'exploration':
        cov.update(evaluations=sum(r['runs'] for r in cr) + sum(r.get('cases', 0) for r in br),
                   distinct_nontrivial=sum(r['runs'] for r in cr) + sum(r.get('cases', 0) for r in br),
                   rule='seeded random inputs that satisfy the preconditions; each seed draws a different input', samples=[
                       dict(contract=r['contract'], scenario=r['scenario']) for r in cr[:3]] + [dict(bounded=r['bounded']) for r in br[:3]])
    tmp = os.path.join(evdir, f'.{pid}.json.{os.getpid()}')
    with open(tmp, 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    os.replace(tmp, os.path.join(evdir, f'{pid}.json'))
    for k, d in sorted(knownhit):
        print(f'KNOWN-FINDING: property={pid} {k} {d}')
    print(f'{pid} {tier}: {ndis}/{nobl} obligations discharged {by}, {len(cr)} contract scenarios, '
          f"{cov['bounded_runs_of_contracts']['runs']} bounded contract runs, {sum(r.get('cases', 0) for r in br)} bounded cases, "
          f'{ev["wall_s"]} s')
    for u in und[:20]:
        print(f'UNDECIDED {u} (bounded runs only)')
    if shadow_error:
        print('UNDECIDED source not loadable by the verifier:', shadow_error)
    if not viol:
        return 0
    seen = set()
    viol.sort(key=lambda v: v[2])
    for i, (key, payload, noinput) in enumerate(viol):
        if key in seen or len(seen) >= 8:
            continue
        seen.add(key)
        path = os.path.join(rpdir, f'{pid}-{len(seen)}.json')
        with open(path, 'w') as f:
            json.dump(dict(property=pid, key=key, no_failing_input=noinput, **payload), f, indent=1, default=str)
        print(f'failed obligation {key}: {str(payload.get("bad", payload.get("what", payload.get("obligation"))))[:300]}')
        print(f'VIOLATION property={pid} replay={path}' + (' no-failing-input-found' if noinput else ''))
    return 1


def replay(pid, path, cons, bnds):
    from pydv import contract as C
    d = json.load(open(path))
    if d['kind'] == 'bounded':
        fn = [b for b in bnds if b.__name__ == d['bounded']][0]
        f = fn.one(d['seed'])
        print(json.dumps(f, indent=1, default=str) if f else 'holds')
        return 1 if f else 0
    con = [c for c in cons if c.name == d['contract']][0]
    sc = {k: (tuple(v) if isinstance(v, list) else v) for k, v in d['scenario'].items()}
    if d['kind'] == 'contract' and d.get('seed') is not None:
        runs, fails = con_runs(con, sc, [d['seed']], 600)
        for f in fails:
            print(json.dumps(f, indent=1, default=str))
        return 1 if fails else 0
    r = task_contract(con, sc, 'quick', 1)
    print(json.dumps(r, indent=1, default=str))
    return 1 if r['fails'] or r.get('refuted') else 0


if __name__ == '__main__':
    sys.exit(main())
