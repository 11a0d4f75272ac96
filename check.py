#!/opt/venv/bin/python
"""check.py <property id>: decide one property on /repo's current tree.

Every unit of the property is a contract; its obligations are generated from
the current source text and discharged (nf / z3 / cvc5).  Afterwards the same
contracts are evaluated at run time on the real code (bounded, not counted as
proof).  Exit 0: all obligations discharged, no failing run.  Exit 1 with a
VIOLATION line otherwise."""
import importlib
import json
import os
import random
import signal
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
sys.setrecursionlimit(20000)
for v in ('OPENBLAS_NUM_THREADS', 'OMP_NUM_THREADS'):
    os.environ.setdefault(v, '1')
os.environ.setdefault('PYTHONHASHSEED', '0')

T0 = time.time()


class Timeout(BaseException):
    pass


def alarm(sig, frm):
    raise Timeout()


def main():
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    only = None
    noproof = '--noproof' in sys.argv
    nodyn = '--nodyn' in sys.argv
    verbose = '-v' in sys.argv
    if '--unit' in sys.argv:
        only = sys.argv[sys.argv.index('--unit') + 1]
    from pyvc import build
    try:
        build.load()
    except Exception as e:
        # the tree does not build or import: every property fails
        path = write_replay(pid, dict(unit='import', message='pydsm cannot be '
                                      'built or imported: %s' % e,
                                      traceback=traceback.format_exc()))
        print('VIOLATION property=%s replay=%s' % (pid, path))
        evidence(pid, tier, seed, [], [], 1, {})
        return 1
    import warnings
    warnings.simplefilter('ignore')
    import numpy as np
    from pyvc import vc as V, solver as S
    mod = importlib.import_module('contracts.' + pid)
    prop = mod.PROP
    failed = []          # (unit, message, ob)
    obs = []
    funcs, models, covers = set(), set(), []
    signal.signal(signal.SIGALRM, alarm)
    quick = tier != 'thorough'
    unit_budget = 250 if quick else 400
    total = 700 if quick else 780
    punits = [u for u in prop.units if not (
        only and u.name != only or u.prove is None or noproof)]
    results = prove_all(punits, V, unit_budget, total, verbose)
    for u in punits:
        r = results[u.name]
        for o in r['obs']:
            obs.append((u.name, o))
            if o.status != 'proved':
                failed.append((u, o))
        funcs |= r['functions']
        models |= r['models']
        covers += [(u.name,) + c for c in r['covers']]
        if verbose:
            print('%-40s %d obligations, %d failed, %.1fs' % (
                u.name, len(r['obs']), sum(o.status != 'proved'
                                           for o in r['obs']), r['secs']))
            for o in r['obs']:
                if o.status != 'proved' or '-vv' in sys.argv:
                    print('    ', o.status, o.name, o.backend, o.info)
    # canary: a false obligation must not be discharged
    if not noproof:
        import z3
        x = z3.Real('canary')
        if S.prove([x > 0], x > 1).ok or S.prove([], x * x == x).ok:
            failed.append((V.Unit('canary'), V.Ob(
                'canary', 'refuted', '', 0, 'the back end proves falsehood')))
    # ---- run-time evaluation of the contracts
    found = None
    dyn = {'n': 0, 'keys': 0, 'samples': [], 'units': {}}
    dunits = [u for u in prop.units if u.dyn is not None and
              not (only and u.name != only)]
    bad_units = [u.name for u, o in failed]
    dunits.sort(key=lambda u: u.name not in bad_units)
    if not nodyn:
        left = (780 if quick else 840) - (time.time() - T0)
        per = min((6.0 if quick else 60.0) * (3 if failed else 1),
                  max(1.0, left / max(1, len(dunits)) * 0.8))
        for u in dunits:
            r = run_dyn(u, seed, per, tier, V, np)
            dyn['n'] += r[0]
            dyn['keys'] += r[1]
            dyn['samples'] += r[2][:1]
            dyn['units'][u.name] = r[0]
            if verbose:
                print('dyn %-36s %d cases, %.1fs' % (u.name, r[0],
                                                     time.time() - T0))
            if r[3] is not None:
                found = (u, r[3])
                break
    known = load_known(pid)
    rc = 0
    nviol = 0
    if found is not None or failed:
        rc, nviol = 1, max(1, len(failed))
        rep = dict(property=pid, seed=seed, tier=tier,
                   failed_obligations=[dict(
                       unit=u.name, obligation=o.name, status=o.status,
                       backend=o.backend, verifier=o.info,
                       counterexample=str(o.model) if o.model is not None
                       else None) for u, o in failed[:40]])
        if found is not None:
            u, (msg, data, tb) = found
            rep.update(unit=u.name, message=msg, failing_input=rep_data(data),
                       traceback=tb,
                       rerun='cd %s && VERIF_SEED=%d VERIF_TIER=%s '
                       './check.py %s --unit %r --noproof' % (
                           HERE, seed, tier, pid, u.name))
        path = write_replay(pid, rep)
        for u, o in failed[:8]:
            print('obligation failed: %s :: %s  [%s] %s' % (
                u.name, o.name, o.status, o.info))
        if found is not None:
            print('failing input: %s: %s' % (found[0].name, found[1][0]))
            print('VIOLATION property=%s replay=%s' % (pid, path))
        else:
            print('VIOLATION property=%s replay=%s no-failing-input-found' % (
                pid, path))
    for k in known:
        print('KNOWN-FINDING: property=%s %s' % (pid, k))
    evidence(pid, tier, seed, obs, prop, nviol, dict(
        dyn=dyn, funcs=funcs, models=models, covers=covers,
        stats=S.STATS))
    nd = sum(o.status == 'proved' for _, o in obs)
    print('%s: %d/%d obligations discharged, %d run-time cases, %.1fs' % (
        pid, nd, len(obs), dyn['n'], time.time() - T0))
    return rc


def prove_unit(u, V, budget, verbose):
    """the obligations of one unit, as plain data"""
    t0 = time.time()
    vc = V.VC(u.name, t0 + budget)
    signal.alarm(int(budget + 20))
    try:
        u.prove(vc)
        vc.side_conditions()
        if not vc.obs:
            vc.fail('obligations', 'no obligation was generated')
    except Timeout:
        vc.fail('termination', 'time budget of the unit spent')
    except V.Unsupported as e:
        if verbose:
            traceback.print_exc()
        vc.fail('supported', 'outside the verifier: %s' % e)
    except Exception as e:
        if verbose:
            traceback.print_exc()
        tb = traceback.extract_tb(e.__traceback__)
        vc.fail('generation', 'verification conditions could not be '
                'generated: %s: %s (%s)' % (
                    type(e).__name__, e, '; '.join(
                        '%s:%d' % (os.path.basename(f.filename), f.lineno)
                        for f in tb[-4:])))
    finally:
        signal.alarm(0)
    for o in vc.obs:
        o.info = str(o.info)
        if o.model is not None:
            o.model = str(o.model)
    return dict(obs=vc.obs, functions=set(map(str, vc.functions)),
                models=set(map(str, vc.models)), covers=vc.covers,
                secs=time.time() - t0)


def prove_all(units, V, unit_budget, total, verbose):
    """one forked worker per unit, at most one per processor at a time"""
    import pickle
    import select
    out, todo, live = {}, list(units), {}
    if '--serial' in sys.argv:
        return {u.name: prove_unit(u, V, unit_budget, verbose) for u in units}
    jobs = max(1, min(8, len(os.sched_getaffinity(0))))

    def died(u, why):
        return dict(obs=[V.Ob('worker', 'unknown', '', 0, why)],
                    functions=set(), models=set(), covers=[], secs=0.0)
    while todo or live:
        while todo and len(live) < jobs:
            u = todo.pop(0)
            left = total - (time.time() - T0)
            if left < 5:
                out[u.name] = died(u, 'time budget of the check spent')
                continue
            r, w = os.pipe()
            sys.stdout.flush()
            sys.stderr.flush()
            pid = os.fork()
            if pid == 0:
                os.close(r)
                code = 1
                try:
                    d = prove_unit(u, V, min(unit_budget, left), verbose)
                    with os.fdopen(w, 'wb') as f:
                        pickle.dump(d, f)
                    code = 0
                except BaseException:
                    traceback.print_exc()
                finally:
                    sys.stdout.flush()
                    sys.stderr.flush()
                    os._exit(code)
            os.close(w)
            live[r] = (u, pid, bytearray(), time.time() + min(
                unit_budget, left) + 45)
        if not live:
            break
        ready, _, _ = select.select(list(live), [], [], 1.0)
        for r in ready:
            b = os.read(r, 1 << 16)
            if b:
                live[r][2].extend(b)
                continue
            u, pid, buf, _t = live.pop(r)
            os.close(r)
            os.waitpid(pid, 0)
            try:
                out[u.name] = pickle.loads(bytes(buf))
            except Exception:
                out[u.name] = died(u, 'the worker of this unit died')
        for r in [r for r, x in live.items() if time.time() > x[3]]:
            u, pid, buf, _t = live.pop(r)
            os.kill(pid, signal.SIGKILL)
            os.waitpid(pid, 0)
            os.close(r)
            out[u.name] = died(u, 'time budget of the unit spent')
    return out


def run_dyn(u, seed, budget, tier, V, np):
    rng = np.random.default_rng([seed, sum(map(ord, u.name))])
    random.seed(seed)
    np.random.seed(seed)
    d = V.Dyn(rng, budget, tier)
    signal.alarm(int(budget * 4 + 60))
    fail = None
    try:
        u.dyn(d)
    except V.Found as e:
        fail = (e.msg, e.data, None)
    except Timeout:
        fail = ('the call does not terminate (%.0f s)' % (budget * 4 + 60),
                d.cur, traceback.format_exc()[-1500:])
    except Exception as e:
        fail = ('unexpected %s: %s' % (type(e).__name__, e), d.cur,
                traceback.format_exc()[-3000:])
    finally:
        signal.alarm(0)
    return d.n, len(d.keys), d.samples, fail


def rep_data(d):
    return {k: repr(v)[:4000] for k, v in (d or {}).items()}


def write_replay(pid, data):
    d = os.path.join(HERE, '.replay')
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, '%s.json' % pid)
    with open(p, 'w') as f:
        json.dump(data, f, indent=1)
    return p


def load_known(pid):
    p = os.path.join(HERE, 'known-findings.txt')
    out = []
    if os.path.exists(p):
        for ln in open(p):
            ln = ln.strip()
            if ln.startswith('property=%s ' % pid):
                out.append(ln.split(' ', 1)[1])
    return out


def evidence(pid, tier, seed, obs, prop, nviol, x):
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    by, secs = {}, 0.0
    for _, o in obs:
        if o.status == 'proved':
            by[o.backend] = by.get(o.backend, 0) + 1
        secs += o.secs
    units = {}
    for u, o in obs:
        k = units.setdefault(u, [0, 0])
        k[0] += 1
        k[1] += o.status == 'proved'
    dyn = x.get('dyn', {'n': 0, 'keys': 0, 'samples': [], 'units': {}})
    nd = sum(o.status == 'proved' for _, o in obs)
    from pyvc import trust
    ev = dict(
        property=pid, tier=tier, seed=seed, level='proof',
        coverage=dict(
            obligations=len(obs), discharged=nd,
            checker_cmd='cd /verif && VERIF_TIER=%s ./check.py %s' % (
                tier, pid),
            trusted_base=trust.TRUSTED + sorted(
                'assumed contract (model): ' + m
                for m in x.get('models', ())),
            evaluations=dyn['n'], distinct_nontrivial=dyn['keys'],
            rule='run-time evaluation of the contracts on the real code '
            '(bounded stand-in / replay search, never counted as proved); '
            'distinct by the printed input',
            samples=dyn['samples'][:6] or ['none'],
            explanation='; '.join(
                ['functions under contract (source read on this run): ' +
                 ', '.join(sorted(x.get('funcs', ()))),
                 'obligations per back end: %s' % by,
                 'obligation time %.1f s' % secs,
                 'obligations discharged per contract: %s' % {
                     k: '%d/%d' % (v[1], v[0]) for k, v in units.items()},
                 'cover (precondition satisfiable): %s' % (
                     {'%s:%s' % (c[0], c[1]): c[2]
                      for c in x.get('covers', ())},),
                 'bounded run-time cases per contract: %s' % dyn['units'],
                 'contracts without a proof (bounded only): %s' % [
                     u.name for u in getattr(prop, 'units', ())
                     if u.prove is None]])),
        assumptions=trust.ASSUMPTIONS + list(getattr(
            prop, 'assumptions', ())),
        wall_s=round(time.time() - T0, 2), violations=nviol)
    with open(os.path.join(HERE, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)


if __name__ == '__main__':
    sys.exit(main())
