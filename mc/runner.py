"""Runner of the bounded exhaustive checks.

A check module `mc.cNN` enumerates *units* (one configuration of the system under test each), and for every unit explores
all behaviours (histories, operation sequences, random tapes, inputs of a finite alphabet) within the stated bounds,
comparing the real code of /repo with a reference model at every step. Units are spread over worker processes.
"""
import argparse
import importlib
import json
import multiprocessing as mp
import os
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TIME_LIMIT = float(os.environ.get('VERIF_TIME_LIMIT', '840'))


class Ctx:
    """Collects what a unit explored, and the violations."""

    def __init__(self, unit):
        self.unit = unit
        self.states = set()
        self.transitions = 0
        self.traces = 0
        self.evaluations = 0
        self.outcomes = set()
        self.violations = []
        self.samples = []
        self.margin = {}
        self.max_viol = 3

    def state(self, key):
        self.states.add(hash(key))

    def trans(self, n=1):
        self.transitions += n

    def trace(self, n=1):
        self.traces += n

    def sample(self, x):
        if len(self.samples) < 1:
            self.samples.append(x)

    def fail(self, what, case, detail=''):
        if len(self.violations) < self.max_viol:
            self.violations.append(dict(unit=self.unit, what=what, case=_js(case), detail=str(detail)[:2000]))

    def ok(self, cond, what, case=None, detail=''):
        self.evaluations += 1
        if not cond:
            self.fail(what, case, detail)
        return bool(cond)

    def close(self, what, got, want, atol, rtol=0., case=None, describe=None):
        """Compare arrays; the first mismatching entry is reported. The worst ratio error/tolerance is recorded."""
        import numpy as np
        try:
            got = np.asarray(got)
            want = np.asarray(want)
            if got.dtype == object:
                got = got.astype('float64')
            if want.dtype == object:
                want = want.astype('float64')
        except Exception as e:  # noqa
            self.fail(what, case, f'not comparable: {e!r}')
            return False
        self.evaluations += int(max(want.size, 1))
        if got.shape != want.shape:
            self.fail(what, case, f'shape {got.shape} instead of {want.shape}')
            return False
        if want.size == 0:
            return True
        with np.errstate(all='ignore'):
            tol = atol + rtol * np.abs(want)
            err = np.abs(got - want)
            same = (got == want)  # equal infinities
            ratio = np.where(same, 0., err / tol)
        ratio = np.where(np.isnan(ratio), np.inf, ratio)
        w = float(ratio.max())
        if not w <= 1.:
            i = np.unravel_index(int(np.argmax(ratio)), ratio.shape)
            c = case
            if describe is not None:
                c = describe(i)
            self.fail(what, c, f'at {tuple(int(k) for k in i)}: got {got[i]!r}, expected {want[i]!r}')
            return False
        if w > self.margin.get(what, -1.):
            self.margin[what] = w
        return True


def _js(x):
    import numpy as np
    from fractions import Fraction
    if isinstance(x, dict):
        return {str(k): _js(v) for k, v in x.items()}
    if isinstance(x, (list, tuple, set, frozenset)):
        return [_js(v) for v in x]
    if isinstance(x, Fraction):
        return str(x)
    if isinstance(x, (np.floating, np.integer, np.bool_)):
        return x.item()
    if isinstance(x, np.ndarray):
        return _js(x.tolist())
    if x is None or isinstance(x, (str, int, float, bool)):
        return x
    return repr(x)[:500]


def _run_unit(modname, tier, unit):
    ctx = Ctx(unit)
    t0 = time.time()
    error = None
    try:
        m = importlib.import_module(modname)
        m.run_unit(ctx, tier, *unit['args'])
    except Exception as e:  # an exception in the code under test (or its inability to accept a legal input)
        tb = traceback.extract_tb(e.__traceback__)
        frames = [f'{os.path.relpath(f.filename, VERIF) if f.filename.startswith(VERIF) else f.filename}:{f.lineno} {f.name}'
                  for f in tb if '/jax/' not in f.filename][-12:]
        if isinstance(e, MemoryError):
            error = repr(e)
        else:
            ctx.fail('exception raised on a legal input', dict(exception=repr(e)[:500], frames=frames))
    return dict(unit=unit, states=len(ctx.states), transitions=ctx.transitions, traces=ctx.traces,
                evaluations=ctx.evaluations, outcomes=len(ctx.outcomes), violations=ctx.violations,
                samples=_js(ctx.samples), margin=ctx.margin, wall=time.time() - t0, error=error)


def _worker(modname, tier, inq, outq):
    try:
        import jax
        jax.config.update('jax_enable_x64', True)
        from mc import common
        common.assert_repo()
    except Exception:
        outq.put(('import', traceback.format_exc()))
        return
    while True:
        item = inq.get()
        if item is None:
            return
        i, unit = item
        outq.put((i, _run_unit(modname, tier, unit)))
        # Compiled programs accumulate otherwise
        jax.clear_caches()


def normalise(units):
    out = []
    for u in units:
        name, args, cost = u
        out.append(dict(name=name, args=list(args), cost=cost))
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('tier', nargs='?', default=None)
    ap.add_argument('--replay', default=None)
    ap.add_argument('--unit', default=None, help='only units whose name contains this')
    ap.add_argument('--workers', type=int, default=None)
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    tier = a.tier or os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    pid = a.property
    modname = 'mc.' + pid.lower()
    t0 = time.time()

    m = importlib.import_module(modname)
    if a.replay:
        with open(a.replay) as f:
            units = [json.load(f)['unit']]
    else:
        units = normalise(m.units(tier))
        if a.unit:
            units = [u for u in units if a.unit in u['name']]
    order = sorted(range(len(units)), key=lambda i: -units[i]['cost'])
    nw = a.workers or min(8, os.cpu_count() or 8, len(units))

    mpctx = mp.get_context('spawn')
    inq, outq = mpctx.Queue(), mpctx.Queue()
    for i in order:
        inq.put((i, units[i]))
    for _ in range(nw):
        inq.put(None)
    procs = [mpctx.Process(target=_worker, args=(modname, tier, inq, outq), daemon=True) for _ in range(nw)]
    for p in procs:
        p.start()

    results, broken, capped = {}, None, False
    import queue as _q
    while len(results) < len(units):
        left = TIME_LIMIT - (time.time() - t0)
        if left <= 0 and tier == 'quick':
            capped = True
            break
        try:
            i, r = outq.get(timeout=5)
        except _q.Empty:
            if not any(p.is_alive() for p in procs):
                try:
                    while True:
                        i, r = outq.get_nowait()
                        results[i] = r
                except _q.Empty:
                    pass
                if len(results) < len(units):
                    broken = 'a worker process ended'
                break
            continue
        if i == 'import':
            # /repo cannot be imported: no legal input is accepted any more.
            results['import'] = dict(unit=dict(name='import', args=[], cost=0), violations=[
                dict(unit=dict(name='import', args=[], cost=0), what='the package cannot be imported', case=None, detail=r)])
            break
        results[i] = r
        if a.v:
            print(f"[{time.time() - t0:7.1f}s] {r['unit']['name']:60s} {r['wall']:6.1f}s states={r['states']} "
                  f"traces={r['traces']} evals={r['evaluations']} worst={max(r['margin'].values(), default=0):.2g}"
                  f"{' VIOL' if r['violations'] else ''}", flush=True)
        if split_known(pid, r['violations'])[0] and not a.v:
            break  # one counterexample decides
    for p in procs:
        p.kill()

    rs = list(results.values())
    viols = [v for r in rs for v in r['violations']]
    viols, known = split_known(pid, viols)
    if viols and any(r.get('error') for r in rs):
        pass
    elif any(r.get('error') for r in rs):
        broken = [r['error'] for r in rs if r.get('error')][0]

    if a.replay is None and a.unit is None and 'import' not in results:
        write_evidence(pid, m, tier, seed, units, rs, viols, capped or bool(viols), time.time() - t0)
    for k in known:
        print(f'KNOWN-FINDING: property={pid} {k}')
    if a.v:
        worst = {}
        for r in rs:
            for k, w in r.get('margin', {}).items():
                worst[k] = max(worst.get(k, 0), w)
        for k, w in sorted(worst.items(), key=lambda z: -z[1])[:25]:
            print(f'   margin {w:.3g} {k}')
    if viols:
        os.makedirs(os.path.join(VERIF, 'replays'), exist_ok=True)
        for n, v in enumerate(viols[:5]):
            path = os.path.join(VERIF, 'replays', f'{pid}-{n}.json')
            with open(path, 'w') as f:
                json.dump(dict(property=pid, tier=tier, unit=v['unit'], what=v['what'], case=v['case'], detail=v['detail'],
                               how_to_replay=f'bash /verif/check {pid} {tier} --replay {path}'), f, indent=1)
            if n == 0:
                print(f"# {v['what']}: unit {v['unit']['name']}, case {json.dumps(v['case'])[:400]}: {v['detail'][:600]}")
            print(f'VIOLATION property={pid} replay={path}', flush=True)
        os._exit(1)
    if broken:
        print(f'ERROR {broken}', file=sys.stderr, flush=True)
        os._exit(2)
    print(f"{pid} {tier}: held on {sum(r['states'] for r in rs)} states, {sum(r['transitions'] for r in rs)} transitions, "
          f"{sum(r['traces'] for r in rs)} traces replayed on the implementation, in {len(rs)}/{len(units)} units, "
          f"{time.time() - t0:.1f} s", flush=True)
    os._exit(0)


def split_known(pid, viols):
    """Known findings are listed in KNOWN_FINDINGS.json; one is identified by the unit, the failing case and comparison."""
    path = os.path.join(VERIF, 'KNOWN_FINDINGS.json')
    try:
        with open(path) as f:
            entries = [e for e in json.load(f)['known'] if e['property'] == pid]
    except FileNotFoundError:
        entries = []
    fresh, known = [], []
    for v in viols:
        hit = None
        for e in entries:
            if e['unit'] == v['unit']['name'] and e['what'] == v['what'] and e['case'] == v['case']:
                hit = e
        if hit:
            known.append(hit['text'])
        else:
            fresh.append(v)
    return fresh, known


def write_evidence(pid, m, tier, seed, units, rs, viols, incomplete, wall):
    samples = [dict(unit=r['unit']['name'], trace=s) for r in rs for s in r['samples']][:6]
    worst = max([w for r in rs for w in r['margin'].values()], default=0.)
    cov = dict(states=sum(r['states'] for r in rs),
               transitions=sum(r['transitions'] for r in rs),
               traces_validated_against_impl=sum(r['traces'] for r in rs),
               evaluations=sum(r['evaluations'] for r in rs),
               distinct_outcomes=sum(r['outcomes'] for r in rs),
               units=len(rs), units_planned=len(units),
               exhaustive=(len(rs) == len(units) and not incomplete),
               bounds=m.bounds(tier), rule=m.RULE,
               worst_error_to_tolerance_ratio=worst,
               samples=samples or [dict(unit=units[0]['name'])])
    ev = dict(property=pid, tier=tier, seed=seed, level='model_checking', coverage=cov,
              assumptions=m.ASSUMPTIONS, wall_s=round(wall, 2), violations=len(viols))
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', f'{pid}.json'), 'w') as f:
        json.dump(_js(ev), f, indent=1)


if __name__ == '__main__':
    main()
