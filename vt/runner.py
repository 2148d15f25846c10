"""Case runner: symbolic exploration, replay, evidence."""
import argparse
import importlib
import json
import multiprocessing as mp
import os
import random
import subprocess
import sys
import time
import traceback
import zlib
from fractions import Fraction

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('TENSAP_REPO', '/repo')
os.environ.setdefault('OPENBLAS_NUM_THREADS', '1')
os.environ.setdefault('OMP_NUM_THREADS', '1')
os.environ.setdefault('MPLBACKEND', 'Agg')
sys.dont_write_bytecode = True
if REPO not in sys.path:
    sys.path.insert(0, REPO)

import numpy as np  # noqa: E402
from . import sym, nppatch, hook, ctx as ctxm  # noqa: E402
from .sym import (S, SB, z3, Run, Path, PathEnd, Budget,  # noqa: E402
                  Unsupported)
from .ctx import Sym, Conc, Violation, Inconclusive  # noqa: E402


class Case:
    def __init__(self, name, fn, params=None, **opts):
        self.name = name
        self.fn = fn
        self.params = params or {}
        self.opts = opts


def load_prop(pid):
    return importlib.import_module('props.%s' % pid.lower())


def get_cases(pid, tier):
    mod = load_prop(pid)
    cs = mod.cases(tier)
    names = [c.name for c in cs]
    dup = {n for n in names if names.count(n) > 1}
    if dup:
        raise SystemExit('duplicate case names %s' % sorted(dup)[:5])
    return mod, cs


# --- function coverage -----------------------------------------------------
class Cover:
    def __init__(self):
        self.codes = set()
        self.prefix = os.path.join(REPO, 'tensap') + os.sep
        self.on = False

    def start(self):
        mon = sys.monitoring
        try:
            mon.use_tool_id(3, 'vt')
        except ValueError:
            return
        mon.register_callback(3, mon.events.PY_START, self._cb)
        mon.set_events(3, mon.events.PY_START)
        self.on = True

    def _cb(self, code, off):
        if code.co_filename.startswith(self.prefix):
            self.codes.add(code)
        return sys.monitoring.DISABLE

    def names(self):
        return sorted({'%s:%s' % (c.co_filename[len(self.prefix):],
                                  c.co_qualname) for c in self.codes
                       if '<' not in c.co_name})


# --- one case ----------------------------------------------------------------
def tb_short(e):
    fr = traceback.extract_tb(e.__traceback__)[-4:]
    return ' <- '.join('%s:%d' % (os.path.basename(f.filename), f.lineno)
                       for f in reversed(fr))


def run_concrete(case, values, rng=None, opts=None):
    """Run the scenario on plain floats.  -> (ctx, exception or None)."""
    old, sym.PATH = sym.PATH, None
    c = Conc(values, {**case.opts, **(opts or {})}, rng)
    nppatch.CONCRETE = c
    exc = None
    try:
        with np.errstate(all='ignore'):
            case.fn(c, **case.params)
    except PathEnd:
        pass
    except Exception as e:       # noqa: BLE001
        exc = e
    finally:
        nppatch.CONCRETE = None
        sym.PATH = old
    return c, exc


def run_case(case, tier):
    t0 = time.time()
    opts = case.opts
    budget = opts.get('time', 100 if tier == 'quick' else 500)
    run = Run(max_paths=opts.get('max_paths', 6000),
              deadline=t0 + budget,
              feas_ms=opts.get('feas_ms', 2000),
              max_conc=opts.get('max_conc', 64))
    run.exact_sqrt = opts.get('exact_sqrt', False)
    run.sqrt_def = opts.get('sqrt_def', False)
    run.linear = opts.get('linear', False)
    run.eager = opts.get('eager', False)
    run.snap = opts.get('snap', 0)
    run.exact_linalg = opts.get('exact_linalg', True)
    run.generic = opts.get('generic', False)
    run.exact_qr = opts.get('exact_qr', False)
    run.exact_svd = opts.get('exact_svd', False)
    run.psd_svd = opts.get('psd_svd', False)
    run.fresh_inv = opts.get('fresh_inv', False)
    run.nobl = run.ntriv = run.nhint = 0
    run.maxq = 0.0
    run.unknown = []
    run.stubs = set()
    run.scope = set()
    run.nbranch = 0
    res = {'case': case.name, 'paths': 0, 'violations': [], 'errors': [],
           'validated': 0, 'validated_obs': 0, 'sample': None}
    cover = Cover()
    cover.start()
    nval = opts.get('validate', 3)
    seen = set()
    try:
        while run.stack:
            if run.npaths >= run.max_paths:
                raise Budget('paths')
            run.tick()
            prefix = run.stack.pop()
            path = Path(run, prefix)
            c = Sym(run, path, opts)
            path.ctx = c
            sym.PATH = path
            cand = None
            ended = False
            try:
                with np.errstate(all='ignore'):
                    case.fn(c, **case.params)
            except PathEnd:
                ended = True
            except Violation as v:
                cand = (v.label, v.model, v.detail)
            except Inconclusive as e:
                res['errors'].append('inconclusive: %s' % e)
            except Unsupported as e:
                # an exit through an unmodelled operation: no verdict
                cand = ('unsupported', None, '%s at %s' % (e, tb_short(e)))
            except Budget:
                raise
            except Exception as e:      # noqa: BLE001
                cand = ('exception', None, '%s: %s at %s' % (
                    type(e).__name__, e, tb_short(e)))
            run.npaths += 1
            run.nbranch += len(path.trace)
            if ended:
                sym.PATH = None
                continue
            res['paths'] += 1
            if cand is not None and cand[0] not in seen:
                label, model, detail = cand
                if model is None and path.cons and c.solve(
                        z3.BoolVal(True))[0] == z3.unsat:
                    sym.PATH = None      # the path cannot be taken
                    res['paths'] -= 1
                    continue
                tries = [model] if model is not None else []
                if model is None or path.stub or label == 'exception':
                    tries.append(c.path_values(None, None))
                    tries += [None] * 6
                conf = None
                for k, m in enumerate(tries):
                    if m is None:
                        m = random_values(c, path, k)
                        if m is None:
                            continue
                    cc, exc = run_concrete(case, dict(m),
                                           random.Random(k))
                    if cc.failed or (exc is not None and
                                     not isinstance(exc, Unsupported)):
                        conf = (cc, exc)
                        break
                if conf is not None:
                    cc, exc = conf
                    lab = cc.failed[0][0] if cc.failed else 'exception'
                    det = cc.failed[0][1] if cc.failed else \
                        '%s: %s at %s' % (type(exc).__name__, exc,
                                          tb_short(exc))
                    seen.add(label)
                    res['violations'].append(
                        {'case': case.name, 'label': lab, 'detail': det,
                         'values': {k: v for k, v in cc.values.items()},
                         'symbolic_label': label})
                else:
                    seen.add(label)
                    res['errors'].append('%s not reproduced: %s' % (
                        label, detail))
            elif cand is None and res['validated'] < nval:
                vals = near_path(path) if run.generic else \
                    c.path_values(None, None) if (
                        path.cons or path.stub) else pinned_plain(path)
                if res['sample'] is None:
                    res['sample'] = {k: vals[k] for k in list(vals)[:12]}
                n = validate(case, c, path, vals, res)
                if n:
                    res['validated'] += 1
                    res['validated_obs'] += n
            sym.PATH = None
            if len(res['violations']) >= 3:
                break
    except Budget as b:
        res['errors'].append('budget exhausted (%s) after %d paths' % (
            b, run.npaths))
    finally:
        sym.PATH = None
    if res['paths'] == 0:
        res['errors'].append('vacuous: no feasible path')
    if run.unknown:
        res['errors'].append('solver unknown: %s' % run.unknown[:3])
    res.update(nq=run.nq, tq=run.tq, maxq=run.maxq, nobl=run.nobl,
               ntriv=run.ntriv, nhint=run.nhint, branches=run.nbranch,
               feas_unknown=run.feas_unknown,
               stubs=sorted(run.stubs), scope=sorted(run.scope),
               funcs=cover.names(), wall=time.time() - t0)
    return res


def near_path(path, tries=200):
    """random inputs violating as few of the path's conditions as possible"""
    best = None
    t = time.time()
    ints = {n for n, (v, k) in path.inputs.items() if k == 'I'}
    fixed = {}
    if ints:                    # the integers are determined exactly
        ids = {path.inputs[n][0].get_id() for n in ints}
        s = z3.Solver()
        s.set('timeout', 2000)
        for h in path.cons:
            if set(sym.vars_of(h)) <= ids:
                s.add(h)
        if s.check() == z3.sat:
            m = s.model()
            fixed = {n: m.eval(path.inputs[n][0],
                               model_completion=True).as_long()
                     for n in ints}
    for k in range(tries):
        if k < 8:
            vals = pinned_plain(path, k, k % 2)
        else:
            rnd = random.Random(k)
            vals = [rnd.randint(10, 400) / 100 * (
                1 if k % 2 else rnd.choice([1, -1])) for _ in path.inputs]
            vals = dict(zip(path.inputs, sorted(vals) if k % 4 > 1
                            else vals))
        vals.update(fixed)
        sub = [(v, z3.IntVal(vals[n]) if kd == 'I' else
                z3.Q(Fraction(vals[n]).numerator, Fraction(vals[n]).denominator))
               for n, (v, kd) in path.inputs.items()]
        bad = sum(z3.is_false(z3.simplify(z3.substitute(h, sub)))
                  for h in path.cons)
        if best is None or bad < best[0]:
            best = bad, vals
        if not bad or time.time() - t > 3:
            break
    return best[1]


def pinned_plain(path, seed=3, positive=False):
    rnd = random.Random(seed)
    if positive:
        return {n: (rnd.randint(1, 3) if k == 'I' else
                    rnd.choice([.5, .75, 1., 1.25, 1.5, 2., 3.]))
                for n, (v, k) in path.inputs.items()}
    return {n: (rnd.randint(1, 3) if k == 'I' else
                rnd.choice([-2.5, -1.5, -1.0, 0.5, 1.0, 1.5, 2.0, 3.0]))
            for n, (v, k) in path.inputs.items()}


def random_values(c, path, k):
    rnd = random.Random(100 + k)
    s = z3.Solver()
    s.set('timeout', 3000)
    for h in path.cons:
        s.add(h)
    if s.check() == z3.unsat:
        return None
    t = time.time()
    for v, kind in path.inputs.values():
        if time.time() - t > 6:
            break
        s.push()
        s.add(v == (z3.IntVal(rnd.randint(0, 6)) if kind == 'I' else
                    z3.Q(rnd.randint(-30, 30), 10)))
        if s.check() != z3.sat:
            s.pop()
    if s.check() != z3.sat:
        return None
    m = s.model()
    return {n: ctxm.model_number(m.eval(v, model_completion=True), kd)
            for n, (v, kd) in path.inputs.items()}


def validate(case, c, path, vals, res):
    """Encoding vs implementation on one concrete input of this path."""
    cc, exc = run_concrete(case, dict(vals))
    if exc is not None and not isinstance(exc, Unsupported):
        if 'sqrt' in repr(exc):
            return 0
        res['violations'].append(
            {'case': case.name, 'label': 'exception',
             'detail': '%s: %s at %s' % (type(exc).__name__, exc,
                                         tb_short(exc)),
             'values': dict(cc.values), 'symbolic_label': 'validation'})
        return 0
    if cc.failed:
        res['violations'].append(
            {'case': case.name, 'label': cc.failed[0][0],
             'detail': cc.failed[0][1], 'values': dict(cc.values),
             'symbolic_label': 'validation'})
        return 0
    if path.stub:
        return 0
    sub = []
    for n, (v, k) in path.inputs.items():
        x = vals[n]
        sub.append((v, z3.IntVal(x) if k == 'I' else
                    z3.Q(Fraction(x).numerator, Fraction(x).denominator)))
    for h in path.cons:
        if not z3.is_true(z3.simplify(z3.substitute(h, sub))):
            return 0
    n = 0
    for j, (lab, a) in enumerate(c.obs):
        if j >= len(cc.obs) or cc.obs[j][0] != lab or \
                cc.obs[j][1].shape != a.shape:
            res['errors'].append('translation mismatch at %s' % lab)
            return 0
        b = cc.obs[j][1]
        cnt = 0
        for i in np.ndindex(*a.shape):
            x = a[i]
            if isinstance(x, (S, SB)):
                v = z3.simplify(z3.substitute(
                    x.e if isinstance(x, SB) else sym.to_z3(x), sub))
                if z3.is_rational_value(v):
                    x = v.as_fraction()
                elif z3.is_true(v) or z3.is_false(v):
                    x = z3.is_true(v)
                else:
                    continue
            if not ctxm.const_close(x, b[i], 1e-6):
                res['errors'].append(
                    'translation mismatch at %s%s: symbolic %r, real %r' %
                    (lab, i, x, b[i]))
                return 0
            n += 1
            cnt += 1
            if cnt > 40:
                break
    return n


def worker(pid, case, tier, q):
    os.dup2(os.open(os.devnull, os.O_WRONLY), 1)   # the code prints
    try:
        r = run_case(case, tier)
    except BaseException as e:      # noqa: BLE001
        r = {'case': case.name, 'fatal': '%s: %s\n%s' % (
            type(e).__name__, e, traceback.format_exc()[-1500:])}
    q.send(r)
    q.close()
    os._exit(0)


def run_all(pid, cases, tier, limit, jobs):
    pend = sorted(cases, key=lambda c: -c.opts.get('weight', 1))
    live, out = {}, []
    mpc = mp.get_context('fork')
    t0 = time.time()
    while pend or live:
        while pend and len(live) < jobs and time.time() - t0 < limit:
            c = pend.pop(0)
            a, b = mpc.Pipe(False)
            p = mpc.Process(target=worker, args=(pid, c, tier, b))
            p.start()
            b.close()
            live[p] = (c, a, time.time())
        if pend and time.time() - t0 >= limit:
            for c in pend:
                out.append({'case': c.name, 'fatal': 'not started in time'})
            pend = []
        done = mp.connection.wait([a for _, a, _ in live.values()],
                                  timeout=0.5)
        now = time.time()
        for p in list(live):
            c, a, ts = live[p]
            if a in done:
                try:
                    out.append(a.recv())
                except EOFError:
                    out.append({'case': c.name, 'fatal': 'worker died'})
                p.join()
                del live[p]
            elif now - ts > c.opts.get(
                    'time', 100 if tier == 'quick' else 500) * 1.5 + 30 or \
                    now - t0 > limit + 30:
                p.kill()
                p.join()
                out.append({'case': c.name, 'fatal': 'case timed out'})
                del live[p]
    return out


def load_known():
    f = os.path.join(HERE, 'known_findings.json')
    if not os.path.exists(f):
        return []
    return [k for k in json.load(open(f)) if 'fixed' not in k]


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'),
                    choices=['quick', 'thorough'])
    ap.add_argument('--case', default=None, help='substring filter')
    ap.add_argument('--jobs', type=int, default=8)
    ap.add_argument('--list', action='store_true')
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args(argv)
    pid = a.prop
    t0 = time.time()
    nppatch.install()
    hook.install(REPO)
    mod, cases = get_cases(pid, a.tier)
    if a.case:
        cases = [c for c in cases if a.case in c.name]
    if a.list:
        for c in cases:
            print(c.name)
        return 0
    limit = 780 if a.tier == 'quick' else 6 * 3600
    res = run_all(pid, cases, a.tier, limit, a.jobs)
    viol, errs = [], []
    for r in res:
        if 'fatal' in r:
            errs.append('%s: %s' % (r['case'], r['fatal']))
            continue
        viol += r['violations']
        errs += ['%s: %s' % (r['case'], e) for e in r['errors']]
        if a.v:
            print('%-50s paths=%d obl=%d nq=%d tq=%.2f maxq=%.2f wall=%.1f '
                  'val=%d hint=%d %s' % (
                      r['case'], r['paths'], r['nobl'], r['nq'], r['tq'],
                      r['maxq'], r['wall'], r['validated'], r['nhint'],
                      'STUB' if r['stubs'] else ''))
    known = [k for k in load_known() if k['property'] == pid]
    hit = set()
    real = []
    for v in viol:
        for i, k in enumerate(known):
            if k['case'] == v['case'] and k['label'] == v['label']:
                hit.add(i)
                break
        else:
            real.append(v)
    for i in sorted(hit):
        print('KNOWN-FINDING: property=%s %s' % (pid, known[i]['what']))
    code = 0
    for v in real[:40]:
        d = os.path.join(HERE, 'replays')
        os.makedirs(d, exist_ok=True)
        f = os.path.join(d, '%s_%d.json' % (pid, zlib.crc32(
            repr((v['case'], v['label'])).encode())))
        json.dump({'property': pid, 'case': v['case'], 'tier': a.tier,
                   'label': v['label'], 'detail': v['detail'],
                   'values': {k: (float(x) if isinstance(x, Fraction) else x)
                              for k, x in v['values'].items()}},
                  open(f, 'w'), indent=1, default=float)
        p = subprocess.run([sys.executable, '-m', 'vt.replay', f], cwd=HERE,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           text=True)
        if p.returncode == 1:
            code = 1
            print('VIOLATION property=%s replay=%s' % (pid, f))
            print('  case %s: %s: %s' % (v['case'], v['label'], v['detail']))
        else:
            errs.append('%s: %s did not replay in a fresh process: %s' % (
                v['case'], v['label'], p.stdout[-300:]))
    for e in errs[:20]:
        print('INCONCLUSIVE %s' % e)
    ok = [r for r in res if 'fatal' not in r]
    funcs = sorted({f for r in ok for f in r['funcs']})
    ev = {
        'property': pid, 'tier': a.tier,
        'seed': int(os.environ.get('VERIF_SEED', '1')),
        'level': 'model_checking',
        'coverage': {
            'states': sum(r['paths'] for r in ok),
            'transitions': sum(r['branches'] + r['nobl'] for r in ok),
            'traces_validated_against_impl': sum(r['validated'] for r in ok),
            'samples': [{'case': r['case'], 'paths': r['paths'],
                         'obligations': r['nobl'],
                         'example_input_on_a_path': r['sample']}
                        for r in ok[:6]],
            'meaning': 'states = feasible symbolic execution paths of the '
                       'real code explored to the end; transitions = '
                       'branch outcomes taken plus obligations put to the '
                       'solver; traces validated = paths whose encoding was '
                       're-run concretely on the unpatched code and agreed',
            'cases': len(res),
            'case_names': [r['case'] for r in res][:400],
            'obligations': sum(r['nobl'] for r in ok),
            'obligations_with_symbolic_content': sum(
                r['nobl'] - r['ntriv'] for r in ok),
            'discharged_with_stub_lemmas': sum(r['nhint'] for r in ok),
            'solver': 'z3 ' + z3.get_version_string(),
            'solver_queries': sum(r['nq'] for r in ok),
            'solver_time_s': round(sum(r['tq'] for r in ok), 2),
            'longest_query_s': round(max([r['maxq'] for r in ok] + [0]), 2),
            'feasibility_unknown_treated_as_feasible': sum(
                r['feas_unknown'] for r in ok),
            'stubbed_routines': sorted({s for r in ok for s in r['stubs']}),
            'scope_assumptions': sorted({s for r in ok for s in r['scope']}),
            'functions_encoded': funcs,
            'bounds': getattr(mod, 'BOUNDS', ''),
            'outside_bounds': getattr(mod, 'OUTSIDE', ''),
            'violations': len(real), 'known_findings_seen': len(hit),
            'inconclusive': errs[:20],
        },
        'wall_s': round(time.time() - t0, 2),
    }
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    if not a.case:
        json.dump(ev, open(os.path.join(HERE, 'evidence', pid + '.json'),
                           'w'), indent=1, default=str)
    print('%s: %d cases, %d paths, %d obligations, %d queries, solver %.1fs, '
          'wall %.1fs, %d violations, %d inconclusive' % (
              pid, len(res), ev['coverage']['states'],
              ev['coverage']['obligations'],
              ev['coverage']['solver_queries'],
              ev['coverage']['solver_time_s'], ev['wall_s'], len(real),
              len(errs)))
    if code:
        return 1
    bad = {e.split(':')[0] for e in errs}
    if errs and 3 * len(bad) >= len(res):
        return 2          # too little was decided to call this an answer
    return 0
