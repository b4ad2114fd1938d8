"""Drives the exploration of all harness cases of a property, in parallel,
replays what the solver finds and writes the evidence file."""
import importlib
import json
import multiprocessing as mp
import os
import signal
import subprocess
import sys
import time
import traceback
import warnings
from fractions import Fraction

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

from . import core, shims
from .core import (Engine, Stats, Infeasible, Unsupported, Budget,
                   SolverUnknown, CheckFailed, PathSteer)
from .harness import SymCtx, ConcreteCtx, ConcreteViolation, ConcreteInfeasible

REPLAY_TZS = ('UTC', 'Europe/London')


class Case(object):
    """One harness with concrete parameters (the shape / bound)."""

    def __init__(self, fn, extra=None, witness=True, tzs=REPLAY_TZS,
                 path_timeout=60, max_paths=200000, **params):
        self.fn = fn
        self.params = params
        self.extra = extra
        self.witness = witness
        self.tzs = tzs
        self.path_timeout = path_timeout
        self.max_paths = max_paths

    @property
    def name(self):
        p = ','.join('%s=%s' % kv for kv in sorted(self.params.items()))
        return '%s(%s)' % (self.fn.__name__, p)


class PathTimeout(BaseException):
    pass


def _alarm(signum, frame):
    raise PathTimeout()


class Recorder(object):
    """Which nilmtk functions were executed (sys.monitoring)."""
    TOOL = 4

    def __init__(self, root):
        self.root = root
        self.seen = set()

    active = False

    def __enter__(self):
        mon = sys.monitoring
        mon.use_tool_id(self.TOOL, 'symrun')

        def start(code, off):
            f = code.co_filename
            if not self.active:
                return mon.DISABLE if not f.startswith(self.root) else None
            if f.startswith(self.root):
                self.seen.add(f[len(self.root) + 1:] + ':' + code.co_qualname)
            return mon.DISABLE
        mon.register_callback(self.TOOL, mon.events.PY_START, start)
        mon.set_events(self.TOOL, mon.events.PY_START)
        mon.restart_events()
        return self

    def __exit__(self, *a):
        mon = sys.monitoring
        mon.set_events(self.TOOL, 0)
        mon.register_callback(self.TOOL, mon.events.PY_START, None)
        mon.free_tool_id(self.TOOL)


def run_concrete(case, assign, tz):
    """One run of the real code on concrete values.  Returns None if the
    property held, 'infeasible', or a message."""
    ctx = ConcreteCtx(assign, tz)
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(case.path_timeout)
    try:
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            case.fn(ctx, **case.params)
    except ConcreteInfeasible:
        return 'infeasible'
    except ConcreteViolation as e:
        return 'assertion failed: ' + e.msg
    except PathTimeout:
        return 'no result within %d s' % case.path_timeout
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        where = [f for f in tb if '/nilmtk/' in f.filename]
        loc = ('%s:%s' % (where[-1].filename, where[-1].name)) if where else ''
        return 'raised %s: %s [%s]' % (type(e).__name__, str(e)[:300], loc)
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)
    return None


def jsonable(assign):
    return {k: (str(v) if isinstance(v, Fraction) else v) for k, v in assign.items()}


def unjson(assign):
    return {k: (Fraction(v) if isinstance(v, str) else v) for k, v in assign.items()}


def explore(case, deadline, log_samples=2):
    """All paths of one case.  Returns a dict (picklable)."""
    st = Stats()
    eng = Engine(st, deadline=deadline)
    res = dict(case=case.name, violations=[], undecided=[], samples=[],
               complete=True, functions=[], wall=0.0)
    t0 = time.time()
    import nilmtk
    root = os.path.dirname(nilmtk.__file__)
    old = signal.signal(signal.SIGALRM, _alarm)
    npaths = 0
    slow = 0
    rec = Recorder(root)
    rec.__enter__()
    while eng.work:
        if time.time() > deadline or npaths >= case.max_paths:
            res['complete'] = False
            break
        prefix = eng.work.pop()
        npaths += 1
        eng.start(prefix)
        ctx = SymCtx(eng)
        outcome, msg = 'held', ''
        extra = case.extra(ctx) if callable(case.extra) else case.extra
        try:
            with shims.installed(extra), warnings.catch_warnings():
                warnings.simplefilter('ignore')
                rec.active = True
                signal.alarm(case.path_timeout)
                try:
                    case.fn(ctx, **case.params)
                finally:
                    signal.alarm(0)
                    rec.active = False
        except Infeasible:
            outcome = 'infeasible'
        except CheckFailed as e:
            outcome, msg = 'failed', e.msg
        except (Unsupported, SolverUnknown, Budget) as e:
            outcome, msg = 'undecided', '%s: %s' % (type(e).__name__, e)
        except PathTimeout:
            outcome, msg = 'undecided', 'path did not finish'
        except RecursionError as e:
            outcome, msg = 'failed', 'raised RecursionError'
        except Exception as e:
            tb = traceback.extract_tb(e.__traceback__)
            loc = ' < '.join('%s:%d' % (os.path.basename(f.filename), f.lineno) for f in tb[::-1][:6])
            outcome, msg = 'failed', 'raised %s: %s [%s]' % (type(e).__name__, str(e)[:200], loc)
        core.set_cur(None)
        if outcome == 'infeasible':
            st.infeasible += 1
            continue
        st.paths += 1
        n_models = {'held': 1, 'failed': 3, 'undecided': 6}[outcome]
        if outcome == 'held' and not case.witness:
            n_models = 0
        try:
            models = eng.nice_models(n_models, diverse=outcome == 'undecided') if n_models else []
        except Exception as e:
            models = []
        if models and eng.offgrid:
            st.offgrid += 1
            if outcome == 'held':
                continue
            models, msg = [], msg + ' [only for inputs finer than 1e-6]'
        confirmed = None
        infeas = 0
        for mi, m in enumerate(models):
            for tz in case.tzs if (outcome != 'held' or st.paths % 7 == 1) else case.tzs[:1]:
                r = run_concrete(case, m, tz)
                if outcome == 'undecided':
                    st.fallback_models += 1
                if r == 'infeasible':
                    infeas += 1
                    break
                if r is None:
                    continue
                confirmed = (m, tz, r)
                break
            if confirmed:
                break
        if confirmed:
            m, tz, r = confirmed
            res['violations'].append(dict(case=case.name, assign=jsonable(m), tz=tz,
                                          symbolic=outcome + ': ' + msg, concrete=r))
            if len(res['violations']) >= 3:
                res['complete'] = False
                break
            continue
        if outcome == 'held':
            if models:
                if infeas:
                    st.witness_skipped += 1
                else:
                    st.witness_ok += 1
                if len(res['samples']) < log_samples:
                    res['samples'].append(dict(case=case.name, decisions=len(eng.decisions),
                                               witness=jsonable(models[0])))
        else:
            st.undecided += 1
            if len(res['undecided']) < 5:
                res['undecided'].append(dict(case=case.name, why=outcome + ': ' + msg,
                                             models=[jsonable(m) for m in models[:1]]))
            if msg == 'path did not finish':
                slow += 1
                if slow >= 3:
                    res['complete'] = False
                    break
    signal.signal(signal.SIGALRM, old)
    rec.__exit__()
    res['functions'] = sorted(rec.seen)
    res['stats'] = st
    res['wall'] = time.time() - t0
    return res


_CASES = None


def _quiet():
    # the code under test prints progress; keep it off the check's output
    fd = os.open(os.devnull, os.O_WRONLY)
    os.dup2(fd, 1)
    os.close(fd)


def _work(i, deadline):
    import gc
    gc.disable()
    gc.collect()
    gc.freeze()        # gc.collect() calls in the code under test stay cheap
    try:
        return explore(_CASES[i], deadline)
    except BaseException as e:
        return dict(case=_CASES[i].name, error=traceback.format_exc())
    finally:
        gc.enable()
        gc.unfreeze()
        gc.collect()
        gc.freeze()


def load_check(prop):
    mod = importlib.import_module('checks.' + prop.lower())
    return mod


def _known(prop):
    """Known findings: (property, harness, text of the failure)."""
    path = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(path):
        return []
    with open(path) as fh:
        return [f for f in json.load(fh).get('findings', []) if f['property'] == prop]


def match_known(v, known):
    for f in known:
        if f['harness'] == v['case'].split('(')[0] and f['match'] in v['concrete']:
            return f
    return None


def run_property(prop, tier, seed, jobs=None):
    global _CASES
    t0 = time.time()
    import gc
    mod = load_check(prop)
    cases = mod.cases(tier)
    gc.collect()
    gc.freeze()
    _CASES = cases
    limit = getattr(mod, 'TIME_LIMIT', {}).get(tier, 600 if tier == 'quick' else 3000)
    deadline = t0 + limit
    jobs = jobs or int(os.environ.get('VERIF_JOBS', '8'))
    order = sorted(range(len(cases)), key=lambda i: -cases[i].params.get('weight', 0))
    total = Stats()
    results = []
    ctxm = mp.get_context('fork')
    if jobs == 1:
        results = [_work(i, deadline) for i in order]
    else:
        from concurrent.futures import ProcessPoolExecutor, as_completed
        sys.stdout.flush()
        with ProcessPoolExecutor(jobs, mp_context=ctxm, initializer=_quiet) as ex:
            futs = {ex.submit(_work, i, deadline): i for i in order}
            for f in as_completed(futs):
                try:
                    results.append(f.result())
                except Exception as e:
                    results.append(dict(case=cases[futs[f]].name, error=repr(e)))
                if os.environ.get('SYMRUN_FAST') and results[-1].get('violations'):
                    # tools/mutate.py: the first counterexample is enough
                    for q in ex._processes.values():
                        q.kill()
                    print('FAST', results[-1]['violations'][0]['case'])
                    return 1
    errors = [r for r in results if 'error' in r]
    good = [r for r in results if 'error' not in r]
    good.sort(key=lambda r: r['case'])
    for r in good:
        total.add(r['stats'])
    known = _known(prop)
    viol, found = [], {}
    for r in good:
        for v in r['violations']:
            k = match_known(v, known)
            if k is not None:
                found[k['id']] = (k, v)
            else:
                viol.append(v)
    # confirm in a fresh process, on the unpatched code
    confirmed = []
    rdir = os.path.join(VERIF, 'replays')
    os.makedirs(rdir, exist_ok=True)
    seen_h = {}
    for v in viol:
        h = v['case'].split('(')[0]
        seen_h[h] = seen_h.get(h, 0) + 1
        if seen_h[h] > 2 or len(confirmed) >= 4:
            continue
        path = os.path.join(rdir, '%s-%d.json' % (prop, len(confirmed) + 1))
        with open(path, 'w') as fh:
            json.dump(dict(property=prop, tier=tier, **v), fh, indent=1)
        p = subprocess.run([sys.executable, os.path.join(VERIF, 'run.py'), 'replay', path],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                           timeout=300)
        if p.returncode == 1:
            confirmed.append((path, v, p.stdout.strip().splitlines()[-1:]))
        else:
            total.undecided += 1
    incomplete = [r['case'] for r in good if not r['complete']]
    und = [u for r in good for u in r['undecided']]
    fns = sorted(set(f for r in good for f in r['functions']))
    vac = [r['case'] for r in good if r['stats'].paths == 0]
    ev = dict(
        property=prop, tier=tier, seed=seed, level=mod.LEVEL,
        coverage=dict(
            explanation=mod.EXPLANATION,
            states=total.paths,
            transitions=total.branches,
            traces_validated_against_impl=total.witness_ok,
            functions_encoded=fns,
            bounds=mod.BOUNDS,
            harness_cases=len(cases),
            assertions_proved=total.asserts_discharged,
            assertions_posed=total.asserts,
            assertion_labels=total.assert_labels,
            solver='z3 ' + core.z3.get_version_string(),
            solver_queries=total.queries,
            solver_sat=total.sat, solver_unsat=total.unsat,
            solver_unknown=total.unknown,
            solver_seconds=round(total.solver_s, 2),
            infeasible_prefixes=total.infeasible,
            paths_undecided=total.undecided,
            fallback_models_replayed=total.fallback_models,
            paths_only_between_grid_points=total.offgrid,
            cases_incomplete=incomplete,
            vacuous_cases=vac,
            undecided=und[:8],
            check_errors=[r['case'] + ': ' + r['error'][-800:] for r in errors],
            known_findings=[k for k in found],
            exhaustive=not incomplete and not und and not errors and not vac,
            samples=[s for r in good for s in r['samples']][:6],
            slowest=[(r['case'], round(r['wall'], 1), r['stats'].paths)
                     for r in sorted(good, key=lambda r: -r['wall'])[:5]],
        ),
        assumptions=mod.ASSUMPTIONS,
        wall_s=round(time.time() - t0, 2),
        violations=len(confirmed),
    )
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as fh:
        json.dump(ev, fh, indent=1, default=str)
    for k, v in found.values():
        print('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
    for path, v, out in confirmed:
        print('VIOLATION property=%s replay=%s' % (prop, path))
        print('  case %s' % v['case'])
        print('  input %s tz=%s' % (json.dumps(v['assign']), v['tz']))
        print('  symbolic: %s' % v['symbolic'])
        print('  concrete: %s' % v['concrete'])
    print('%s %s: %d cases, %d paths, %d/%d assertions proved, %d queries, '
          '%.1f s solver, undecided %d, incomplete %d, wall %.1f s'
          % (prop, tier, len(cases), total.paths, total.asserts_discharged, total.asserts,
             total.queries, total.solver_s, total.undecided, len(incomplete),
             time.time() - t0))
    if confirmed:
        return 1
    if errors:
        for r in errors:
            print('CHECK-ERROR %s\n%s' % (r['case'], r['error']))
        if not good:
            return 2
    if os.environ.get('SYMRUN_DEBUG'):
        for u in und:
            print('UNDECIDED', json.dumps(u, default=str)[:600])
        for v in vac:
            print('VACUOUS', v)
        for c in incomplete:
            print('INCOMPLETE', c)
    return 0


def replay(path):
    with open(path) as fh:
        d = json.load(fh)
    mod = load_check(d['property'])
    for tier in (d.get('tier', 'quick'), 'thorough', 'quick'):
        for c in mod.cases(tier):
            if c.name == d['case']:
                r = run_concrete(c, unjson(d['assign']), d['tz'])
                if r in (None, 'infeasible'):
                    print('replay: property held (%s)' % r)
                    return 0
                print('replay: ' + r)
                return 1
    print('replay: no such case ' + d['case'])
    return 2
