"""Decides one property:  python -m symx.run C01   (tier from VERIF_TIER or --tier, seed from VERIF_SEED)."""
import argparse
import atexit
import importlib
import json
import math
import multiprocessing as mp
import multiprocessing.connection
import os
import shutil
import signal
import sys
import tempfile
import time
import traceback
import warnings

warnings.filterwarnings('ignore')
sys.setrecursionlimit(20000)
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Server:
    """The unpatched code under test, in its own process (a fork of the zygote)."""
    address = None

    def __init__(self):
        self.c = None

    def ask(self, job, timeout=None):
        try:
            if self.c is None:
                self.c = mp.connection.Client(Server.address, 'AF_UNIX')
            self.c.send(job)
            if timeout is not None and not self.c.poll(timeout):
                raise EOFError('no answer')
            return self.c.recv()
        except (OSError, EOFError, ValueError) as e:
            self.close()
            return dict(status='error', detail=repr(e))

    def close(self):
        if self.c is not None:
            self.c.close()
            self.c = None


def start_zygote(prop, tier):
    """Forks a process that imports the code unpatched and forks once more for every connection."""
    tmp = tempfile.mkdtemp(prefix='symx')
    Server.address = os.path.join(tmp, 's')
    parent = os.getpid()
    ready, w = os.pipe()
    pid = os.fork()
    if pid:
        os.close(w)
        os.read(ready, 1)
        os.close(ready)
        atexit.register(lambda: os.getpid() == parent and (os.kill(pid, signal.SIGKILL), shutil.rmtree(tmp, ignore_errors=True)))
        return
    code = 1
    try:
        os.close(ready)
        null = os.open(os.devnull, os.O_WRONLY)
        os.dup2(null, 1)
        if not os.environ.get('SYMX_DEBUG'):
            os.dup2(null, 2)
        signal.signal(signal.SIGCHLD, signal.SIG_IGN)
        from . import concrete
        mod = concrete.load(prop)
        cases = {c.name: c for c in mod.cases(tier)}
        lis = mp.connection.Listener(Server.address, 'AF_UNIX', backlog=64)
        os.write(w, b'1')
        os.close(w)
        os.set_blocking(lis._listener._socket.fileno(), True)
        lis._listener._socket.settimeout(2)
        while True:
            try:
                c = lis.accept()
            except TimeoutError:
                if os.getppid() != parent:
                    break
                continue
            if os.fork() == 0:
                signal.signal(signal.SIGCHLD, signal.SIG_DFL)
                concrete.serve(c, cases)
                break
            c.close()
        code = 0
    finally:
        os._exit(code)


FUNCS = set()


def watch_functions(root):
    """Record every function of the code under test that symbolic execution enters."""
    mon = sys.monitoring
    tid = 3
    mon.use_tool_id(tid, 'symx')

    def start(code, off):
        if code.co_filename.startswith(root) and '/tests/' not in code.co_filename:
            from .sym import CTX
            if CTX.active:
                FUNCS.add(os.path.relpath(code.co_filename, root) + ':' + code.co_qualname)
                return mon.DISABLE
            return None
        return mon.DISABLE
    mon.register_callback(tid, mon.events.PY_START, start)
    mon.set_events(tid, mon.events.PY_START)


def known_findings(prop):
    out = []
    f = os.path.join(HERE, 'KNOWN_FINDINGS.txt')
    if os.path.exists(f):
        for line in open(f):
            line = line.strip()
            if not line.startswith('finding:'):
                continue
            d = json.loads(line[len('finding:'):])
            if d['property'] == prop:
                out.append(d)
    return out


def close(x, y, scale):
    if not (math.isfinite(x) and math.isfinite(y)):
        return True          # outside real arithmetic (overflow, 0/0 in floats)
    return abs(x - y) <= 1e-4 * max(abs(x), abs(y)) + 1e-7 * (1 + scale)


def validate(eng, body, srv, case, seed, want):
    """Random concrete runs of the real code against the encoding evaluated at the same inputs."""
    done, ends, mism, fails = 0, 0, [], []
    tries = 0
    while done < want and tries < 8 * want + 8:
        tries += 1
        r = srv.ask({'case': case.name, 'seed': seed * 7919 + tries})
        if r['status'] == 'skip':
            continue
        if r['status'] == 'error':
            mism.append('replay process failed: ' + str(r.get('detail')))
            break
        done += 1
        if r['status'] == 'fail':
            fails.append(r)
            continue
        ends += 1
        try:
            ok, obs = eng_follow(eng, body, r['asg'])
        except Exception as e:
            mism.append(f'encoding raised {type(e).__name__}: {e}')
            continue
        if not ok:
            # an assumption on an uninterpreted value or a boundary tie; not comparable
            continue
        if [o[0] for o in obs] != [o[0] for o in r['obs']]:
            mism.append('different assertions reached: ' + repr([o[0] for o in obs])[:200] + ' vs ' + repr([o[0] for o in r['obs']])[:200])
            continue
        for (l, a, b), (_, c, d) in zip(obs, r['obs']):
            for x, y in list(zip(a, c)) + list(zip(b, d)):
                fin = [abs(v) for v in c + d if math.isfinite(v)]
                if not close(x, y, max(fin) if fin else 0):
                    mism.append(f'{l}: encoding {x!r}, code {y!r}')
                    break
    return done, ends, mism, fails


def eng_follow(eng, body, asg):
    box = {}

    def fn():
        box['obs'] = body()
    ok = eng.follow_run(fn, asg)
    return ok, box.get('obs')


def work(prop, tier, name, seed, deadline, conn):
    """One case in its own process."""
    from . import engine, sym
    from .harness import SymCx
    mod = importlib.import_module(f'harness.{prop.lower()}')
    case = next(c for c in mod.cases(tier) if c.name == name)
    t0 = time.time()
    out = dict(case=name, unresolved=[], known=[], violation=None, error=None, mismatch=[])
    srv = Server()
    eng = engine.Engine(seed=seed, max_paths=case.max_paths, deadline=min(deadline, t0 + case.limit), assert_ms=case.assert_ms)
    kf = known_findings(prop)
    import re

    def body():
        cx = SymCx(eng)
        try:
            case.fn(cx, **case.params)
        except Exception as e:
            if eng.follow is not None:
                raise
            tb = traceback.extract_tb(e.__traceback__)
            where = ' <- '.join(f'{os.path.basename(f.filename)}:{f.lineno}' for f in reversed(tb[-4:]))
            eng.fail(f'exception {type(e).__name__}', f'{e} ({where})'[:500])
        return cx.obs

    def on_candidate(label, models, detail, table):
        last = None
        for asg in models:
            inp = {k: v for k, v in asg.items() if '#' not in k}
            tabs = [t for t in table(asg) if abs(t[2]) <= 1e3]      # larger values only show rounding
            jobs = [{'asg': inp, 'table': tb} for tb in ([tabs, []] if tabs else [[]])]
            if sym.SHORT:      # the code rounds to fewer bits: the inputs found may be ones that are not changed by it
                jobs = [dict(j, tol=1e-9) for j in jobs + [{'seed': k} for k in range(1, 4)]]
            for job in jobs:
                tb = job.get('table', [])
                r = srv.ask(dict(job, case=name))
                last = r
                if r['status'] == 'fail':
                    if label.startswith('exception') != bool(r.get('exception')) and r.get('exception'):
                        pass        # still a failure of the real code on these inputs
                    for d in kf:
                        if re.fullmatch(d['case'], name) and re.fullmatch(d['label'], r['label']):
                            if d['what'] not in out['known']:
                                out['known'].append(d['what'])
                            return True
                    out['violation'] = dict(property=prop, case=name, label=r['label'], detail=r['detail'], inputs=r['asg'],
                                            functions=tb, solver_label=label, solver_detail=detail, tolerance=job.get('tol'))
                    return False
        out['unresolved'].append(f'{label}: a counterexample did not reproduce on the real code '
                                 f'({(last or {}).get("status")}); {detail}')
        if os.environ.get('SYMX_DEBUG'):
            out['unresolved'].append(repr(models[:2]))
        return len(out['unresolved']) < 4 or engine_stop()

    def engine_stop():
        raise engine.Inconclusive('several counterexamples did not reproduce')

    eng.on_candidate = on_candidate
    def explore():
        try:
            eng.explore(body)
        except engine.Violation:
            pass
        except engine.Rounding:
            out['error'] = 'rounding'
        except engine.Inconclusive as e:
            out['error'] = f'inconclusive: {e}'
        except sym.SymUnsupported as e:
            tb = traceback.extract_tb(e.__traceback__)
            where = ' <- '.join(f'{os.path.basename(f.filename)}:{f.lineno}' for f in reversed(tb) if 'symx' not in f.filename)[:200]
            out['error'] = f'not encodable: {e} ({where})'
        except Exception as e:
            out['error'] = 'engine failure: ' + traceback.format_exc()[-1500:]

    explore()
    for loose in (False, True):
        if out['violation'] is not None or not (out['unresolved'] or out['error'] == 'rounding'
                                                or (not loose and 'turned into a float' in (out['error'] or ''))):
            break
        # A symbolic value met an array of plain floats made by the code, or constants were rounded there: make those
        # arrays able to hold symbolic values, and start again.  If counterexamples still do not reproduce: once more,
        # with constants that agree up to rounding taken as equal.
        sym.CTX.lift, sym.CTX.loose = True, loose
        sym._float_cache.clear()
        first = {k: out[k] for k in ('unresolved', 'error')}
        out.update(unresolved=[], error=None)
        old, eng = eng, engine.Engine(seed=seed, max_paths=case.max_paths, deadline=min(deadline, t0 + case.limit), assert_ms=case.assert_ms)
        eng.on_candidate = on_candidate
        explore()
        if out['error'] not in (None, 'rounding') and not out['violation'] and first['error'] != 'rounding':
            out.update(first)        # no better: report the first attempt
            eng, sym.CTX.lift, sym.CTX.loose = old, False, False
            sym._float_cache.clear()
            break
        out['attempt'] = 2 + loose
    out['paths'] = eng.stats['paths']
    out['t_explore'] = time.time() - t0
    val = dict(done=0, ends=0)
    if out['violation'] is None and case.validate:
        try:
            done, ends, mism, fails = validate(eng, body, srv, case, seed, max(case.validate * (3 if tier == 'thorough' else 1),
                                                               40 if out['error'] else 0))
            val = dict(done=done, ends=ends)
            out['mismatch'] = mism[:5]
            for r in fails:
                if any(re.fullmatch(d['case'], name) and re.fullmatch(d['label'], r['label']) for d in kf):
                    continue
                # the real code fails the harness on these inputs although the solver found no counterexample:
                # confirm, so that it is reported with a replay like any other
                out['violation'] = dict(property=prop, case=name, label=r['label'], detail=r['detail'], inputs=r['asg'],
                                        functions=[], solver_label='(validation trace)', solver_detail='')
                break
        except BaseException as e:
            out['mismatch'] = ['validation failed: ' + traceback.format_exc()[-600:]]
    srv.close()
    out['validation'] = val
    out['stats'] = eng.stats.d
    out['witness'] = eng.witness
    out['inputs'] = getattr(eng, 'inputs', None)
    out['funcs'] = sorted(FUNCS)
    out['wall'] = time.time() - t0
    if out['violation'] is None and out['error'] is None and eng.stats['assertions'] == 0 and not out['known']:
        out['error'] = 'vacuous: no assertion was reached'
    if out['violation'] is None and out['error'] is None and eng.witness.get('result') != 'sat' and not val['ends'] \
            and not out['known']:
        out['error'] = f'vacuous: no witness reaches the end of the harness ({eng.witness.get("result")})'
    conn.send(out)
    conn.close()


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--case', default=None)
    ap.add_argument('--jobs', type=int, default=int(os.environ.get('SYMX_JOBS', '8')))
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    prop, tier = a.property, a.tier if a.tier in ('quick', 'thorough') else 'quick'
    try:
        seed = int(os.environ.get('VERIF_SEED', '1'))
    except ValueError:
        seed = 1
    t0 = time.time()
    budget = float(os.environ.get('SYMX_BUDGET', '780' if tier == 'quick' else '7200'))
    deadline = t0 + budget
    start_zygote(prop, tier)
    from . import env
    env.z3path()
    from . import patch
    patch.install()
    env.setup()
    mod = importlib.import_module(f'harness.{prop.lower()}')
    import moirae
    patch.after_import()
    watch_functions(os.path.realpath(env.REPO) + os.sep)
    cases = mod.cases(tier)
    if a.case:
        import re
        cases = [c for c in cases if re.search(a.case, c.name)]
    names = [c.name for c in cases]
    assert len(set(names)) == len(names), 'duplicate case names'
    ctx = mp.get_context('fork')
    pend = sorted(cases, key=lambda c: -c.limit)
    run, results = {}, []
    stop = False
    while (pend and not stop) or run:
        while pend and not stop and len(run) < a.jobs:
            c = pend.pop(0)
            r, w = ctx.Pipe(False)
            p = ctx.Process(target=work, args=(prop, tier, c.name, seed, deadline, w))
            p.start()
            w.close()
            run[r] = (p, c, time.time())
        ready = mp.connection.wait(list(run), timeout=1.)
        for r in ready:
            p, c, ts = run.pop(r)
            try:
                out = r.recv()
            except EOFError:
                out = dict(case=c.name, error='the worker process died', violation=None, unresolved=[], known=[], mismatch=[])
            p.join(5)
            results.append(out)
            if a.v:
                s = out.get('stats') or {}
                print(f"  {out['case']}: {out.get('wall', 0):.1f}s paths={s.get('paths')} reached={s.get('reached')} assertions={s.get('assertions')} "
                      f"z3={s.get('assertions_z3')} queries={s.get('queries')} solver={s.get('solver_s', 0):.1f}s val={out.get('validation')} {'attempt ' + str(out['attempt']) if 'attempt' in out else ''}"
                      f"{'VIOLATION ' + str(out['violation']['label']) + ' ' + str(out['violation']['detail'])[:200] if out['violation'] else ''} "
                      f"{str(out.get('error') or '')[:1200]} {str(out['unresolved'] or '')[:500]} {str(out['mismatch'] or '')[:400]}", file=sys.stderr)
            if out['violation']:
                stop = True
        now = time.time()
        for r in list(run):
            p, c, ts = run[r]
            if stop or now > ts + c.limit + 90 or now > deadline + 60:
                p.kill()
                p.join()
                run.pop(r)
                if not stop:
                    results.append(dict(case=c.name, error='killed: time limit of the case', violation=None, unresolved=[], known=[], mismatch=[]))
    if not any(r['violation'] for r in results):
        until = min(time.time() + 60, t0 + budget + 90)
        for r in results:
            if str(r['error']).startswith(('killed', 'the worker')) and r['violation'] is None:
                r['violation'] = probe(prop, next(c for c in cases if c.name == r['case']), seed, until)
                if r['violation']:
                    break
    finish(prop, tier, seed, mod, results, t0, len(cases), a)


def probe(prop, case, seed, until, n=40):
    """Concrete runs of a case the solver did not decide: what fails on the real code is reported all the same."""
    import re
    kf, srv, k = known_findings(prop), Server(), 0
    try:
        while k < n and time.time() < until:
            k += 1
            r = srv.ask({'case': case.name, 'seed': seed * 104729 + k}, timeout=max(1., until - time.time()))
            if r['status'] == 'fail' and not any(re.fullmatch(d['case'], case.name) and re.fullmatch(d['label'], r['label']) for d in kf):
                return dict(property=prop, case=case.name, label=r['label'], detail=r['detail'], inputs=r['asg'], functions=[],
                            solver_label='(not decided)', solver_detail='')
            if r['status'] == 'error':
                break
    except Exception:
        pass
    finally:
        srv.close()


def finish(prop, tier, seed, mod, results, t0, ncases, a):
    tot = {}
    for r in results:
        for k, v in (r.get('stats') or {}).items():
            tot[k] = tot.get(k, 0) + v
    funcs = sorted({f for r in results for f in r.get('funcs', [])})
    viol = [r['violation'] for r in results if r['violation']]
    errs = [f"{r['case']}: {r['error']}" for r in results if r['error']]
    unres = [f"{r['case']}: {u}" for r in results for u in r['unresolved']]
    mism = [f"{r['case']}: {u}" for r in results for u in r['mismatch']]
    known = sorted({k for r in results for k in r['known']})
    samples = []
    for r in results:
        w = r.get('witness') or {}
        if w.get('inputs') and len(samples) < 4:
            samples.append(dict(case=r['case'], reachability_witness=w['inputs']))
    bounds = {r['case']: {n: [lo, hi] for n, lo, hi in (r.get('inputs') or [])[:40]} for r in results[:6]}
    ev = dict(
        property=prop, tier=tier, seed=seed, level='model_checking',
        coverage=dict(
            states=int(tot.get('paths', 0)), transitions=int(tot.get('decisions', 0)),
            traces_validated_against_impl=sum((r.get('validation') or {}).get('ends', 0) for r in results),
            samples=samples,
            rule='states: execution paths explored; transitions: symbolic branch decisions taken on them; traces: random '
                 'concrete runs of the unpatched code whose every asserted value matched the encoding at the same inputs',
            cases=ncases, cases_finished=len([r for r in results if not r['error']]),
            paths_to_the_end=tot.get('reached', 0), infeasible_or_assumed_away=tot.get('aborted', 0),
            assertions=tot.get('assertions', 0), assertions_needing_solver_reasoning=tot.get('assertions_z3', 0),
            assertions_closed_by_normal_form=tot.get('assertions_ground', 0),
            solver_queries=tot.get('queries', 0), unsat=tot.get('unsat', 0), sat=tot.get('sat', 0), unknown=tot.get('unknown', 0),
            solver_seconds=round(tot.get('solver_s', 0), 2), counterexamples=tot.get('counterexamples', 0),
            functions_encoded=funcs, bounds=getattr(mod, 'BOUNDS', ''), input_ranges_of_some_cases=bounds,
            per_case=[dict(case=r['case'], paths=(r.get('stats') or {}).get('paths'), queries=(r.get('stats') or {}).get('queries'),
                           solver_s=round((r.get('stats') or {}).get('solver_s', 0), 2), wall_s=round(r.get('wall', 0), 1)) for r in results],
            errors=errs, unresolved=unres, mismatches=mism, known_findings=known,
        ),
        assumptions=list(getattr(mod, 'ASSUMPTIONS', [])) + [
            'floating point is read as real arithmetic; overflow and rounding are outside the claim',
            'exp/log/uninterpreted functions are constrained by sound axioms only (sign, monotonicity, tangent at 0, products of exponentials)'],
        wall_s=round(time.time() - t0, 2), violations=len(viol))
    evdir = os.environ.get('SYMX_EVIDENCE') or os.path.join(HERE, 'evidence')
    os.makedirs(evdir, exist_ok=True)
    if not a.case:
        with open(os.path.join(evdir, f'{prop}.json'), 'w') as f:
            json.dump(ev, f, indent=1)
    for k in known:
        print(f'KNOWN-FINDING: property={prop} {k}')
    if viol:
        d = os.path.join(evdir, 'replays')
        os.makedirs(d, exist_ok=True)
        for v in viol:
            p = os.path.join(d, f'{prop}.json')
            with open(p, 'w') as f:
                json.dump(v, f, indent=1)
            print(f"{prop} case {v['case']}: {v['label']}: {v['detail']}")
            print(f"inputs: {json.dumps(v['inputs'])[:1500]}")
            print(f"VIOLATION property={prop} replay={p}", flush=True)
            break
        sys.exit(1)
    if errs or unres or mism:
        for e in (errs + unres + mism)[:8]:
            print('NOT DECIDED ' + e[:400])
        sys.exit(2)
    print(f"{prop}: held on everything explored: {ncases} cases, {tot.get('paths', 0)} paths, {tot.get('assertions', 0)} assertions, "
          f"{tot.get('queries', 0)} queries, {tot.get('solver_s', 0):.1f} s solver, {time.time() - t0:.1f} s")
    sys.exit(0)


if __name__ == '__main__':
    main()
