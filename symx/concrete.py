"""Runs harnesses on floats against the unpatched code under test: replays of counterexamples, validation traces.

As a server it answers jobs:  {"case": name, "asg": {...}} or {"case": name, "seed": n}.
`python -m symx.concrete --replay FILE` re-runs one recorded violation and exits 1 if it still fails."""
import importlib
import json
import os
import random
import sys
import traceback
import warnings

warnings.filterwarnings('ignore')


def load(prop):
    from . import env
    env.setup()
    return importlib.import_module(f'harness.{prop.lower()}')


def run_one(case, asg=None, seed=None, table=None, tol=None):
    from .harness import ConcCx, CheckFailed, Skip
    rng = random.Random(seed) if seed is not None else None
    cx = ConcCx(asg, rng, table)
    if tol is not None:
        cx.tol = tol
    out = {}
    try:
        case.fn(cx, **case.params)
        out['status'] = 'ok'
    except Skip:
        out['status'] = 'skip'
    except CheckFailed as e:
        out.update(status='fail', label=e.label, detail=e.detail)
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        where = ' <- '.join(f'{os.path.basename(f.filename)}:{f.lineno}' for f in reversed(tb[-4:]))
        out.update(status='fail', label=f'exception {type(e).__name__}', detail=f'{e} ({where})'[:600], exception=True)
    out['asg'] = cx.used
    out['obs'] = cx.obs
    return out


def main():
    rec = json.load(open(sys.argv[2]))
    mod = load(rec['property'])
    case = {c.name: c for t in ('quick', 'thorough') for c in mod.cases(t)}[rec['case']]
    r = run_one(case, rec['inputs'], table=rec.get('functions'), tol=rec.get('tolerance'))
    print(json.dumps({k: r.get(k) for k in ('status', 'label', 'detail')}))
    sys.exit(1 if r['status'] == 'fail' else 0)


def serve(conn, cases):
    while True:
        try:
            job = conn.recv()
        except EOFError:
            return
        try:
            r = run_one(cases[job['case']], job.get('asg'), job.get('seed'), job.get('table'), job.get('tol'))
        except BaseException as e:          # keep serving
            r = dict(status='error', detail=repr(e))
        conn.send(r)


if __name__ == '__main__':
    main()
