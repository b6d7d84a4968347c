"""Concrete replay on the real, unmodified ghedt.

usage: python replay.py JOBS.json OUT.json      (batch, used by run_check)
       python replay.py REPLAY.json             (one counterexample, by hand)
"""
import contextlib
import importlib
import io
import json
import os
import random
import signal
import sys
import traceback
import warnings

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
sys.path.insert(0, HERE)
sys.path.insert(0, REPO)
sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')


class Timeout(BaseException):
    pass


def _alarm(_s, _f):
    raise Timeout()


def run_once(mod, case, model, rng=None, jitter=0., secs=30):
    from symx.session import ConcreteSession, AssumptionFailed
    from symx.explore import where
    S = ConcreteSession(model, rng, jitter)
    buf = io.StringIO()
    signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, secs)
    status = 'ok'
    try:
        with contextlib.redirect_stdout(buf), \
                contextlib.redirect_stderr(buf), warnings.catch_warnings():
            warnings.simplefilter('ignore')
            mod.harness(S, case)
    except AssumptionFailed:
        status = 'assumption'
    except Timeout:
        S.violations.append(('terminates', 'no result within %d s' % secs))
    except Exception as e:
        S.violations.append(('unexpected %s' % type(e).__name__, '%s @ %s' % (
            e, where(e.__traceback__))))
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        S.unpatch()
    obs = []
    for n, v in S.obs:
        try:
            v = v if isinstance(v, (str, bool)) or v is None else float(v)
        except (TypeError, ValueError):
            v = str(v)
        obs.append((n, v))
    return status, S.violations, obs, S.used


def do_job(job, seed):
    mod = importlib.import_module('checks.' + job['check'])
    case = job['case']
    status, viol, obs, used = run_once(mod, case, job['model'])
    out = {'status': status, 'violations': viol, 'obs': obs, 'used': used,
           'tries': 1}
    for alt in job.get('alts', ()):
        if viol:
            break
        st, viol, ob, us = run_once(mod, case, alt)
        if viol:
            out = {'status': st, 'violations': viol, 'obs': ob, 'used': us,
                   'tries': 1, 'model': alt}
    if job.get('search') and not viol:
        rng = random.Random(seed)
        for t in range(job['search']):
            j = [1e-9, 1e-6, 1e-3, 0.02, 0.1, 0.3][t % 6]
            status, viol, obs, used = run_once(mod, case, job['model'], rng, j)
            if viol and status == 'ok':
                out = {'status': status, 'violations': viol, 'obs': obs,
                       'used': used, 'tries': t + 2}
                break
    return out


def main():
    import ghedt
    assert os.path.abspath(ghedt.__file__).startswith(
        os.path.abspath(REPO)), ghedt.__file__
    with open(sys.argv[1]) as f:
        data = json.load(f)
    seed = int(os.environ.get('VERIF_SEED', '1'))
    if len(sys.argv) > 2:
        outs = []
        for job in data:
            try:
                outs.append(do_job(job, seed))
            except Exception:
                outs.append({'status': 'crash', 'violations': [], 'obs': [],
                             'error': traceback.format_exc()})
        with open(sys.argv[2], 'w') as f:
            json.dump(outs, f)
        return 0
    print('property', data['property'], 'case', data['case'])
    print('inputs', json.dumps(data['model'], indent=1))
    out = do_job({'check': data['check'], 'case': data['case'],
                  'model': data['model']}, seed)
    for v in out['violations']:
        print('VIOLATED:', v)
    if not out['violations']:
        print('not violated (status %s)' % out['status'])
    return 1 if out['violations'] else 0


if __name__ == '__main__':
    sys.exit(main())
