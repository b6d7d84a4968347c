#!/opt/venv/bin/python
"""Decide one property:  run_check.py C01 [--tier quick|thorough] [--case ID]

exit 0  every obligation discharged on every path within the bounds
exit 1  VIOLATION, reproduced on the unmodified ghedt
exit 2  inconclusive (unsupported construct, unreproduced counterexample, or
        more than a quarter of the cases not explored within the time limits)

A case that ran out of time while everything explored held is printed as NOT
EXPLORED, recorded in the evidence, and does not change the exit code as long as
three quarters of the cases were explored to the end.
"""
import argparse
import fnmatch
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import re
import subprocess
import sys
import tempfile
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
os.environ.setdefault('OMP_NUM_THREADS', '1')
os.environ.setdefault('OPENBLAS_NUM_THREADS', '1')
os.environ.setdefault('MPLBACKEND', 'Agg')
os.environ.setdefault('PYTHONDONTWRITEBYTECODE', '1')
import symx  # noqa: E402  (adds z3 to the path)

PY = sys.executable
LIMIT = re.compile('time limit|solver returned unknown|more than .* paths')
_MOD = None
_OPTS = None


def _work(case):
    from symx.explore import explore
    try:
        opts = dict(_OPTS)
        opts.update(case.get('opts', {}))
        return explore(_MOD.harness, case, opts)
    except BaseException:
        return {'case': case['id'], 'cands': [], 'witnesses': [],
                'error': 'crash: ' + traceback.format_exc(), 'functions': [],
                'stats': {}, 'wall_s': 0.}


def _child(q, case):
    q.send(_work(case))
    q.close()


def run_cases(cases, njobs, total_s):
    """One forked process per case, njobs at a time."""
    t0 = time.time()
    todo = list(cases)
    live = {}
    out = []
    while todo or live:
        while todo and len(live) < njobs:
            c = todo.pop(0)
            r, w = mp.Pipe(False)
            p = mp.Process(target=_child, args=(w, c))
            p.start()
            w.close()
            live[p.sentinel] = (p, r, c)
        ready = mp.connection.wait(
            [v[1] for v in live.values()] + list(live), timeout=1.0)
        for s in list(live):
            p, r, c = live[s]
            if r in ready or s in ready:
                try:
                    out.append(r.recv())
                except EOFError:
                    p.join()
                    out.append({'case': c['id'], 'cands': [], 'witnesses': [],
                                'error': 'worker died (%s)' % p.exitcode,
                                'functions': [], 'stats': {}, 'wall_s': 0.})
                p.join()
                r.close()
                del live[s]
        if time.time() - t0 > total_s:
            for s in live:
                p, r, c = live[s]
                p.kill()
                p.join()
                out.append({'case': c['id'], 'cands': [], 'witnesses': [],
                            'error': 'total time limit', 'functions': [],
                            'stats': {}, 'wall_s': total_s})
            for c in todo:
                out.append({'case': c['id'], 'cands': [], 'witnesses': [],
                            'error': 'total time limit (not started)',
                            'functions': [], 'stats': {}, 'wall_s': 0.})
            break
    return out


def replay(jobs, timeout):
    """Run jobs on the real ghedt in fresh interpreters (4 at a time)."""
    if not jobs:
        return []
    n = min(6, len(jobs))
    chunks = [jobs[i::n] for i in range(n)]
    with tempfile.TemporaryDirectory() as td:
        procs = []
        for i, ch in enumerate(chunks):
            a, b = (os.path.join(td, '%s%d.json' % (x, i)) for x in 'ab')
            with open(a, 'w') as f:
                json.dump(ch, f)
            procs.append((subprocess.Popen(
                [PY, os.path.join(HERE, 'symx', 'replay.py'), a, b], cwd=td,
                stdout=subprocess.PIPE, stderr=subprocess.STDOUT), b, ch))
        res = [None] * len(jobs)
        end = time.time() + timeout
        for i, (p, b, ch) in enumerate(procs):
            try:
                o, _ = p.communicate(timeout=max(1, end - time.time()))
                with open(b) as f:
                    outs = json.load(f)
            except Exception as e:
                p.kill()
                try:
                    o = p.communicate()[0]
                except Exception:
                    o = b''
                outs = [{'status': 'crash', 'violations': [], 'obs': [],
                         'error': '%s %s' % (e, (o or b'')[-800:].decode(
                             'utf8', 'replace'))} for _ in ch]
            for k, r in enumerate(outs):
                res[i + k * n] = r
    return res


def close(a, b):
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        return abs(a - b) <= 1e-6 * (1 + abs(a) + abs(b))
    return str(a) == str(b)


def known_findings(pid):
    out = []
    p = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(p):
        for ln in open(p):
            m = re.match(r'finding: property=(\S+) case=(\S+) label="([^"]*)"'
                         r' (.*)', ln.strip())
            if m and m.group(1) == pid:
                out.append(m.groups()[1:])
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('pid')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--case')
    ap.add_argument('--jobs', type=int, default=8)
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    pid = a.pid
    seed = int(os.environ.get('VERIF_SEED', '1'))
    t0 = time.time()
    global _MOD, _OPTS
    from symx import shims
    shims.install()
    try:
        import matplotlib
        matplotlib.use('Agg')
        import ghedt  # noqa: F401  symbolic build of the current source
    except Exception:
        traceback.print_exc()
        print('ERROR: the current source cannot be loaded')
        return 2
    mod = importlib.import_module('checks.' + pid.lower())
    _MOD = mod
    total = 330 if a.tier == 'quick' else 800
    _OPTS = {'case_s': total - 20, 'witnesses': 2 if a.tier == 'quick' else 4}
    _OPTS.update(getattr(mod, 'OPTS', {}))
    cases = mod.cases(a.tier)
    if a.case:
        cases = [c for c in cases if fnmatch.fnmatch(c['id'], a.case)]
    by_id = {c['id']: c for c in cases}
    assert len(by_id) == len(cases), 'duplicate case ids'
    results = run_cases(cases, a.jobs, total)
    errors, unexplored = [], []
    for r in results:
        if r['error'] and LIMIT.search(r['error']):
            unexplored.append('%s: %s' % (r['case'], r['error']))
        elif r['error']:
            errors.append('%s: %s' % (r['case'], r['error']))
        elif not r['cands'] and (not r['stats'].get('paths') or
                                 not r['stats'].get('obligations')):
            errors.append('%s: vacuous (no feasible path or no obligation)'
                          % r['case'])
    t_sym = time.time() - t0

    # ---- replay candidates on the unmodified code
    jobs, meta = [], []
    per = {}
    for r in results:
        for c in r['cands']:
            k = (r['case'], c['label'])
            per[k] = per.get(k, 0) + 1
            if per[k] > 3 or len(jobs) >= 48:
                continue
            jobs.append({'check': pid.lower(), 'case': by_id[r['case']],
                         'model': c['model'], 'alts': c.get('alts', []),
                         'search': getattr(mod, 'SEARCH', 120)})
            meta.append((r['case'], c))
    outs = replay(jobs, 300)
    known = known_findings(pid)
    rdir = os.path.join(HERE, 'evidence', 'replays')
    os.makedirs(rdir, exist_ok=True)
    confirmed = {}
    unrepro = {}
    for (cid, c), o, j in zip(meta, outs, jobs):
        if o['violations']:
            lab = o['violations'][0][0]
            confirmed.setdefault((cid, c['label']), (lab, c, o, j))
        else:
            unrepro.setdefault((cid, c['label']), (c, o))
    for k in list(unrepro):
        if k in confirmed:
            del unrepro[k]
    # ---- witnesses: the same paths on the unmodified code
    wj, wm = [], []
    for r in results:
        for w in r['witnesses']:
            wj.append({'check': pid.lower(), 'case': by_id[r['case']],
                       'model': w['model']})
            wm.append((r['case'], w))
    cap = getattr(mod, 'MAX_WITNESS', 40 if a.tier == 'quick' else 80)
    if len(wj) > cap:
        step = len(wj) / cap
        idx = [int(i * step) for i in range(cap)]
        wj, wm = [wj[i] for i in idx], [wm[i] for i in idx]
    wo = replay(wj, 300)
    agree = mismatch = skipped = 0
    mism = []
    for (cid, w), o, j in zip(wm, wo, wj):
        if o['violations']:
            lab = o['violations'][0][0]
            confirmed.setdefault((cid, lab), (lab, {
                'label': lab, 'model': w['model'],
                'detail': 'found on a witness path'}, o, j))
        elif o['status'] != 'ok':
            skipped += 1
            if o['status'] == 'crash':
                mism.append('%s: replay crashed: %s' % (cid, o.get('error')))
                mismatch += 1
        else:
            d1, d2 = dict(w['obs']), dict(o['obs'])
            bad = [n for n in d1 if n not in d2 or (
                d1[n] is not None and not close(d1[n], d2[n]))]
            if bad:
                mismatch += 1
                mism.append('%s: %s' % (cid, [(n, d1[n], d2.get(n))
                                              for n in bad[:3]]))
            else:
                agree += 1
    if mismatch and mismatch >= max(3, agree):
        errors.append('translation validation failed: ' + '; '.join(mism[:4]))

    nviol = 0
    for i, ((cid, lab0), (lab, c, o, j)) in enumerate(sorted(
            confirmed.items())):
        kf = [k for k in known if fnmatch.fnmatch(cid, k[0]) and
              (fnmatch.fnmatch(lab, k[1]) or fnmatch.fnmatch(lab0, k[1]))]
        if kf:
            print('KNOWN-FINDING: property=%s %s' % (pid, kf[0][2]))
            continue
        nviol += 1
        h = hashlib.sha1(('%s|%s' % (cid, lab0)).encode()).hexdigest()[:8]
        path = os.path.join(rdir, '%s-%s.json' % (pid, h))
        model = o.get('model', c['model'])
        if o.get('tries', 1) > 1:
            model = {'inputs': {k: (v if isinstance(v, bool) else str(
                __import__('fractions').Fraction(v)))
                for k, v in o['used'].items()},
                'curves': c['model'].get('curves', {})}
        with open(path, 'w') as f:
            json.dump({'property': pid, 'check': pid.lower(),
                       'case': by_id[cid], 'model': model,
                       'violations': o['violations'],
                       'solver_label': lab0, 'solver_detail': c['detail']},
                      f, indent=1)
        if nviol <= 12:
            print('VIOLATION property=%s replay=%s' % (pid, path))
            print('  case %s: %s %s' % (cid, lab, o['violations'][0][1]))
    unconfirmed = []
    for (cid, lab), (c, o) in unrepro.items():
        if by_id[cid].get('opts', {}).get('rounding'):
            # the rounding model admits more errors than floats make: only
            # what the real code reproduces counts
            unconfirmed.append('%s: %s' % (cid, lab))
            continue
        if lab == 'terminates' and o['status'] in ('ok', 'assume'):
            # the symbolic run was too slow, the real code was not
            unexplored.append('%s: a path took too long' % cid)
            continue
        errors.append('%s: counterexample for "%s" not reproduced on the real '
                      'code (%s %s) model=%s' % (
                          cid, lab, o['status'], o.get('error', ''),
                          json.dumps(c['model'])[:400] + str(c['detail'])[:200]))

    # ---- evidence
    tot = {}
    for r in results:
        for k, v in r['stats'].items():
            if k == 'labels':
                d = tot.setdefault('labels', {})
                for n, m in v.items():
                    d[n] = d.get(n, 0) + m
            elif k == 'max_query_s':
                tot[k] = max(tot.get(k, 0.), v)
            else:
                tot[k] = tot.get(k, 0) + v
    funcs = sorted({f for r in results for f in r['functions']})
    samples = []
    for (cid, w), o in list(zip(wm, wo))[:6]:
        samples.append({'case': cid, 'inputs': dict(list(
            w['model']['inputs'].items())[:12]), 'replay': o['status'],
            'observed': o['obs'][:6]})
    if not samples:
        samples = [{'case': c['id']} for c in cases[:3]]
    ev = {
        'property': pid, 'tier': a.tier, 'seed': seed,
        'level': 'model_checking',
        'coverage': {
            'states': tot.get('paths', 0),
            'transitions': tot.get('decisions', 0),
            'traces_validated_against_impl': agree,
            'samples': samples,
            'cases': len(cases),
            'infeasible_paths_pruned': tot.get('pruned', 0),
            'obligations_checked': tot.get('obligations', 0),
            'obligations_discharged': tot.get('discharged', 0),
            'solver_queries': tot.get('queries', 0),
            'solver_seconds': round(tot.get('solver_s', 0.), 2),
            'slowest_query_s': round(tot.get('max_query_s', 0.), 2),
            'obligations_by_label': tot.get('labels', {}),
            'witness_replays': len(wj), 'witness_skipped': skipped,
            'witness_mismatch': mismatch, 'witness_mismatch_detail': mism[:5],
            'counterexamples_replayed': len(jobs),
            'functions_encoded': funcs,
            'bounds': getattr(mod, 'BOUNDS', ''),
            'per_case': [{'case': r['case'],
                          'paths': r['stats'].get('paths', 0),
                          'obligations': r['stats'].get('obligations', 0),
                          'wall_s': round(r['wall_s'], 2)}
                         for r in sorted(results, key=lambda r: -r['wall_s'])
                         ][:40],
            'unconfirmed_under_rounding_model': unconfirmed,
            'errors': errors[:10],
            'not_explored': unexplored,
        },
        'assumptions': list(getattr(mod, 'ASSUMPTIONS', [])) + [
            'machine floats are treated as exact reals by the solver; every '
            'counterexample and the sampled witnesses are re-run in floats on '
            'the unmodified code'],
        'wall_s': round(time.time() - t0, 2),
        'violations': nviol,
    }
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    if not a.case:
        with open(os.path.join(HERE, 'evidence', pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
    print('%s %s: %d cases, %d paths (%d pruned), %d/%d obligations, %d '
          'queries, %.1f s solver, %d/%d witnesses agree, %.1f s symbolic, '
          '%.1f s wall' % (
              pid, a.tier, len(cases), tot.get('paths', 0),
              tot.get('pruned', 0), tot.get('discharged', 0),
              tot.get('obligations', 0), tot.get('queries', 0),
              tot.get('solver_s', 0.), agree, len(wj), t_sym,
              time.time() - t0))
    if a.v:
        for m in mism[:10]:
            print('  mismatch', m)
        for r in sorted(results, key=lambda r: -r['wall_s'])[:8]:
            print('   ', r['case'], round(r['wall_s'], 2),
                  {k: v for k, v in r['stats'].items() if k != 'labels'})
        print('   ', tot.get('labels'))
        print('   ', funcs)
    if nviol:
        return 1
    for e in unexplored[:8]:
        print('NOT EXPLORED', e[:400])
    if errors:
        for e in errors[:8]:
            print('INCONCLUSIVE', e[:1500])
        return 2
    if len(unexplored) * 4 > len(cases):
        print('INCONCLUSIVE', len(unexplored), 'of', len(cases),
              'cases not explored')
        return 2
    return 0


if __name__ == '__main__':
    code = main()
    sys.stdout.flush()
    os._exit(code)
