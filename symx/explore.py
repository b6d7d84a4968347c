"""Depth-first exploration of all paths of a harness for one case."""
import contextlib
import io
import os
import signal
import sys
import time
import traceback
import warnings

from . import engine as E
from . import shims
from .session import SymSession


class PathTimeout(BaseException):
    pass


def _alarm(_s, _f):
    raise PathTimeout()


def _profile(seen, root):
    def prof(frame, event, arg):
        if event == 'call':
            co = frame.f_code
            if co.co_filename.startswith(root):
                seen.add((os.path.relpath(co.co_filename, root),
                          co.co_qualname))
    return prof


def where(tb):
    """Innermost frame inside the repository."""
    loc = ''
    for fr in traceback.extract_tb(tb):
        if fr.filename.startswith(shims.REPO):
            loc = '%s:%s' % (os.path.relpath(fr.filename, shims.REPO), fr.name)
    return loc


def explore(harness, case, opts):
    """Returns a plain dict (crosses process boundaries)."""
    t0 = time.time()
    stats = E.Stats()
    res = {'case': case['id'], 'cands': [], 'witnesses': [], 'error': None,
           'functions': []}
    seen = set()
    stack = [[]]
    root = shims.REPO + '/'
    deadline = t0 + opts.get('case_s', 300)
    path_s = opts.get('path_s', 120)
    max_w = opts.get('witnesses', 3)
    max_paths = opts.get('max_paths', 200000)
    signal.signal(signal.SIGALRM, _alarm)
    npath = 0
    while stack:
        prefix = stack.pop()
        npath += 1
        if npath > max_paths:
            res['error'] = 'more than %d paths' % max_paths
            break
        if time.time() > deadline:
            res['error'] = 'case time limit (%d paths done)' % stats.paths
            break
        ctx = E.Context(prefix, stats, timeout_ms=opts.get('query_ms', 60000),
                        log_axioms=opts.get('log_axioms', True))
        ctx.rounding = opts.get('rounding', False)
        ctx.deadline = deadline
        E.CTX = ctx
        E.reset_tokens()
        S = SymSession(ctx, opts)
        feasible = True
        buf = io.StringIO()
        prof = npath <= 40
        signal.setitimer(signal.ITIMER_REAL, path_s)
        try:
            if prof:
                sys.setprofile(_profile(seen, root))
            with contextlib.redirect_stdout(buf), \
                    contextlib.redirect_stderr(buf), \
                    warnings.catch_warnings():
                warnings.simplefilter('ignore')
                harness(S, case)
        except E.PathInfeasible:
            feasible = False
        except E.SymError as e:
            if os.environ.get('SYMX_TRACE'):
                sys.setprofile(None)
                traceback.print_exc()
            res['error'] = 'SymError: %s @ %s' % (e, where(e.__traceback__))
        except PathTimeout as e:
            sys.setprofile(None)
            if os.environ.get('SYMX_TRACE'):
                sys.__stderr__.write(traceback.format_exc()[-3000:])
            try:
                if ctx.sat():
                    S._cand('terminates', ctx.last_model,
                            'no result within %d s' % path_s)
            except E.SymError:
                res['error'] = 'path time limit'
        except Exception as e:
            sys.setprofile(None)
            if 'PathTimeout' in str(e):
                res['error'] = 'path time limit'
            if os.environ.get('SYMX_TRACE'):
                traceback.print_exc()
            lab = 'unexpected %s' % type(e).__name__
            stats.obligations += 1
            try:
                if res['error']:
                    pass
                elif ctx.sat():
                    S._cand(lab, ctx.last_model, '%s @ %s' % (
                        e, where(e.__traceback__)), ())
                else:
                    feasible = False
            except E.SymError as e2:
                res['error'] = str(e2)
        finally:
            sys.setprofile(None)
            signal.setitimer(signal.ITIMER_REAL, 0)
            S.unpatch()
        if isinstance(ctx.poison, E.SymError) and res['error'] is None:
            res['error'] = 'SymError (swallowed): %s' % ctx.poison
        stack.extend(ctx.pending)
        res['cands'].extend(S.cands)
        if feasible:
            stats.paths += 1
            if not S.cands and res['error'] is None and \
                    (len(res['witnesses']) < max_w or
                     (len(stack) == 0 and len(res['witnesses']) == max_w)):
                try:
                    if ctx.sat():
                        m = ctx.last_model
                        res['witnesses'].append(
                            {'model': S.assignment(m),
                             'obs': S.obs_values(m)})
                except E.SymError:
                    pass
        else:
            stats.pruned += 1
        E.CTX = None
        if res['error'] is not None:
            break
        if len(res['cands']) >= opts.get('max_cands', 6):
            break
    res['functions'] = sorted('%s:%s' % f for f in seen)
    res['stats'] = stats.as_dict()
    res['wall_s'] = time.time() - t0
    return res
