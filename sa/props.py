"""Registry: property id -> (analysis, what the evidence says about it)."""
import multiprocessing
import os
import traceback

import drive
from absint import Engine, AnalysisError

REGISTRY = {}
WORKERS = max(1, min(int(os.environ.get('BGLIB_WORKERS', '8')), os.cpu_count() or 1))


def prop(pid, explanation, rules, assumptions=()):
    def deco(fn):
        REGISTRY[pid] = (fn, {'explanation': explanation, 'rules': rules, 'assumptions': list(assumptions)})
        return fn
    return deco


class Sink(object):
    """Collects what one worker finds, to be merged into the parent's Check."""
    def __init__(self):
        self.viol = {}

    def violation(self, rule, construct, where, detail):
        self.viol.setdefault((rule, construct), []).append((where, detail))


_JOB = {}


def _work(k):
    E, filename, todo, setup = _JOB['E'], _JOB['file'], _JOB['todo'], _JOB['setup']
    sink = Sink()
    D = drive.Driver(E, sink)
    if setup:
        setup(E, D)
    err = None
    n = 0
    done = {}
    data = []
    post = _JOB['post']
    for i, (fn, case) in enumerate(todo):
        if i % _JOB['n'] != k:
            continue
        before = D.obligations
        try:
            for s, r in D.run_fn(fn, None, case):
                if post:
                    data.extend(post(E, sink, D.case, s, r))
        except AnalysisError as e:
            err = '%s%r: %s' % (fn.qual, case, e)
        except RecursionError:
            err = '%s%r: recursion limit in the analyser' % (fn.qual, case)
        except Exception:
            err = '%s%r: %s' % (fn.qual, case, traceback.format_exc())
        if err:
            break
        n += 1
        done[fn.qual] = done.get(fn.qual, 0) + D.obligations - before
    return (list(sink.viol.items()), D.obligations, n, done,
            sorted(str(f) for f in E.seen_fns if not str(f).startswith('drv_')), data, err)


def driver(chk, filename, funcs=None, need=1, E=None, maxrec=8, setup=None, exclude=(), case_ok=None, must_see=(), rules=None, post=None):
    """Run every check_* function of a driver on every case, in parallel, and merge."""
    E = E or Engine()
    E.maxrec = maxrec
    D = drive.Driver(E, Sink())
    if setup:
        setup(E, D)
    fns = [f for f in D.functions(filename) if (funcs is None or f.node.name in funcs) and f.node.name not in exclude]
    if funcs is not None and len(fns) != len(funcs):
        raise AnalysisError('%s: driver functions missing' % filename)
    todo = [(f, c) for f in fns for c in D.cases(f) if case_ok is None or case_ok(f.node.name, c)]
    n = min(WORKERS, max(1, len(todo) // 4))
    _JOB.update(E=E, file=filename, todo=todo, n=n, setup=setup, post=post)
    if n == 1:
        res = [_work(0)]
    else:
        with multiprocessing.get_context('fork').Pool(n) as pool:
            res = pool.map(_work, range(n), 1)
    obl, cases, per, seen, errs, data = 0, 0, {}, set(), [], []
    for viol, o, c, done, fs, dat, err in res:
        data.extend(dat)
        for (rule, construct), items in viol:
            if rules is not None and not rules(rule):
                continue
            for w, d in items:
                chk.violation(rule, construct, w, d)
        obl += o
        cases += c
        for q, m in done.items():
            per[q] = per.get(q, 0) + m
        seen.update(fs)
        if err:
            errs.append(err)
    chk.count('driver_functions', len(fns))
    chk.count('input_partitions', cases)
    chk.count('obligations', obl)
    chk.functions = getattr(chk, 'functions', set()) | seen
    chk.cover['functions_interpreted'] = len(chk.functions)
    if errs:
        raise AnalysisError(errs[0])
    for q, m in per.items():
        if m == 0 and not chk.viol:
            raise AnalysisError('driver %s states no obligation' % q)
    if obl < need and not chk.viol:
        raise AnalysisError('%s: %d obligations, expected at least %d' % (filename, obl, need))
    for f in must_see:
        if f not in seen and not chk.viol:
            raise AnalysisError('%s: %s was never reached (anchor vanished?)' % (filename, f))
    return data


import props_model   # noqa: E402,F401
import props_enc   # noqa: E402,F401
import props_doc   # noqa: E402,F401
import props_macro   # noqa: E402,F401
import props_names   # noqa: E402,F401
import props_proto   # noqa: E402,F401
import props_stat   # noqa: E402,F401
import props_image   # noqa: E402,F401
import props_record   # noqa: E402,F401
import props_text   # noqa: E402,F401
import props_pack
import props_fuzz
