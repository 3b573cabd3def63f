#!/usr/bin/env python3
"""check.py <property id>: decide one property of bglib from /repo's current sources.

exit 0: holds on everything analysed (known findings are printed, not raised)
exit 1: VIOLATION line(s) printed
exit 3: the analysis has no answer (unsupported construct or vanished anchor)
"""
import importlib
import json
import os
import sys
import time
import traceback

ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(ROOT, 'sa'))
sys.setrecursionlimit(20000)
KNOWN = os.path.join(ROOT, 'KNOWN_FINDINGS.txt')


class Check(object):
    def __init__(self, pid):
        self.pid = pid
        self.viol = {}
        self.cover = {}
        self.rules = []
        self.assumptions = []

    def violation(self, rule, construct, where, detail):
        """One report per (rule, construct): the key never contains a line number."""
        key = '%s %s' % (rule, construct)
        self.viol.setdefault(key, []).append((where, detail))

    def count(self, name, n=1):
        self.cover[name] = self.cover.get(name, 0) + n

    def need(self, name, least):
        """Fail the analysis when fewer instances were found than confirmed by hand."""
        from absint import AnalysisError
        if self.cover.get(name, 0) < least:
            raise AnalysisError('%s: only %d instances of %s analysed, expected at least %d (anchors vanished?)'
                                % (self.pid, self.cover.get(name, 0), name, least))


def known(pid):
    out = {}
    try:
        with open(KNOWN) as f:
            for line in f:
                line = line.strip()
                if line.startswith('known: property=%s ' % pid):
                    body = line.split(' ', 2)[2]
                    key, _, what = body.partition(' :: ')
                    out[key.strip()] = what.strip()
    except OSError:
        pass
    return out


def moved(k, kn, viol, taken):
    """The listed finding that k is when its code was only put in another function of the same module:
    same rule, same construct, and no longer reported where it was listed."""
    p = k.split(' ', 2)
    if len(p) != 3:
        return None
    for o in sorted(kn):
        q = o.split(' ', 2)
        if len(q) != 3 or o in viol or o in taken or (p[0], p[2]) != (q[0], q[2]):
            continue
        parts = q[1].split('.')
        cut = 2 if len(parts) > 2 and parts[-2][:1].isupper() else 1
        if '.'.join(parts[:-cut]) + '.' == p[1][:len('.'.join(parts[:-cut])) + 1]:
            return o
    return None


def main():
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--thorough' in sys.argv:
        tier = 'thorough'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    import props
    from absint import AnalysisError
    from front import FrontError
    chk = Check(pid)
    fn, meta = props.REGISTRY[pid]
    err = None
    try:
        fn(chk, tier)
    except (AnalysisError, FrontError) as e:
        err = str(e)
    except RecursionError:
        err = 'recursion limit in the analyser'
    except Exception:
        err = traceback.format_exc()
    kn = known(pid)
    if pid in ('G01', 'G02'):
        taken = set()
        for k in sorted(chk.viol):
            if k not in kn:
                o = moved(k, kn, chk.viol, taken)
                if o is not None:
                    taken.add(o)
                    kn[k] = kn[o] + '; listed at ' + o.split(' ')[1]
    new = [k for k in sorted(chk.viol) if k not in kn]
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    replay = os.path.join(ROOT, 'evidence', pid + '.violations.json')
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': 'other',
          'coverage': dict({'explanation': meta['explanation'], 'rules': meta['rules'], 'analysed': sorted(getattr(chk, 'functions', ()))}, **chk.cover),
          'assumptions': meta.get('assumptions', []) + chk.assumptions,
          'wall_s': round(time.time() - t0, 2), 'violations': len(new)}
    with open(os.path.join(ROOT, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, sort_keys=True)
        f.write('\n')
    with open(replay, 'w') as f:
        json.dump({k: [{'where': w, 'detail': d} for w, d in v] for k, v in chk.viol.items()}, f, indent=1)
        f.write('\n')
    print('%s: analysed %s' % (pid, ', '.join('%s=%s' % (k, v) for k, v in sorted(chk.cover.items()))))
    for k in sorted(chk.viol):
        if k in kn:
            print('KNOWN-FINDING: property=%s %s (%s)' % (pid, k, kn[k]))
    for k in new:
        print('violated rule: %s' % k)
        for w, d in chk.viol[k][:4]:
            print('    at %s\n       %s' % (w, d))
        if len(chk.viol[k]) > 4:
            print('    ... %d more regions, see the replay file' % (len(chk.viol[k]) - 4))
    if new:
        print('VIOLATION property=%s replay=%s' % (pid, replay))
        if err:
            print('note: analysis also incomplete: %s' % err)
        return 1
    if err:
        print('ANALYSIS ERROR property=%s: %s' % (pid, err))
        return 3
    print('%s: holds on everything analysed (%.1f s)' % (pid, time.time() - t0))
    return 0


if __name__ == '__main__':
    sys.exit(main())
