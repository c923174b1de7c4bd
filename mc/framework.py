"""
Runs the cases of a check in parallel and reports.

A check is a module mc.checks.cNN with
    ID, LEVEL ('model_checking' | 'exploration'), RULE, ASSUMPTIONS
    cases(tier) -> list of JSON-able dicts, each a closed part of the space
    run(case, R) -> explores the case completely, reports to the Recorder R
"""
import hashlib
import importlib
import json
import multiprocessing
import os
import signal
import sys
import time
import traceback

from mc import env

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MAX_VIOLATIONS_PER_CASE = 5
MAX_VIOLATIONS = int(os.environ.get('LOM_MAX_VIOLATIONS', 60))
CASE_SECONDS = {'quick': 400, 'thorough': 3000}
TOTAL_SECONDS = {'quick': 700, 'thorough': 36000}


class Stop(Exception):
    """enough violations in this case"""


class Timeout(Exception):
    pass


def jsonable(x):
    import numpy as np
    if isinstance(x, dict):
        return {str(k): jsonable(v) for k, v in x.items()}
    if isinstance(x, (list, tuple, set, frozenset)):
        return [jsonable(v) for v in x]
    if isinstance(x, np.ndarray):
        return jsonable(x.tolist())
    if isinstance(x, np.generic):
        return jsonable(x.item())
    if isinstance(x, float):
        return x if x == x and abs(x) != float('inf') else str(x)
    if isinstance(x, (int, str, bool)) or x is None:
        return x
    return repr(x)


class Recorder:
    def __init__(self, case):
        self.case = case
        self.n = {}             # counters
        self.distinct = set()
        self.violations = []
        self.samples = []
        self.notes = []

    def count(self, what, k=1):
        self.n[what] = self.n.get(what, 0) + k

    def eval(self, key=None, k=1):
        """one execution; key identifies it if it is non-trivial"""
        self.count('evaluations', k)
        if key is not None:
            self.distinct.add(hash(key))

    def sample(self, s):
        if len(self.samples) < 2:
            self.samples.append(jsonable(s))

    def note(self, text):
        self.notes.append(text)
        self.count('inconclusive')

    def violation(self, what, **detail):
        """what: short stable description, identifies known findings"""
        self.violations.append({'what': what, 'detail': jsonable(detail)})
        if len(self.violations) >= MAX_VIOLATIONS_PER_CASE:
            raise Stop()

    def check(self, ok, what, **detail):
        if not ok:
            self.violation(what, **detail)
        return ok


_MODULE = None
_TIER = 'quick'


def _alarm(sig, frame):
    raise Timeout()


def run_case(case):
    """-> dict with everything the recorder saw"""
    R = Recorder(case)
    error = None
    t0 = time.time()
    out, sys.stdout = sys.stdout, env.Null()
    err, sys.stderr = sys.stderr, env.Null()
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(CASE_SECONDS[_TIER])
    common = sys.modules.get('mc.common')
    if common:
        common.new_case()
    try:
        _MODULE.run(case, R)
    except Stop:
        pass
    except env.SeamMissing as e:
        R.note(str(e))
    except BaseException as e:
        tb = traceback.format_exc()
        if isinstance(e, KeyboardInterrupt):
            raise
        try:
            if env.in_library(e.__traceback__):
                what = ('does not terminate' if isinstance(e, Timeout) else
                        'unexpected %s in the library' % type(e).__name__)
                R.violation(what, traceback=tb[-3000:])
            elif isinstance(e, Timeout):
                R.note('time limit reached in the harness')
            else:
                error = tb
        except Stop:
            pass
    finally:
        signal.alarm(0)
        sys.stdout, sys.stderr = out, err
    return dict(case=case, n=R.n, distinct=len(R.distinct),
                violations=R.violations, samples=R.samples, notes=R.notes,
                error=error, seconds=time.time() - t0)


def known_findings(prop):
    """what -> line, from the committed file"""
    out = {}
    path = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            pre = 'finding: property=%s ' % prop
            if line.startswith(pre):
                key, _, text = line[len(pre):].partition(' | ')
                out[key.strip()] = text.strip()
    return out


def main(argv):
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'),
                    choices=['quick', 'thorough'])
    ap.add_argument('--replay')
    ap.add_argument('--jobs', type=int, default=min(8, os.cpu_count() or 1))
    ap.add_argument('--profile', action='store_true')
    ap.add_argument('--only', help='substring of the JSON of the cases to run')
    a = ap.parse_args(argv)
    global _MODULE, _TIER
    _TIER = a.tier
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '0') or 0)
    _MODULE = importlib.import_module('mc.checks.' + a.property.lower())
    prop = _MODULE.ID

    if a.replay:
        art = json.load(open(a.replay))
        res = run_case(art['case'])
        print(json.dumps({k: res[k] for k in ('violations', 'error', 'notes')},
                         indent=1))
        return 1 if res['violations'] else 0

    cases = list(_MODULE.cases(a.tier))
    if a.only:
        cases = [c for c in cases if a.only in json.dumps(c)]
    results, capped = [], False
    if a.jobs == 1:
        for c in cases:
            results.append(run_case(c))
    else:
        ctx = multiprocessing.get_context('fork')
        with ctx.Pool(a.jobs, maxtasksperchild=None) as pool:
            it = pool.imap_unordered(run_case, cases, chunksize=1)
            while len(results) < len(cases):
                left = TOTAL_SECONDS[a.tier] - (time.time() - t0)
                try:
                    results.append(it.next(timeout=max(left, .01)))
                except multiprocessing.TimeoutError:
                    capped = True
                    break
                if sum(len(r['violations']) for r in results) > MAX_VIOLATIONS:
                    capped = True
                    break
            pool.terminate()
    if a.profile:
        for r in sorted(results, key=lambda r: -r['seconds'])[:15]:
            print('%.1fs %s' % (r['seconds'], json.dumps(r['case'])[:150]))

    # totals
    tot, distinct, samples, notes = {}, 0, [], []
    for r in results:
        for k, v in r['n'].items():
            tot[k] = tot.get(k, 0) + v
        distinct += r['distinct']
        notes += r['notes']
    for r in results[:: max(1, len(results) // 5)]:
        samples += [dict(case=jsonable(r['case']), sample=s)
                    for s in r['samples'][:1]]
    errors = [r for r in results if r['error']]
    known = known_findings(prop)
    new, old = [], {}
    for r in results:
        for v in r['violations']:
            if v['what'] in known:
                old[v['what']] = known[v['what']]
            else:
                new.append((r['case'], v))

    for what in sorted(old):
        print('KNOWN-FINDING: property=%s %s: %s' % (prop, what, old[what]))
    shown = set()
    for case, v in new:
        if v['what'] in shown or len(shown) >= 10:
            continue
        shown.add(v['what'])
        art = dict(property=prop, case=jsonable(case), what=v['what'],
                   detail=v['detail'],
                   replay='./run %s --replay <this file>' % prop)
        h = hashlib.sha1(json.dumps(art, sort_keys=True).encode())
        d = os.path.join(VERIF, 'replay')
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, '%s-%s.json' % (prop, h.hexdigest()[:10]))
        json.dump(art, open(path, 'w'), indent=1)
        print('VIOLATION property=%s replay=%s' % (prop, path))
        print('  %s: %s' % (v['what'], json.dumps(v['detail'])[:700]))

    cov = dict(evaluations=tot.pop('evaluations', 0),
               distinct_nontrivial=distinct,
               rule=_MODULE.RULE,
               samples=samples[:6] or [jsonable(c) for c in cases[:3]],
               cases=len(cases), cases_completed=len(results),
               exhaustive=not capped and not notes and not a.only)
    if _MODULE.LEVEL == 'model_checking':
        for k in ('states', 'transitions', 'traces_validated_against_impl'):
            cov[k] = tot.pop(k, 0)
    cov.update(tot)
    if notes:
        cov['inconclusive_notes'] = sorted(set(notes))[:10]
    cov['bounds'] = getattr(_MODULE, 'BOUNDS', {}).get(a.tier, '')
    ev = dict(property=prop, tier=a.tier, seed=seed, level=_MODULE.LEVEL,
              coverage=cov, assumptions=list(_MODULE.ASSUMPTIONS),
              wall_s=round(time.time() - t0, 2), violations=len(new))
    if not a.only:
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
    print('%s %s: %d cases, %d evaluations, %d distinct, %s, %.1fs%s' % (
        prop, a.tier, len(results), cov['evaluations'], distinct,
        {k: v for k, v in cov.items() if k in (
            'states', 'transitions', 'traces_validated_against_impl')},
        time.time() - t0, ' CAPPED' if capped else ''))
    for n in sorted(set(notes))[:5]:
        print('  note: ' + n)
    if new:
        return 1
    if errors:
        print('ERROR in the harness (%d cases)\n%s' % (
            len(errors), errors[0]['error']))
        return 2
    return 0
