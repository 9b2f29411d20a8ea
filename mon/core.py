"""Runner: executes the cases of one check in worker processes, judges, writes evidence."""
import argparse
import contextlib
import hashlib
import importlib
import io
import json
import os
import signal
import sys
import time
import traceback
from collections import Counter
from concurrent.futures import ProcessPoolExecutor, wait, FIRST_COMPLETED
from concurrent.futures.process import BrokenProcessPool
import multiprocessing as mp

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN_FILE = os.path.join(VERIF, 'KNOWN_FINDINGS.txt')


class Inconclusive(Exception):
    """the oracle cannot decide this case"""


class CaseTimeout(BaseException):
    pass


class Obs:
    """what the monitors of one case saw"""

    def __init__(self):
        self.alarms = []        # (key, text)
        self.count = Counter()  # monitored events
        self.sigs = []          # signatures of distinct observed situations
        self.sample = None
        self.nontrivial = True
        self.out = None         # for judging all cases together

    def alarm(self, key, text):
        self.alarms.append((key, str(text)[:2000]))

    def check(self, cond, key, text):
        self.count['assertions'] += 1
        if not cond:
            self.alarm(key, text() if callable(text) else text)
        return cond

    def see(self, name, n=1):
        self.count[name] += int(n)

    def sig(self, s):
        self.sigs.append(repr(s))


def _handler(signum, frame):
    raise CaseTimeout()


def repo_frame(tb):
    from .env import REPO
    fr = [f for f in traceback.extract_tb(tb) if os.path.realpath(f.filename).startswith(REPO + os.sep)]
    return fr[-1] if fr else None


_mod = None


def load(pid):
    global _mod
    if _mod is None or _mod.ID != pid:
        if VERIF not in sys.path:
            sys.path.insert(0, VERIF)
        _mod = importlib.import_module('checks.' + pid.lower())
    return _mod


def quiet():
    """worker processes: warnings of the NLP solver go nowhere"""
    fd = os.open(os.devnull, os.O_WRONLY)
    os.dup2(fd, 2)
    os.close(fd)


def run_case(pid, case, limit):
    """-> plain dict"""
    mod = load(pid)
    obs = Obs()
    verdict = 'ok'
    why = ''
    signal.signal(signal.SIGALRM, _handler)
    signal.setitimer(signal.ITIMER_REAL, limit)
    out = io.StringIO()
    t0 = time.time()
    try:
        with contextlib.redirect_stdout(out):
            mod.run(case, obs)
    except Inconclusive as e:
        verdict, why = 'inconclusive', str(e)
    except CaseTimeout:
        verdict, why = 'inconclusive', f'case took longer than {limit} s'
    except MemoryError:
        verdict, why = 'inconclusive', 'out of memory'
    except Exception as e:  # noqa: BLE001
        fr = repo_frame(e.__traceback__)
        txt = ''.join(traceback.format_exception(e))[-1500:]
        if fr is not None:
            obs.alarm('exception', f'valid use raises {type(e).__name__}: {str(e)[:300]} at '
                      f'{os.path.basename(fr.filename)}:{fr.name}\n{txt}')
        else:
            verdict, why = 'inconclusive', 'monitor failed: ' + txt
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
    if obs.alarms:
        verdict = 'alarm'
    return dict(case=case, verdict=verdict, why=why, out=obs.out, alarms=obs.alarms, count=dict(obs.count), sigs=obs.sigs,
                sample=obs.sample, nontrivial=obs.nontrivial, t=time.time() - t0)


def known_entries(pid):
    """lines 'known: property=<id> case=<name> key=<key> -- <what fails>'"""
    out = []
    if os.path.exists(KNOWN_FILE):
        for line in open(KNOWN_FILE):
            line = line.strip()
            if line.startswith('known:') and f'property={pid} ' in line:
                head, what = line.split(' -- ', 1)
                kv = dict(a.split('=', 1) for a in head.split()[1:])
                out.append(dict(case=kv['case'], key=kv['key'], what=what))
    return out


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument('pid')
    ap.add_argument('--replay')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1') or 1))
    ap.add_argument('--only', help='run the cases whose JSON contains this text')
    ap.add_argument('-j', type=int, default=int(os.environ.get('VERIF_JOBS', '0')) or min(8, os.cpu_count() or 1))
    a = ap.parse_args(argv)
    tier = a.tier if a.tier in ('quick', 'thorough') else 'quick'
    pid = a.pid
    t0 = time.time()
    try:
        mod = load(pid)
    except SystemExit:
        raise
    except Exception as e:  # the code under test cannot even be imported
        fr = repo_frame(e.__traceback__) if 'mon.env' in sys.modules else None
        traceback.print_exc()
        print(f'{pid}: cannot load the check ({fr})')
        return 2
    limit = getattr(mod, 'LIMIT', {}).get(tier, 120 if tier == 'quick' else 600)
    budget = getattr(mod, 'BUDGET', {}).get(tier, 420 if tier == 'quick' else 3000)

    if a.replay:
        rec = json.load(open(a.replay))
        if rec['case'].get('kind') == 'all':       # a judgement of all cases together
            return main([pid, '--tier', rec['case']['tier'], '--seed', str(rec['case']['seed'])])
        r = run_case(pid, rec['case'], max(limit, 600))
        print(json.dumps({k: r[k] for k in ('verdict', 'why', 'alarms', 'count')}, indent=1, default=str))
        if r['verdict'] == 'alarm':
            print(f'VIOLATION property={pid} replay={a.replay}')
            return 1
        return 0 if r['verdict'] == 'ok' else 2

    cases = list(mod.cases(tier, a.seed))
    if a.only:
        cases = [c for c in cases if a.only in json.dumps(c)]
    known = known_entries(pid)
    named = getattr(mod, 'KNOWN', {})
    for k in known:
        cases.append(dict(named[k['case']], known=k['case']))

    results, not_run = [], 0
    ctx = mp.get_context('fork')
    stop = False
    with ProcessPoolExecutor(a.j, mp_context=ctx, initializer=quiet) as ex:
        todo = list(enumerate(cases))
        pend = {}
        try:
            while todo or pend:
                while todo and len(pend) < a.j * 2 and not stop:
                    n, c = todo.pop(0)
                    pend[ex.submit(run_case, pid, c, limit)] = n
                if not pend:
                    break
                done, _ = wait(list(pend), timeout=5, return_when=FIRST_COMPLETED)
                for f in done:
                    n = pend.pop(f)
                    r = f.result()
                    r['n'] = n
                    results.append(r)
                if time.time() - t0 > budget:
                    stop = True
                    not_run, todo = not_run + len(todo), []
        except BrokenProcessPool:
            print(f'{pid}: a worker process died')
            results.append(dict(case=None, verdict='inconclusive', why='worker died', alarms=[], count={}, sigs=[],
                                sample=None, nontrivial=False, n=10**9, t=0))
    results.sort(key=lambda r: r['n'])

    count = Counter()
    sigs = set()
    samples = []
    new_alarms = []
    seen_known = set()
    nontrivial = 0
    inconcl = []
    for r in results:
        for k, v in r['count'].items():
            count[k] += v
        if r['verdict'] == 'inconclusive':
            inconcl.append(r)
            continue
        if r['nontrivial']:
            new = [s for s in r['sigs'] if s not in sigs]
            sigs.update(new)
            nontrivial += bool(new)
        if r['sample'] is not None and len(samples) < 3:
            samples.append(r['sample'])
        name = (r['case'] or {}).get('known')
        for key, text in r['alarms']:
            if name and any(k['case'] == name and k['key'] == key for k in known):
                seen_known.add((name, key))
            else:
                new_alarms.append((r, key, text))
    if hasattr(mod, 'final') and not a.only:
        for key, text in mod.final(results):
            new_alarms.append((dict(case=dict(kind='all', tier=tier, seed=a.seed)), key, text))
    for k in known:
        if (k['case'], k['key']) in seen_known:
            print(f'KNOWN-FINDING: property={pid} {k["what"]}')
        else:
            print(f'{pid}: the known finding {k["case"]} did not show on this tree')

    if not samples:
        samples = [r['case'] for r in results[:2]]
    wall = time.time() - t0
    cov = dict(evaluations=len(results), distinct_nontrivial=len(sigs), rule=mod.RULE, samples=samples,
               cases_adding_new_situations=nontrivial, observed=dict(sorted(count.items())),
               inconclusive=len(inconcl), not_run=not_run)
    if inconcl:
        cov['inconclusive_reasons'] = [r['why'][-700:] for r in inconcl[:5]]
    ev = dict(property=pid, tier=tier, seed=a.seed, level=mod.LEVEL, coverage=cov,
              assumptions=getattr(mod, 'ASSUME', []), wall_s=round(wall, 2), violations=len(new_alarms))
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', f'{pid}.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)

    print(f'{pid} [{tier}, seed {a.seed}]: {len(results)} cases, {len(sigs)} distinct situations, '
          f'{dict(sorted(count.items()))}, inconclusive {len(inconcl)}, not run {not_run}, {wall:.1f} s')
    if new_alarms:
        d = os.path.join(VERIF, 'evidence', 'replay')
        os.makedirs(d, exist_ok=True)
        byk = {}
        for r, key, text in new_alarms:
            byk.setdefault(key, []).append((r, text))
        first = None
        for key, L in list(byk.items())[:6]:
            r, text = L[0]
            h = hashlib.sha1(json.dumps([r['case'], key], sort_keys=True, default=str).encode()).hexdigest()[:10]
            path = os.path.join(d, f'{pid}-{h}.json')
            with open(path, 'w') as f:
                json.dump(dict(property=pid, key=key, text=text, case=r['case'], seed=a.seed, tier=tier), f, indent=1,
                          default=str)
            first = first or path
            print(f'--- {key} ({len(L)} cases), e.g. case {json.dumps(r["case"], default=str)[:300]}:\n{text[:900]}')
            print(f'VIOLATION property={pid} replay={path}')
        return 1
    good = len(results) - len(inconcl)
    if good == 0 or len(inconcl) > 0.25 * len(results) or len(sigs) == 0:
        for r in inconcl[:3]:
            print('inconclusive:', json.dumps(r['case'], default=str)[:300], r['why'])
        print(f'{pid}: no verdict')
        return 2
    return 0


if __name__ == '__main__':
    sys.exit(main())
