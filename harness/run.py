"""Runs one check: cases in parallel, verdict, replay file, evidence file."""
import argparse
import importlib
import json
import multiprocessing
import os
import random
import resource
import signal
import sys
import time
import traceback
from collections import Counter
from concurrent.futures import ProcessPoolExecutor, FIRST_COMPLETED, wait
from concurrent.futures.process import BrokenProcessPool

from harness.core import REPO, Ctx, Stuck, Violation, case_rng, load_library

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVID = os.environ.get('VERIF_EVIDENCE') or os.path.join(HERE, 'evidence')
WORKERS = int(os.environ.get('VERIF_WORKERS', '8'))
# CPU seconds one case may use; ordinary ones use well under two.
CASE_CPU = 90


def _stuck(signum, frame):
    raise Stuck()


def run_case(mod, seed, scenario, func, index, ctx):
    """Returns None or a violation record."""
    rng = case_rng(seed, mod.PID, scenario, index)
    random.seed(rng.getrandbits(64))
    ctx.note = None
    ctx.trace = []
    signal.signal(signal.SIGVTALRM, _stuck)
    signal.setitimer(signal.ITIMER_VIRTUAL, CASE_CPU)
    try:
        func(rng, ctx)
        return None
    except Violation as e:
        what, kind = str(e), 'oracle'
    except Stuck:
        what = ('no progress: the case used over %d CPU seconds, ordinary '
                'ones use about a second' % CASE_CPU)
        kind = 'stuck'
    except (KeyboardInterrupt, SystemExit):
        raise
    except BaseException as e:
        tb = traceback.format_exc()
        inlib = REPO + '/concept_formation/' in tb
        what = ('%s raised %s: %s' % ('library code' if inlib else
                                      'a result of the library',
                                      type(e).__name__, str(e)[:300]))
        what += '\n' + '\n'.join(tb.splitlines()[-14:])
        kind = 'exception'
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
    return {'property': mod.PID, 'scenario': scenario, 'index': index,
            'seed': seed, 'hashseed': os.environ.get('PYTHONHASHSEED'),
            'tier': ctx.tier, 'kind': kind, 'what': what,
            'input': str(ctx.note)[:20000], 'trace': ctx.trace[-60:]}


def scenario_list(mod):
    """Weighted round robin over the scenarios."""
    out = []
    for name, func, weight in getattr(mod, 'SCENARIOS', []):
        out.extend([(name, func)] * weight)
    # spread repetitions so that any prefix is mixed
    r = random.Random(0)
    r.shuffle(out)
    return out


def work(pid, seed, tier, jobs):
    resource.setrlimit(resource.RLIMIT_AS, (
        5 << 29, resource.getrlimit(resource.RLIMIT_AS)[1]))
    mod = importlib.import_module('checks.' + pid.lower())
    funcs = {n: f for n, f, _ in getattr(mod, 'SCENARIOS', [])}
    funcs.update({n: f for n, f in getattr(mod, 'DIRECTED', [])})
    ctx = Ctx(tier)
    viols = []
    per = Counter()
    for scenario, index in jobs:
        before = len(ctx.sigs)
        v = run_case(mod, seed, scenario, funcs[scenario], index, ctx)
        per[scenario] += 1
        del before
        if v:
            viols.append(v)
            break
    return viols, ctx.events, ctx.sigs, ctx.samples, ctx.known, per


def read_findings(pid):
    known = {}
    path = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith('known: property=%s key=' % pid):
                rest = line.split('key=', 1)[1]
                key, _, what = rest.partition(' ')
                known[key] = what
    return known


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('pid')
    ap.add_argument('tier', nargs='?')
    ap.add_argument('--replay')
    ap.add_argument('--case')
    ap.add_argument('--seed', type=int)
    ap.add_argument('--cases', type=int)
    ap.add_argument('--only')
    a = ap.parse_args()
    pid = a.pid
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = a.seed if a.seed is not None else int(os.environ.get('VERIF_SEED',
                                                                '1'))
    load_library()
    mod = importlib.import_module('checks.' + pid.lower())
    t0 = time.time()

    if a.replay or a.case:
        if a.replay:
            r = json.load(open(a.replay))
            if str(r['hashseed']) != os.environ.get('PYTHONHASHSEED'):
                os.environ['VERIF_HASHSEED'] = str(r['hashseed'])
                os.environ['PYTHONHASHSEED'] = str(r['hashseed'])
                os.execv(sys.executable, [sys.executable, '-B', '-m',
                                          'harness.run'] + sys.argv[1:])
            seed, sc, ix, tier = (r['seed'], r['scenario'], r['index'],
                                  r['tier'])
        else:
            sc, ix = a.case.split(':')
            ix = int(ix)
        funcs = {n: f for n, f, _ in getattr(mod, 'SCENARIOS', [])}
        funcs.update({n: f for n, f in getattr(mod, 'DIRECTED', [])})
        ctx = Ctx(tier)
        v = run_case(mod, seed, sc, funcs[sc], ix, ctx)
        print(json.dumps(dict(ctx.events)))
        if v:
            print(v['what'])
            print('input:', v['input'])
            for t in v['trace']:
                print('  ', t)
            if a.replay:
                print('VIOLATION property=%s replay=%s' % (pid, a.replay))
            return 1
        print('held on this case')
        return 0

    scen = scenario_list(mod)
    if a.only:
        scen = [s for s in scen if s[0] == a.only]
    n = a.cases if a.cases is not None else mod.CASES[tier]
    jobs = [(name, 0) for name, f in getattr(mod, 'DIRECTED', [])
            if not a.only or a.only == name]
    jobs += [(scen[i % len(scen)][0], i) for i in range(n)] if scen else []
    soft = {'quick': 240, 'thorough': 3600}[tier]
    hard = {'quick': 700, 'thorough': 7200}[tier]
    nd = len(getattr(mod, 'DIRECTED', []))
    size = max(1, min(200, len(jobs) // (WORKERS * 12) or 1))
    chunks = [jobs[i:i + 1] for i in range(0, min(nd, len(jobs)))]
    chunks += [jobs[i:i + size] for i in range(nd, len(jobs), size)]

    events, sigs, samples, known, per = Counter(), set(), [], {}, Counter()
    viols = []
    required = getattr(mod, 'REQUIRED', {})

    def enough():
        return all(events[k] >= v for k, v in required.items()) or \
            events[getattr(mod, 'LACKS', None)]

    error = None
    truncated = False
    mp = multiprocessing.get_context('fork')
    ex = ProcessPoolExecutor(WORKERS, mp_context=mp)
    try:
        pending = set()
        it = iter(chunks)
        done_feeding = False
        while True:
            while not done_feeding and len(pending) < WORKERS * 2:
                el = time.time() - t0
                if (el > soft and enough()) or el > hard:
                    truncated = True
                    done_feeding = True
                    break
                try:
                    c = next(it)
                except StopIteration:
                    done_feeding = True
                    break
                pending.add(ex.submit(work, pid, seed, tier, c))
            if not pending:
                break
            done, pending = wait(pending, return_when=FIRST_COMPLETED)
            for f in done:
                vs, ev, sg, sa, kn, pe = f.result()
                events.update(ev)
                if len(sigs) < 2000000:
                    sigs |= sg
                samples.extend(sa)
                known.update(kn)
                per.update(pe)
                viols.extend(vs)
            if viols:
                for f in pending:
                    f.cancel()
                break
    except BrokenProcessPool:
        error = 'a worker process died (memory?)'
    except Exception:
        error = traceback.format_exc()
    finally:
        procs = list((ex._processes or {}).values())
        ex.shutdown(wait=False, cancel_futures=True)
        for p in procs:
            p.terminate()

    os.makedirs(EVID, exist_ok=True)
    listed = read_findings(pid)
    for key in sorted(known):
        if key not in listed:
            viols.append({'property': pid, 'scenario': key, 'index': 0,
                          'seed': seed, 'tier': tier, 'kind': 'unlisted',
                          'hashseed': os.environ.get('PYTHONHASHSEED'),
                          'what': known[key], 'input': '', 'trace': []})
    rng = random.Random(seed)
    rng.shuffle(samples)
    evidence = {
        'property': pid, 'tier': tier, 'seed': seed, 'level': 'exploration',
        'coverage': {
            'evaluations': sum(per.values()),
            'distinct_nontrivial': len(sigs),
            'rule': mod.RULE,
            'samples': samples[:4] or ['(none)'],
            'events_observed': dict(sorted(events.items())),
            'cases_per_scenario': dict(sorted(per.items())),
            'required_minimum': required,
            'truncated_by_time': truncated,
            'known_findings_seen': sorted(known),
        },
        'assumptions': getattr(mod, 'ASSUMPTIONS', []),
        'wall_s': round(time.time() - t0, 2),
        'violations': len(viols),
    }
    with open(os.path.join(EVID, pid + '.json'), 'w') as out:
        json.dump(evidence, out, indent=1, sort_keys=True)
        out.write('\n')

    for key in sorted(known):
        if key in listed:
            print('KNOWN-FINDING: property=%s %s' % (pid, listed[key]))
    print('%s %s seed=%d: %d cases, %d distinct states, %.1f s' % (
        pid, tier, seed, sum(per.values()), len(sigs), time.time() - t0))
    print('observed: ' + ', '.join('%s=%d' % kv for kv in
                                   sorted(events.items())))
    if viols:
        v = viols[0]
        path = os.path.join(EVID, '%s-replay.json' % pid)
        with open(path, 'w') as out:
            json.dump(v, out, indent=1)
        print(v['scenario'], v['index'], v['what'][:3000])
        print('VIOLATION property=%s replay=%s' % (pid, path))
        return 1
    if error:
        print('ERROR ' + error)
        return 2
    missing = {k: (events[k], v) for k, v in required.items()
               if events[k] < v}
    lacks = getattr(mod, 'LACKS', None)
    if lacks and events[lacks]:
        print('NOTE: %d cases could not be judged: %s' % (events[lacks],
                                                          lacks))
    elif missing and not a.only and a.cases is None:
        print('INCONCLUSIVE: too few events observed (seen, needed): %r'
              % missing)
        return 2
    return 0


if __name__ == '__main__':
    code = main()
    sys.stdout.flush()
    os._exit(code)
