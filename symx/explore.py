"""Parallel exhaustive path exploration of a property harness."""
import multiprocessing as mp
import os
import random
import signal
import threading
import time

from . import core, harness as hz, loader

_H = None
_OPTS = None
_CASES = None
PATIENCE = 0.2        # of the budget, for one path before all the others had their turn


def _init(h, opts, cases):
    global _H, _OPTS, _CASES
    _H, _OPTS, _CASES = h, opts, cases
    loader.start_monitoring()
    if os.environ.get("SYMX_DUMP"):
        import faulthandler
        faulthandler.dump_traceback_later(int(os.environ["SYMX_DUMP"]), exit=False)
    import sys
    sys.setrecursionlimit(5000)


def _work(task):
    """explore depth-first from a prefix for a slice of time"""
    ci, prefix, slice_s, deadline, nval, seq, patience = task
    out = dict(case=ci, paths=0, stats={}, violations=[], unrepro=[], notes=[], status={}, reached=0, validated=[],
               left=[], slow=[], samples=[], seq=seq, reached_paths=0)
    stack = [prefix]
    _OPTS['fallbacks_done'] = 0
    t0 = time.time()
    rng = random.Random(_OPTS['seed'] * 1000003 + ci * 7919 + seq)
    while stack:
        if time.time() > deadline:
            break
        if out['paths'] and time.time() - t0 > slice_s:
            break
        p = stack.pop()
        doval = len(out['validated']) < nval
        r = hz.run_path(_H, _CASES[ci], p, _OPTS, doval, rng, min(deadline, time.time() + patience))
        out['paths'] += 1
        if r['status'] == 'timeout':
            # left for later, with all the time that remains
            out['violations'] += r['violations']
            out['slow'].append(p)
            break
        for k, v in r['stats'].items():
            out['stats'][k] = out['stats'].get(k, 0) + v
        out['status'][r['status']] = out['status'].get(r['status'], 0) + 1
        out['violations'] += r['violations']
        out['unrepro'] += r['unrepro']
        out['notes'] += r['notes']
        out['reached'] += r['reached']
        out['reached_paths'] += 1 if r['reached'] else 0
        if r['validated'] is not None:
            out['validated'].append(r['validated'])
        stack += r['pending']
        if out['violations']:
            break
    out['left'] = stack
    out['executed'] = {k: sorted(v) for k, v in loader.EXECUTED.items()}
    return out


def explore(h, tier, opts):
    cases = list(h.cases(tier))
    budget = opts['budget']
    t0 = time.time()
    deadline = t0 + budget
    tot = dict(cases=len(cases), paths=0, stats={}, violations=[], unrepro=[], notes={}, status={}, reached=0,
               validated=0, mismatches=[], samples=[], executed={}, reached_paths=0)
    percase = [dict(paths=0, reached=0, done=False, open=0) for _ in cases]
    queue = [(i, (), PATIENCE * budget) for i in range(len(cases))]
    slow = []
    queue.reverse()
    inflight = 0
    percase_open = [1] * len(cases)
    seq = 0
    nw = opts.get('workers', min(8, os.cpu_count() or 1))
    ctx = mp.get_context('fork')
    pool = ctx.Pool(nw, initializer=_init, initargs=(h, opts, cases), maxtasksperchild=40)
    results = []
    try:
        while True:
            while (queue or slow) and inflight < nw * 2 and not tot['violations'] and time.time() < deadline:
                # every case gets its turn before what is left of any
                ci, p, patience = queue.pop() if queue else slow.pop(0)
                seq += 1
                sl = 0.6 if len(queue) + inflight < nw * 2 else 4.0
                nval = 2 if percase[ci]['paths'] == 0 else (1 if seq % 4 == 0 else 0)
                results.append((pool.apply_async(_work, ((ci, p, sl, deadline, nval, seq, patience),)), time.time(), ci))
                inflight += 1
            if not results:
                break
            progress = False
            for item in list(results):
                r, ts, ci = item
                if r.ready():
                    progress = True
                    results.remove(item)
                    inflight -= 1
                    try:
                        o = r.get()
                    except Exception as ex:      # noqa: BLE001
                        tot['notes']['worker: ' + repr(ex)[:120]] = 1
                        percase[ci]['lost'] = True
                        continue
                    merge(tot, percase, o, cases)
                    percase_open[ci] += len(o['left']) + len(o['slow']) - 1
                    queue[:0] = [(ci, p, PATIENCE * budget) for p in o['left']]
                    slow += [(ci, p, budget) for p in o['slow']]
                elif time.time() > max(ts, t0) + budget + 45 or time.time() > deadline + 45:
                    results.remove(item)
                    inflight -= 1
                    percase[ci]['lost'] = True
            if tot['violations']:
                break
            if not progress:
                time.sleep(0.01)
    finally:
        stop(pool)
    tot['complete_cases'] = sum(1 for i in range(len(cases)) if percase_open[i] == 0 and not percase[i].get('lost'))
    tot['percase'] = percase
    tot['open_prefixes'] = len(queue) + len(slow)
    tot['vacuous_cases'] = [i for i in range(len(cases)) if percase_open[i] == 0 and not percase[i]['reached']]
    tot['wall'] = time.time() - t0
    tot['case_list'] = cases
    return tot


def stop(pool):
    """end the workers; Pool.terminate can wait for ever for a lock that an ended worker held"""
    t = threading.Thread(target=pool.terminate, daemon=True)
    t.start()
    t.join(5)
    for p in list(getattr(pool, '_pool', None) or []):
        try:
            os.kill(p.pid, signal.SIGKILL)
        except (OSError, TypeError):
            pass
    t.join(2)


def merge(tot, percase, o, cases):
    ci = o['case']
    tot['paths'] += o['paths']
    percase[ci]['paths'] += o['paths']
    percase[ci]['reached'] += o['reached']
    for k, v in o['stats'].items():
        tot['stats'][k] = tot['stats'].get(k, 0) + v
    for k, v in o['status'].items():
        tot['status'][k] = tot['status'].get(k, 0) + v
    tot['violations'] += o['violations']
    tot['unrepro'] += o['unrepro']
    for n in o['notes']:
        tot['notes'][n] = tot['notes'].get(n, 0) + 1
    tot['reached'] += o['reached']
    tot['reached_paths'] += o['reached_paths']
    for ok, info in o['validated']:
        if ok:
            tot['validated'] += 1
            if len(tot['samples']) < 3:
                tot['samples'].append(dict(case=cases[ci], inputs={k: info[k] for k in list(info)[:40]}))
        elif ok is False:
            tot['mismatches'].append(dict(case=cases[ci], **info))
        else:
            k = 'not validated: ' + str(info)[:80]
            tot['notes'][k] = tot['notes'].get(k, 0) + 1
    for f, names in o['executed'].items():
        tot['executed'].setdefault(f, set()).update(names)
