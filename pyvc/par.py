"""Verify many contracts in parallel, one process each, with a time budget."""
import multiprocessing as mp
import os
import sys
import time
import traceback


def _work(q, root, modules, specs, qual, timeout_ms, debug):
    sys.setrecursionlimit(12000)
    try:
        import importlib
        for m in specs:
            importlib.import_module('specs.' + m)
        from .engine import Program
        from . import verify as V, solve
        from .contract import REGISTRY, LEMMAS
        prog = Program(root, modules)
        t0 = time.time()
        if qual.startswith('lemma '):
            lem = [l for l in LEMMAS if l.name == qual[6:]][0]
            obl = V.verify_lemma(prog, lem)
            rep = V.FunctionReport(qual)
            rep.obligs = obl
        else:
            rep = V.verify(prog, REGISTRY[qual], debug=debug)
        gen = time.time() - t0
        out = dict(qual=qual, error=rep.error, gen=gen, paths=rep.paths, loops=rep.loops,
                   loop_checks=rep.loop_checks, used=sorted(rep.used), inlined=sorted(rep.inlined),
                   scenarios=rep.scenarios, res=[], vacuous=[])
        t1 = time.time()
        if rep.error is None:
            out['res'] = solve.discharge(rep.obligs, ms=timeout_ms, jobs=1)
            out['vacuous'] = solve.vacuous(rep.vacuity)
        out['solve'] = time.time() - t1
        q.put(out)
    except BaseException as ex:                       # noqa
        q.put(dict(qual=qual, error='internal %s: %s' % (type(ex).__name__, ex), gen=0, solve=0,
                   paths=0, loops=0, loop_checks=0, used=[], inlined=[], scenarios=0, res=[],
                   vacuous=[], trace=traceback.format_exc()[-2000:]))


def run(root, modules, specs, quals, budget=240, timeout_ms=20000, workers=None, debug=False,
        progress=None):
    workers = workers or os.cpu_count() or 4
    ctx = mp.get_context('fork')
    todo = list(quals)
    live = {}
    results = {}
    while todo or live:
        while todo and len(live) < workers:
            ql = todo.pop(0)
            q = ctx.Queue()
            p = ctx.Process(target=_work, args=(q, root, modules, specs, ql, timeout_ms, debug))
            p.start()
            live[ql] = (p, q, time.time())
        time.sleep(0.01)
        for ql in list(live):
            p, q, t = live[ql]
            r = None
            try:
                r = q.get_nowait()
            except Exception:
                if not p.is_alive():
                    time.sleep(0.05)
                    try:
                        r = q.get_nowait()
                    except Exception:
                        r = dict(qual=ql, error='internal: process died', gen=0, solve=0, paths=0,
                                 loops=0, loop_checks=0, used=[], inlined=[], scenarios=0, res=[],
                                 vacuous=[])
                elif time.time() - t > budget:
                    r = dict(qual=ql, error='budget of %d s used up' % budget, gen=budget, solve=0,
                             paths=0, loops=0, loop_checks=0, used=[], inlined=[], scenarios=0,
                             res=[], vacuous=[])
            if r is not None:
                p.kill()
                p.join()
                del live[ql]
                r['wall'] = time.time() - t
                results[ql] = r
                if progress:
                    progress(r)
    return results
