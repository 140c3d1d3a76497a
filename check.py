#!/usr/bin/env python3-vt
"""Decide one property:  check.py <property id> [quick|thorough]

1. Every contract tagged with the property, every contract those proofs rely on, and every
   lemma is verified against /repo's current source (obligations generated by pyvc, discharged
   by z3 / cvc5).
2. Every contract is also evaluated on the real code under CPython: as a cross-check of the
   verifier's model of Python for proved contracts, as counterexample search for failed
   obligations, and as the bounded stand-in for functions out of the verifier's reach.
"""
import ast
import fnmatch
import glob
import hashlib
import importlib
import json
import os
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.setrecursionlimit(12000)
REPO = os.environ.get('VERIF_REPO', '/repo')
MODS = ['causetevent', 'causet', 'embeddedcauset', 'sprinkledcauset', 'shapes', 'spacetimes',
        'calculations', 'colorschemes', 'causetplotting']
SPECS = sorted(os.path.basename(f)[:-3] for f in glob.glob(HERE + '/specs/*.py')
               if not f.endswith('__init__.py') and not f.endswith('common.py'))
VENV = '/opt/venv/bin/python'

TRUSTED = [
    'the verification condition generator pyvc (symbolic executor for the Python subset) and its '
    'models of the Python built-ins, sets, lists, dicts, math and numpy calls that occur',
    'z3 and cvc5',
    'CPython semantics as modelled: no attribute is patched at run time, no aliasing through '
    'subclasses outside the repository, integers unbounded',
    'floats are treated as mathematical reals (rounding is not verified)',
    'all event sets are finite; cardinality and finite-order axioms',
    'partial correctness: termination is not proved (the run-time evaluations do terminate)']


def concrete(quals, secs, cases, seed, specs, procs=8):
    """Run-time evaluation of the contracts on the real code, in parallel."""
    if not quals:
        return {}
    env = dict(os.environ, MPLBACKEND='Agg', PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0')
    if os.path.isdir('/opt/venv/mplconfig'):
        env['MPLCONFIGDIR'] = '/opt/venv/mplconfig'
    tmp = None
    if REPO != '/repo':
        tmp = tempfile.TemporaryDirectory()
        os.symlink(REPO, tmp.name + '/causets')
        env['PYTHONPATH'] = tmp.name
    work = list(quals)
    out = {}
    live = []
    limit = {}
    while work or live:
        while work and len(live) < procs:
            n = max(1, min(12, len(work) // procs))
            chunk, work = work[:n], work[n:]
            p = subprocess.Popen([VENV, HERE + '/concrete/run.py', 'search', ','.join(specs),
                                  str(secs), str(cases), str(seed)] + chunk, env=env,
                                 stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True,
                                 cwd=HERE)
            live.append((p, chunk, time.time()))
        p, chunk, t = live.pop(0)
        try:
            so, se = p.communicate(timeout=max(5, 60 + (secs * 3 + 10) * len(chunk)
                                               - (time.time() - t)))
        except subprocess.TimeoutExpired:
            p.kill()
            so, se = p.communicate()
            se += ' (timeout)'
        for line in so.splitlines():
            try:
                d = json.loads(line)
                out[d['qual']] = d
            except ValueError:
                pass
        for q in chunk:
            if q not in out:
                out[q] = dict(qual=q, cases=0, failure=None, error='no result: ' + se[-800:])
    if tmp:
        tmp.cleanup()
    return out


class Strip(ast.NodeTransformer):
    """Remove docstrings, annotations and statements without effect."""

    def body(self, b):
        out = []
        for s in b:
            if isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant):
                continue
            if isinstance(s, ast.Pass):
                continue
            out.append(s)
        return out or [ast.Pass()]

    def generic_visit(self, node):
        super().generic_visit(node)
        for f in ('body', 'orelse', 'finalbody'):
            if isinstance(getattr(node, f, None), list) and getattr(node, f):
                setattr(node, f, self.body(getattr(node, f)))
        return node


def src_hash(prog, quals):
    from pyvc.verify import find_function
    h = hashlib.sha1()
    for q in sorted(set(quals)):
        try:
            fn = find_function(prog, q)
        except Exception:
            fn = None
        if fn is None:
            continue
        node = ast.parse(ast.unparse(fn[2]))
        h.update((q + ast.dump(Strip().visit(node))).encode())
    return h.hexdigest()


def main():
    from pyvc import par
    from pyvc.contract import REGISTRY, LEMMAS
    from pyvc.engine import Program
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1'))
    deep = tier == 'thorough'
    t0 = time.time()
    for m in SPECS:
        importlib.import_module('specs.' + m)
    prog = Program(REPO, MODS)
    claims = {}
    exec(open(HERE + '/tools/claims.py').read(), claims)
    base = {}
    if os.path.exists(HERE + '/specs/baseline.json'):
        base = json.load(open(HERE + '/specs/baseline.json'))
    own = [q for q, c in REGISTRY.items() if pid in c.props]
    lemmas = ['lemma ' + l.name for l in LEMMAS if pid in l.props]
    if not own:
        print('no contracts for', pid)
        return 2

    # ---- 1. proofs
    results = {}
    todo = set(own)
    for q in list(todo):
        todo |= set(base.get(q, {}).get('closure', []))
    todo |= set(lemmas)
    cost = lambda q: -base.get(q, {}).get('wall', 20)
    budget = 600 if deep else 240
    ms = 30000 if deep else 10000
    while todo:
        batch = sorted((q for q in todo if q.startswith('lemma ') or
                        REGISTRY[q].symbolic and not REGISTRY[q].bounded), key=cost)
        for q in todo - set(batch):
            results[q] = None
        results.update(par.run(REPO, MODS, SPECS, batch, budget=budget, timeout_ms=ms))
        todo = {u for r in results.values() if r for u in r['used']} - set(results)
    results = {q: r for q, r in results.items()}
    # dependencies actually used
    need, st = set(), list(own)
    while st:
        q = st.pop()
        if q in need:
            continue
        need.add(q)
        r = results.get(q)
        if r:
            st += list(r['used'])
    results = {q: r for q, r in results.items() if q in need or q in lemmas}

    def status(q, r):
        if r is None:
            return 'bounded'
        if r['error']:
            return 'undecided'
        if not r['res'] or r['vacuous']:
            return 'vacuous'
        if all(x['status'] == 'unsat' for x in r['res']):
            return 'proved'
        return 'failed'

    stat = {q: status(q, r) for q, r in results.items()}
    # a resource-out on text that was proved before: once more, alone, with more time
    again = [q for q in stat if stat[q] != 'proved' and results[q] is not None and
             base.get(q, {}).get('status') == 'proved' and
             base[q].get('hash') == src_hash(prog, [q] + list(base[q].get('inlined', [])))]
    if again and time.time() - t0 < 300:
        r2 = par.run(REPO, MODS, SPECS, again, budget=300, timeout_ms=40000, workers=4)
        for q, r in r2.items():
            if status(q, r) == 'proved':
                results[q], stat[q] = r, 'proved'

    # ---- 2. run-time evaluation on the real code
    fn_quals = [q for q in results if not q.startswith('lemma ')]
    proved = [q for q in fn_quals if stat[q] == 'proved']
    rest = [q for q in fn_quals if stat[q] != 'proved']
    conc = concrete(proved, 6 if deep else 1.5, 1500 if deep else 120, seed, SPECS)
    conc.update(concrete(rest, 200 if deep else 50, 100000 if deep else 20000, seed, SPECS))

    # ---- 3. verdict
    known = []
    if os.path.exists(HERE + '/known_findings.json'):
        known = json.load(open(HERE + '/known_findings.json'))['findings']
    violations, notes = [], []

    def report(q, kind, info):
        for k in known:
            if k.get('property') == pid and k.get('function') == q and info.get('input') and \
                    all(any(fnmatch.fnmatch(f, p) for p in k['failed'])
                        for f in info['input']['failed']) and \
                    fnmatch.fnmatch(info['input'].get('scenario', ''), k.get('scenario', '*')):
                print('KNOWN-FINDING: property=%s %s' % (pid, k['what']))
                return
        d = HERE + '/evidence/replay'
        os.makedirs(d, exist_ok=True)
        path = '%s/%s-%d.json' % (d, pid, len(violations) + 1)
        info.update(property=pid, function=q, specs=SPECS,
                    replay_cmd='%s concrete/run.py replay %s' % (VENV, path))
        json.dump(info, open(path, 'w'), indent=1, default=str)
        tail = '' if info.get('input') else ' no-failing-input-found'
        print('VIOLATION property=%s replay=%s%s' % (pid, path, tail))
        print('   %s: %s' % (q, kind))
        violations.append(q)

    order = sorted(results, key=lambda q: (q not in own, q))
    for q in order:
        r = results[q]
        failed = [x for x in r['res'] if x['status'] != 'unsat'] if r else []
        names = [x['name'] for x in failed]
        cf = conc.get(q, {}).get('failure')
        if cf:
            report(q, 'contract broken on the real code: ' + '; '.join(cf['failed']),
                   dict(obligations=names[:20], input=cf, verifier=r['error'] if r else None))
    for q in order:
        r = results[q]
        if q in violations or conc.get(q, {}).get('failure'):
            continue
        if stat[q] == 'failed':
            failed = [x for x in r['res'] if x['status'] != 'unsat']
            same = base.get(q, {}).get('status') == 'proved' and \
                base[q].get('hash') == src_hash(prog, [q] + list(base[q].get('inlined', [])))
            if same:
                notes.append('%s: %d obligation(s) not re-discharged within the time limit on '
                             'unchanged text' % (q, len(failed)))
                continue
            if base.get(q, {}).get('status') != 'proved':
                notes.append('%s: %d obligation(s) never discharged; bounded evaluation only'
                             % (q, len(failed)))
                continue
            report(q, 'obligation failed: ' + ', '.join(x['name'] for x in failed[:4]),
                   dict(obligations=[x['name'] for x in failed],
                        verifier=[dict(name=x['name'], status=x['status'],
                                       output=str(x.get('model'))[:3000]) for x in failed[:5]]))
        elif stat[q] == 'vacuous':
            notes.append('%s: no obligation or contradictory assumptions %s' % (
                q, r['vacuous'][:3]))
        elif stat[q] == 'undecided':
            notes.append('%s: outside the verifier (%s); bounded evaluation only' % (
                q, r['error'][:200]))
        elif stat[q] == 'bounded':
            notes.append('%s: bounded stand-in (%s)' % (q, REGISTRY[q].bounded or 'no proof'))
        if q in conc and conc[q].get('error'):
            notes.append('%s: run-time evaluation impossible: %s' % (q, conc[q]['error'][:300]))

    # ---- 4. evidence
    obl = sum(len(r['res']) for r in results.values() if r)
    dis = sum(1 for r in results.values() if r for x in r['res'] if x['status'] == 'unsat')
    by = {}
    for r in results.values():
        if r:
            for x in r['res']:
                if x['status'] == 'unsat':
                    by[x['by']] = by.get(x['by'], 0) + 1
    table = []
    for q in order:
        r = results[q]
        table.append('%s%s: %s, %d/%d obligations, %d loops by rule, %.1f s; run-time %d' % (
            q, '' if q in own or q in lemmas else ' (dependency)', stat[q],
            sum(1 for x in (r['res'] if r else []) if x['status'] == 'unsat'),
            len(r['res']) if r else 0, r['loops'] if r else 0,
            (r['gen'] + r['solve']) if r else 0, conc.get(q, {}).get('cases', 0)))
    level = claims['LEVELS'].get(pid, 'proof')
    if any(stat[q] != 'proved' for q in own):
        level = 'exploration'
    samples = [s for q in sorted(rest) + sorted(proved) for s in conc.get(q, {}).get('samples', [])]
    ev = {
        'property': pid, 'tier': tier, 'seed': seed, 'level': level,
        'coverage': {
            'obligations': obl, 'discharged': dis,
            'checker_cmd': 'python3-vt check.py %s %s' % (pid, tier),
            'trusted_base': TRUSTED,
            'functions_under_contract': len(fn_quals),
            'functions_proved': len(proved),
            'functions_bounded_or_undecided': rest,
            'back_ends': by,
            'solver_seconds': round(sum(r['solve'] for r in results.values() if r), 2),
            'generation_seconds': round(sum(r['gen'] for r in results.values() if r), 2),
            'paths': sum(r['paths'] for r in results.values() if r),
            'inlined_functions': sorted({i for r in results.values() if r for i in r['inlined']}),
            'evaluations': sum(c.get('cases', 0) for c in conc.values()),
            'distinct_nontrivial': sum(c.get('distinct', 0) for c in conc.values()),
            'rule': 'one evaluation = one call of a function under contract on the real code with '
                    'generated arguments that satisfy its preconditions, on all strict orders of '
                    'up to 4 events in turn and on random ones, all contract clauses evaluated '
                    'afterwards; distinct by function, state and arguments as written out; '
                    'non-trivial: at least two events, or an argument that is not empty',
            'samples': [json.loads(json.dumps(s, default=str)) for s in samples
                        if len(json.dumps(s, default=str)) < 1500][:6],
            'functions': [t[:300] for t in table][:150],
            'notes': [n[:400] for n in notes][:60],
        },
        'assumptions': ASSUME.get(pid, []) + [
            'contract preconditions of the functions listed (see specs/*.py)',
            'a function listed as bounded is checked only on generated states with at most %d '
            'events' % 6],
        'wall_s': round(time.time() - t0, 2),
        'violations': len(violations)}
    os.makedirs(HERE + '/evidence', exist_ok=True)
    json.dump(ev, open(HERE + '/evidence/%s.json' % pid, 'w'), indent=1)
    print('%s: %d functions under contract, %d proved, obligations %d/%d, run-time evaluations %d,'
          ' %.0f s' % (pid, len(fn_quals), len(proved), dis, obl,
                       ev['coverage']['evaluations'], time.time() - t0))
    for n in notes:
        print('  note:', n[:300])
    if os.environ.get('VERIF_BASELINE'):
        for q in results:
            r = results[q]
            if r is None:
                continue
            cl, st = set(), list(r['used'])
            while st:
                u = st.pop()
                if u not in cl:
                    cl.add(u)
                    st += results[u]['used'] if results.get(u) else []
            base[q] = dict(status=stat[q], wall=round(r['gen'] + r['solve'], 1),
                           inlined=r['inlined'], closure=sorted(cl),
                           hash=src_hash(prog, [q] + r['inlined']))
        json.dump(base, open(HERE + '/specs/baseline.json', 'w'), indent=0, sort_keys=True)
    return 1 if violations else 0


ASSUME = {}

if __name__ == '__main__':
    sys.exit(main())
