"""Discharging obligations: cardinality axioms and the solver portfolio."""
import hashlib
import multiprocessing as mp
import os
import re
import subprocess
import time
import z3

_counter = [0]


def _q(sort, base='y'):
    _counter[0] += 1
    return z3.Const('%s!!%d' % (base, _counter[0]), sort)


def _all(vs, b):
    vs = list(vs)
    return z3.ForAll(vs, b) if vs else b


def _B(t):
    if isinstance(t, bool):
        return z3.BoolVal(t)
    return t


def _fresh_vars(vs):
    return [_q(v.sort(), 'p') for v in vs]


def card_axioms(entries, light=False):
    """Axioms about finite cardinalities for the terms in the trace.
    An entry ('card', vars, c, mem, sort) says: for all vars, c = #{x | mem(x)};
    all these sets are finite (they are sets of the program)."""
    out = []
    cards, seen = [], set()
    for e in entries:
        if e[0] == 'card':
            # one entry per cardinality: the same function of the same arguments
            if not str(e[2].decl()).startswith('cardof#') or not all(z3.is_const(a) for a in e[2].children()):
                cards.append(e)
                continue
            order = [v for v in e[2].children() if any(v.eq(w) for w in e[1])]
            order += [w for w in e[1] if not any(w.eq(v) for v in order)]
            ren = [z3.Const('cv%d' % i, v.sort()) for i, v in enumerate(order)]
            key = z3.substitute(e[2], *zip(order, ren)).sexpr() if order else e[2].sexpr()
            if key in seen:
                continue
            seen.add(key)
            cards.append(e)
    sums = [e for e in entries if e[0] == 'sum']
    inst = []
    for e in cards:
        _, vs, c, mem, sort = e
        x = _q(sort)
        M = _B(mem(x))
        inst.append((vs, c, mem, sort))
        out.append(_all(vs, c >= 0))
        out.append(_all(vs, (c == 0) == z3.ForAll([x], z3.Not(M))))
        y = _q(sort)
        out.append(_all(vs, z3.Implies(c == 1, z3.ForAll([x, y], z3.Implies(
            z3.And(M, _B(mem(y))), x == y)))))
        out.append(_all(vs, z3.Implies(z3.Exists([x], z3.And(M, z3.ForAll([y], z3.Implies(
            _B(mem(y)), y == x)))), c == 1)))
    for i in range(len(inst)):
        for j in range(i + 1, len(inst)):
            a, b = inst[i], inst[j]
            if not a[3].eq(b[3]):
                continue
            va, vb = list(a[0]), list(b[0])
            ca, cb, ma, mb = a[1], b[1], a[2], b[2]
            if va and vb:
                fb = _fresh_vars(vb)
                sub = list(zip(vb, fb))
                cb = z3.substitute(cb, *sub)
                mb = (lambda mb, sub: lambda x: z3.substitute(_B(mb(x)), *sub))(mb, sub)
                vb = fb
            vs = va + vb
            x, y, u, w = (_q(a[3]) for _ in range(4))
            ab = z3.ForAll([x], z3.Implies(_B(ma(x)), _B(mb(x))))
            ba = z3.ForAll([y], z3.Implies(_B(mb(y)), _B(ma(y))))
            out.append(_all(vs, z3.Implies(ab, ca <= cb)))
            out.append(_all(vs, z3.Implies(ba, cb <= ca)))
            out.append(_all(vs, z3.Implies(z3.And(ab, ca == cb), ba)))
            out.append(_all(vs, z3.Implies(z3.And(ba, ca == cb), ab)))
    if not light:
        out.extend(venn(inst))
    for e in sums:
        _, vs, c, mem, f, sort = e
        x = _q(sort)
        M = _B(mem(x))
        zero = z3.RealVal(0) if z3.is_real(c) else z3.IntVal(0)
        out.append(_all(vs, z3.Implies(z3.ForAll([x], z3.Not(M)), c == zero)))
        out.append(_all(vs, z3.Implies(z3.ForAll([x], z3.Implies(M, f(x) >= 0)), c >= 0)))
    ranges = {}
    for k, e in enumerate(sums):
        _, vs, c, mem, f, sort = e
        if vs or sort != z3.IntSort():
            continue
        x = _q(sort)
        from .loops import index_range
        r = index_range(x, z3.simplify(_B(mem(x)), arith_ineq_lhs=False))
        r = r or index_range(x, _B(mem(x)))
        if r is None or r[0] is None or r[1] is None:
            continue
        lo, hi = r
        n = z3.simplify(hi - lo, som=True)
        g = z3.simplify(f(lo + x), som=True)
        ranges[k] = (n, g, x)
        out.append(z3.Implies(n == 1, c == z3.substitute(g, (x, z3.IntVal(0)))))
        out.append(z3.Implies(n == 2, c == z3.substitute(g, (x, z3.IntVal(0))) +
                              z3.substitute(g, (x, z3.IntVal(1)))))
    for i in range(len(sums)):
        for j in range(i + 1, len(sums)):
            a, b = sums[i], sums[j]
            if not a[5].eq(b[5]) or a[1] or b[1]:
                continue
            if i in ranges and j in ranges:
                (n1, g1, x1), (n2, g2, x2) = ranges[i], ranges[j]
                g2 = z3.substitute(g2, (x2, x1))
                if g1.eq(g2):
                    out.append(z3.Implies(n1 == n2, a[2] == b[2]))
                else:
                    out.append(z3.Implies(z3.And(n1 == n2, z3.ForAll([x1], z3.Implies(
                        z3.And(0 <= x1, x1 < n1), g1 == g2))), a[2] == b[2]))
                continue
            x = _q(a[5])
            out.append(z3.Implies(z3.ForAll([x], z3.And(
                _B(a[3](x)) == _B(b[3](x)),
                z3.Implies(_B(a[3](x)), a[4](x) == b[4](x)))), a[2] == b[2]))
    return out


def single_points(t, x, acc):
    """Ground terms w with an equation x == w in t."""
    seen = set()
    st = [t]
    while st:
        u = st.pop()
        if u.get_id() in seen or not z3.is_app(u):
            continue
        seen.add(u.get_id())
        if z3.is_eq(u):
            for a, b in ((u.arg(0), u.arg(1)), (u.arg(1), u.arg(0))):
                if a.eq(x) and not b.eq(x) and z3.is_app(b) and b.num_args() == 0:
                    if not any(b.eq(w) for w in acc):
                        acc.append(b)
        st.extend(u.children())


def venn(inst, limit=6):
    """Venn decomposition of the ground cardinalities (with the single events
    that occur in them): c_i is the sum of the sizes of the regions inside."""
    out = []
    sorts = {}
    for vs, c, mem, sort in inst:
        if not vs:
            sorts.setdefault(sort.name(), (sort, []))[1].append((c, mem))
    for sort, sets in sorts.values():
        if len(sets) < 2:
            continue
        x = _q(sort, 'v')
        pts = []
        for c, mem in sets:
            single_points(_B(mem(x)), x, pts)
        sets = [(c, _B(mem(x))) for c, mem in sets]
        uniq = []
        for c, m in sets:
            for c2, m2 in uniq:
                if m2.eq(m):
                    out.append(c == c2)
                    break
            else:
                uniq.append((c, m))
        sets = uniq
        sets = sets + [(z3.IntVal(1), x == w) for w in pts[:2]]
        n = len(sets)
        if n > limit or n < 2:
            continue
        atoms = [(z3.BoolVal(True), ())]
        for c, m in sets:
            nxt = []
            for f, sg in atoms:
                for b in (True, False):
                    g = z3.And(f, m if b else z3.Not(m))
                    nxt.append((g, sg + (b,)))
            # drop regions that are empty by propositional reasoning
            atoms = []
            for g, sg in nxt:
                so = z3.Solver()
                so.set('timeout', 40)
                so.add(g)
                if so.check() != z3.unsat:
                    atoms.append((g, sg))
        regs = []
        for g, sg in atoms:
            if not any(sg):
                continue
            _counter[0] += 1
            a = z3.Const('region!!%d' % _counter[0], z3.IntSort())
            out.append(a >= 0)
            out.append(z3.Implies(z3.ForAll([x], z3.Not(g)), a == 0))
            out.append(z3.Implies(z3.Exists([x], g), a >= 1))
            regs.append((a, sg))
        for k, (c, m) in enumerate(sets):
            terms = [a for a, sg in regs if sg[k]]
            out.append(c == z3.Sum(terms) if terms else c == 0)
    return out


# ------------------------------------------------------------- in process
_cache = {}


def canon(text):
    """Renumber generated names so that equal problems get equal keys."""
    m = {}

    def rep(g):
        k = g.group(0)
        if k not in m:
            m[k] = '~n%d' % len(m)
        return m[k]
    return re.sub(r'(~\d+|!+\d+)', rep, text)


def prune_hyps(hyps, goal):
    return hyps


def to_smt2(hyps, axioms, goal):
    s = z3.Solver()
    for h in hyps:
        s.add(h)
    for a in axioms:
        s.add(a)
    s.add(z3.Not(goal))
    return s.to_smt2()


CONFIGS = [
    dict(),
    {'smt.mbqi': False, 'smt.relevancy': 2},
    {'smt.qi.eager_threshold': 100.0},
]


def seeded(n):
    return {'smt.mbqi': False, 'smt.random_seed': n}


def run_z3(text, conf, ms):
    # a context of its own: the answer does not depend on what was solved before
    s = z3.Solver(ctx=z3.Context())
    s.set('timeout', max(20, int(ms)))
    for k, v in conf.items():
        s.set(k, v)
    try:
        s.from_string(text)
        r = s.check()
    except z3.Z3Exception as ex:
        return 'error', str(ex)[:200]
    if r == z3.unsat:
        return 'unsat', None
    if r == z3.sat:
        try:
            return 'sat', str(s.model())[:4000]
        except z3.Z3Exception:
            return 'sat', None
    return 'unknown', s.reason_unknown()


def run_cvc5(text, ms):
    try:
        p = subprocess.run(['cvc5', '--lang=smt2', '--tlimit=%d' % max(50, int(ms)),
                            '--full-saturate-quant', '-q'],
                           input='(set-logic ALL)\n' + text, capture_output=True, text=True,
                           timeout=ms / 1000 + 5)
        out = p.stdout.strip().splitlines()
        return out[0] if out and out[0] in ('sat', 'unsat', 'unknown') else 'unknown'
    except Exception:
        return 'unknown'


def portfolio(hyps, ax, goal, ms, text=None):
    """(status, solver, model)"""
    if text is None:
        text = to_smt2(hyps, ax, goal)
    model = None
    # quantifier instantiation is a matter of luck: short runs with several seeds first
    for conf, frac in ((seeded(0), 0.05), (CONFIGS[0], 0.15), (seeded(1), 0.04),
                       (seeded(2), 0.04), (seeded(3), 0.04), ('cvc5', 0.3), (seeded(4), 0.08),
                       (seeded(5), 0.08), (CONFIGS[0], 0.5), (seeded(6), 0.2), ('cvc5', 0.8)):
        if conf == 'cvc5':
            if run_cvc5(text, ms * frac) == 'unsat':
                return 'unsat', 'cvc5', None
            continue
        r, m = run_z3(text, conf, ms * frac)
        if r == 'unsat':
            return 'unsat', 'z3', None
        if r == 'sat':
            return 'sat', 'z3', m
        model = m
    return 'unknown', '', model


def prove_now(hyps, cards, goal, ms):
    ax = card_axioms(cards, light=True)
    key = canon(to_smt2(hyps, ax, goal))
    h = hashlib.sha1(key.encode()).hexdigest()
    if h in _cache:
        return _cache[h]
    ok = portfolio(hyps, ax, goal, ms)[0] == 'unsat'
    _cache[h] = ok
    return ok


# ------------------------------------------------------------------- pool
def _solve(job):
    idx, text, ms, bare = job
    t0 = time.time()
    if bare is not None:
        # without the axioms of cardinalities: fewer hypotheses, often enough
        for conf, frac in ((CONFIGS[1], 0.1), (CONFIGS[0], 0.1), (seeded(1), 0.05),
                           (seeded(2), 0.05)):
            if run_z3(bare, conf, ms * frac)[0] == 'unsat':
                return idx, 'unsat', 'z3', time.time() - t0, None
    st, who, model = portfolio(None, None, None, ms, text=text)
    return idx, st, who, time.time() - t0, model


def discharge(obligs, ms=10000, jobs=None, cvc5=True):
    """obligs: list of (name, hyps, cards, goal).  Returns list of dicts."""
    out = [None] * len(obligs)
    work = []
    seen = {}
    dup = {}
    for k, (name, hyps, cards, goal) in enumerate(obligs):
        if goal is None:
            out[k] = dict(name=name, status='unsat', by='trivial', time=0.0)
            continue
        text = to_smt2(hyps, card_axioms(cards), goal)
        key = canon(text)
        if key in seen:
            dup[k] = seen[key]
            continue
        seen[key] = k
        many = len(cards) > 3
        work.append((k, text, ms, to_smt2(hyps, [], goal) if many else None))
    if work:
        n = jobs or min(8, os.cpu_count() or 4)
        if len(work) == 1 or n == 1:
            results = [_solve(w) for w in work]
        else:
            ctx = mp.get_context('fork')
            with ctx.Pool(min(n, len(work))) as pool:
                results = list(pool.imap_unordered(_solve, work, chunksize=1))
        for idx, st, who, t, model in results:
            out[idx] = dict(name=obligs[idx][0], status=st, by=who, time=t, model=model)
    for k, j in dup.items():
        out[k] = dict(out[j], name=obligs[k][0], time=0.0)
    return out


def vacuous(entries, ms=1500):
    """Names of scenarios whose assumptions are contradictory."""
    out = []
    for name, hyps, cards in entries:
        s = z3.Solver()
        s.set('timeout', ms)
        for h in hyps:
            s.add(h)
        for a in card_axioms(cards, light=True):
            s.add(a)
        if s.check() == z3.unsat:
            out.append(name)
    return out
