"""Discharging of proof obligations: path condition => goal."""
import os
import time
import z3
from .core import instances, walk, const_val, has_var, REAL, INT, BOOL
from . import arr as A

SIMP, Z3, NLA, CVC5, SPLIT = 'simplifier', 'z3', 'z3-nlsat', 'cvc5', 'case-split+z3+rational'
RANK = [SIMP, Z3, SPLIT, NLA, CVC5]


class Result:
    def __init__(self, status, backend, secs, model=None, note=''):
        self.status, self.backend, self.secs, self.model, self.note = status, backend, secs, model, note


def has_quant(fs):
    return any(z3.is_quantifier(t) and not t.is_lambda() for t in walk(fs))


def _check(fs, timeout, tactic=None):
    s = z3.Tactic(tactic).solver() if tactic else z3.Solver()
    s.set('timeout', int(timeout))
    s.add(*fs)
    return s.check(), s


def conj(t):
    if z3.is_and(t):
        out = []
        for x in t.children():
            out += conj(x)
        return out
    if z3.is_not(t) and z3.is_or(t.arg(0)):
        out = []
        for x in t.arg(0).children():
            out += conj(z3.simplify(z3.Not(x)))
        return out
    if z3.is_not(t) and z3.is_implies(t.arg(0)):
        return conj(t.arg(0).arg(0)) + conj(z3.simplify(z3.Not(t.arg(0).arg(1))))
    return [t]


def skolem(f, tag=[0]):
    """strip an outermost existential of a positive formula (pc or negated goal)"""
    out = []
    for g in conj(f):
        if z3.is_not(g) and z3.is_quantifier(g.arg(0)) and g.arg(0).is_forall():
            q = g.arg(0)
            vs = []
            for i in range(q.num_vars()):
                tag[0] += 1
                vs.append(z3.Const(f'sk#{tag[0]}', q.var_sort(i)))
            out += skolem(z3.simplify(z3.Not(z3.substitute_vars(q.body(), *reversed(vs)))))
        elif z3.is_quantifier(g) and g.is_exists():
            vs = []
            for i in range(g.num_vars()):
                tag[0] += 1
                vs.append(z3.Const(f'sk#{tag[0]}', g.var_sort(i)))
            out += skolem(z3.simplify(z3.substitute_vars(g.body(), *reversed(vs))))
        else:
            out.append(g)
    return out


def ground_univ(fs, rounds=1):
    """instantiate universal facts over one integer at the ground integer terms occurring as arguments"""
    univ = []
    for f in fs:
        for g in conj(f):
            if z3.is_quantifier(g) and g.is_forall() and g.num_vars() == 1 and g.var_sort(0) == INT:
                univ.append(g)
            elif z3.is_not(g) and z3.is_quantifier(g.arg(0)) and g.arg(0).is_exists() and g.arg(0).num_vars() == 1:
                univ.append(g)
    if not univ:
        return []
    terms = {}
    for t in walk(fs):
        if z3.is_app(t) and t.num_args() and t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            for a in t.children():
                if z3.is_int(a) and not has_var(a):
                    terms[a.get_id()] = a
        elif z3.is_const(t) and z3.is_int(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            terms[t.get_id()] = t
    out = []
    for g in univ:
        for a in list(terms.values())[:60]:
            if z3.is_not(g):
                out.append(z3.Not(z3.substitute_vars(g.arg(0).body(), a)))
            else:
                out.append(z3.substitute_vars(g.body(), a))
    return out


def purify(fs):
    """replace applications of uninterpreted functions by constants (with congruence facts for equal-looking pairs)"""
    apps = {}
    for t in walk(fs):
        if z3.is_app(t) and t.num_args() and t.decl().kind() == z3.Z3_OP_UNINTERPRETED and not has_var(t):
            apps[t.get_id()] = t
    sub = []
    for i, t in enumerate(apps.values()):
        sub.append((t, z3.Const(f'pu#{i}', t.sort())))
    return sub


def pieces(g):
    """conjuncts of a goal, distributing disjunctions over conjunctions"""
    if z3.is_and(g):
        return [y for x in g.children() for y in pieces(x)]
    if z3.is_not(g) and z3.is_or(g.arg(0)):
        return [y for x in g.arg(0).children() for y in pieces(z3.simplify(z3.Not(x)))]
    if z3.is_or(g):
        xs = g.children()
        for i, x in enumerate(xs):
            ps = pieces(x) if z3.is_and(x) or (z3.is_not(x) and z3.is_or(x.arg(0))) else [x]
            if len(ps) > 1 and len(ps) == len([p for p in ps if not z3.is_true(p)]) and any(not is_atom(p) or z3.is_eq(p) for p in ps):
                if any(real_eq(p) for p in ps):
                    return [y for p in ps for y in pieces(z3.Or(*(xs[:i] + [p] + xs[i + 1:])))]
    return [g]


def real_eq(t):
    return any(z3.is_eq(u) and z3.is_real(u.arg(0)) for u in walk([t]))


def prove(c, pc, goal, timeout=8000, want_model=True):
    g = z3.simplify(goal)
    ps = pieces(g)
    if not 1 < len(ps) <= 40:
        return prove1(c, pc, g, timeout)
    t0, back = time.time(), SIMP
    for p in ps:
        r = prove1(c, pc, z3.simplify(p), timeout)
        if r.status != 'proved':
            return Result(r.status, r.backend, time.time() - t0, r.model, r.note)
        back = r.backend if RANK.index(r.backend) > RANK.index(back) else back
    return Result('proved', back, time.time() - t0)


def prove1(c, pc, g, timeout=8000):
    t0 = time.time()
    if z3.is_true(g):
        return Result('proved', SIMP, time.time() - t0)
    for p in pc:
        if p.eq(g):
            return Result('proved', SIMP, time.time() - t0)
    neg = skolem(z3.simplify(z3.Not(g)))
    fs = []
    for p in pc:
        fs += skolem(p)
    base = fs + neg
    base += empty_facts(c, fs, neg) + grid_facts(base)
    inst = instances(c, base, 3)
    extra = ground_univ(base + inst)
    if extra:
        extra = [z3.simplify(x) for x in extra]
        extra = [x for x in extra if not z3.is_true(x)][:1500]
        inst = inst + extra + instances(c, extra, 1)
    s1 = sum_rules(base + inst)
    if s1:
        s1 = s1 + instances(c, s1, 1)
    allf = base + inst + s1
    # 1. quantifier-free, quick
    qf = [f for f in allf if not has_quant([f])]
    r, s = _check(qf, min(timeout, 1500))
    if r == z3.unsat:
        return Result('proved', Z3, time.time() - t0)
    if r == z3.unknown:
        qneg = [f for f in neg if not has_quant([f])]
        if case_split([f for f in fs + inst + s1 if not has_quant([f])], qneg, 6 * timeout):
            return Result('proved', SPLIT, time.time() - t0)
        r, s = _check(qf, min(timeout, 4000))
        if r == z3.unsat:
            return Result('proved', Z3, time.time() - t0)
    noq = len(qf) == len(allf)
    sat_model = s.model() if r == z3.sat else None
    if not noq:
        r2, s2 = _check(allf, timeout)
        if r2 == z3.unsat:
            return Result('proved', Z3, time.time() - t0)
        if r2 == z3.sat:
            return Result('refuted', Z3, time.time() - t0, s2.model())
        # candidate model of the quantifier-free part: still a useful replay candidate
        if sat_model is not None:
            return Result('candidate', Z3, time.time() - t0, sat_model)
    elif sat_model is not None:
        return Result('refuted', Z3, time.time() - t0, sat_model)
    # 2. purified polynomial arithmetic
    sub = purify(qf)
    pf = [z3.substitute(f, *reversed(sub)) if sub else f for f in qf]
    pf = [f for f in pf if not any(z3.is_quantifier(t) for t in walk([f]))]
    for tac in ('qfnra-nlsat', 'qfnra', 'nlsat'):
        try:
            r, s = _check(pf, min(timeout, 6000), tac)
        except z3.Z3Exception:
            continue
        if r == z3.unsat:
            return Result('proved', NLA, time.time() - t0)
    r, s = _check(qf, timeout)
    if r == z3.unsat:
        return Result('proved', Z3, time.time() - t0)
    if r == z3.sat and noq:
        return Result('refuted', Z3, time.time() - t0, s.model())
    if cvc5_unsat(qf, timeout):
        return Result('proved', CVC5, time.time() - t0)
    return Result('unknown', '-', time.time() - t0)


# ------------------------------------------------------------------ sums
def empty_facts(c, fs, neg):
    """a sequence whose length is compared with a number on this path: it has a member only if it is not empty"""
    out = []
    for f in fs:
        lit = f.arg(0) if z3.is_not(f) else f
        if z3.is_app(lit) and lit.num_args() == 2 and any(z3.is_int_value(x) for x in lit.children()):
            for x in lit.children():
                if x.get_id() in c.empties:
                    ks = {t.get_id(): t for t in walk(neg) if z3.is_const(t) and z3.is_int(t) and '#' in t.decl().name()}
                    out += [c.empties[x.get_id()][1](k) for k in ks.values()][:6]
    return out


def int_products(t, sign=1):
    """[(coefficient, [integer constants multiplied])] of an integer sum"""
    if z3.is_add(t):
        return [m for x in t.children() for m in int_products(x, sign)]
    if z3.is_mul(t):
        co, fs = sign, []
        for x in t.children():
            if z3.is_int_value(x):
                co *= x.as_long()
            else:
                fs.append(x)
        return [(co, fs)]
    return [(sign * t.as_long(), [])] if z3.is_int_value(t) else [(sign, [t])]


def grid_facts(fs):
    """flattened two-dimensional indices: 0 <= i < n and 0 <= j < m imply i m + j < n m, for the comparisons n m <= i m + j met"""
    out, seen = [], set()
    for t in walk(fs):
        if not (z3.is_app(t) and t.num_args() == 2 and t.decl().kind() in (z3.Z3_OP_LE, z3.Z3_OP_GE, z3.Z3_OP_LT, z3.Z3_OP_GT)
                and z3.is_int(t.arg(0))):
            continue
        ps = int_products(t.arg(0)) + int_products(t.arg(1))
        quad = [q for _, q in ps if len(q) == 2 and all(z3.is_const(x) for x in q)]
        for a in quad:
            for b in quad:
                for m in a:
                    if not any(x.eq(m) for x in b):
                        continue
                    n = a[1] if a[0].eq(m) else a[0]
                    i = b[1] if b[0].eq(m) else b[0]
                    key = (n.get_id(), m.get_id(), i.get_id())
                    if n.eq(i) or key in seen or len(out) > 12:
                        continue
                    seen.add(key)
                    out += [z3.Implies(z3.And(i < n, m >= 0), i * m + m <= n * m), z3.Implies(z3.And(i >= 0, m >= 0), i * m >= 0)]
    return out


def sum_rules(fs):
    """congruence facts between sums occurring in the formulas: SUM(f,n)=SUM(g,m) if n=m and f=g on [0,n)"""
    sums = {}
    for t in walk(fs):
        if z3.is_app(t) and t.decl().name() == 'SUM' and not has_var(t.arg(1)):
            sums[t.get_id()] = t
    sums = list(sums.values())
    out = []
    n = 0
    ints = None
    for i, a in enumerate(sums):
        k = z3.Int('sumb#')
        lo, hi = bounds(z3.simplify(z3.Select(a.arg(0), k)))
        m = a.arg(1)
        if hi is not None:
            out.append(z3.Implies(m >= 0, a <= z3.RealVal(hi) * z3.ToReal(m)))
        if lo is not None:
            out.append(z3.Implies(m >= 0, a >= z3.RealVal(lo) * z3.ToReal(m)))
        if i < 12:
            body = lambda v, a=a: z3.simplify(z3.Select(a.arg(0), v))
            if ints is None:
                ints = {t.get_id(): t for t in walk(fs) if z3.is_const(t) and z3.is_int(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED}
                ints = list(ints.values())[:8]
                more = {x.get_id(): x for t in walk(fs) if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED
                        and t.decl().name() != 'SUM' for x in t.children() if z3.is_add(x) and z3.is_int(x) and not has_var(x)}
                ints += list(more.values())[:3]
            w, u = z3.Int(f'sumw#{i}'), z3.Int(f'sumu#{i}')
            if lo is not None and lo >= 0:
                out.append(z3.Or(a == 0, z3.And(w >= 0, w < m, body(w) > 0)))
                neg = z3.BoolVal(False)
            else:
                out.append(z3.Or(a <= 0, z3.And(w >= 0, w < m, body(w) > 0)))
                neg = z3.And(u >= 0, u < m, body(u) < 0)
                out.append(z3.Or(a >= 0, neg))
            for v in ints:
                out.append(z3.Or(neg, z3.Implies(z3.And(v >= 0, v < m), a >= body(v))))
    mono = len(sums) <= 4
    for i, a in enumerate(sums):
        out.append(z3.Implies(a.arg(1) <= 0, a == 0))
        for b in sums[:i]:
            n += 1
            if n > 40:
                return out
            k = z3.Int(f'sumk#{n}')
            fa = z3.simplify(z3.Select(a.arg(0), k))
            fb = z3.simplify(z3.Select(b.arg(0), k))
            out.append(z3.Or(a == b, a.arg(1) != b.arg(1), z3.And(k >= 0, k < a.arg(1), fa != fb)))
            if mono:
                j = z3.Int(f'sumj#{n}')
                rng = z3.And(j >= 0, j < a.arg(1))
                ga, gb = (z3.simplify(z3.Select(x.arg(0), j)) for x in (a, b))
                out.append(z3.Or(a <= b, a.arg(1) != b.arg(1), z3.And(rng, ga > gb)))
                out.append(z3.Or(b <= a, a.arg(1) != b.arg(1), z3.And(rng, gb > ga)))
    return out


def bounds(t):
    """numbers enclosing a real term, None where unknown"""
    v = const_val(t)
    if v is not None:
        return v, v
    if z3.is_app_of(t, z3.Z3_OP_ITE):
        a, b = bounds(t.arg(1)), bounds(t.arg(2))
        return (None if a[0] is None or b[0] is None else min(a[0], b[0]), None if a[1] is None or b[1] is None else max(a[1], b[1]))
    if z3.is_app_of(t, z3.Z3_OP_POWER) and const_val(t.arg(1)) == 2:
        return 0, None
    if z3.is_mul(t):
        cs = t.children()
        if len(cs) == 2 and cs[0].eq(cs[1]):
            return 0, None
        bs = [bounds(x) for x in cs]
        if all(b[0] is not None and b[0] >= 0 for b in bs):
            return 0, None
    if z3.is_add(t):
        bs = [bounds(x) for x in t.children()]
        return (None if any(b[0] is None for b in bs) else sum(b[0] for b in bs), None if any(b[1] is None for b in bs) else sum(b[1] for b in bs))
    return None, None


# ------------------------------------------------------------------ case splitting and rational identities
def is_atom(t):
    return z3.is_bool(t) and not (z3.is_and(t) or z3.is_or(t) or z3.is_not(t) or z3.is_implies(t) or z3.is_true(t) or z3.is_false(t)
                                  or z3.is_quantifier(t) or (z3.is_app(t) and t.decl().kind() in (z3.Z3_OP_ITE, z3.Z3_OP_IFF, z3.Z3_OP_XOR))
                                  or (z3.is_eq(t) and z3.is_bool(t.arg(0))))


class Node:
    __slots__ = ('t', 'id', 'kids', 'ite', 'atom', 'bool', 'clean', 'quant')


class Terms:
    """cached view of terms"""
    def __init__(self):
        self.d = {}

    def node(self, t):
        n = self.d.get(t.get_id())
        if n is not None:
            return n
        stack = [t]
        while stack:
            u = stack[-1]
            i = u.get_id()
            if i in self.d:
                stack.pop()
                continue
            kids = u.children() if z3.is_app(u) else []
            miss = [x for x in kids if x.get_id() not in self.d]
            if miss:
                stack += miss
                continue
            stack.pop()
            n = Node()
            n.t, n.id = u, i
            n.kids = [self.d[x.get_id()] for x in kids]
            n.ite = z3.is_app(u) and u.decl().kind() == z3.Z3_OP_ITE
            n.quant = z3.is_quantifier(u)
            n.bool = z3.is_bool(u)
            n.atom = n.bool and is_atom(u)
            n.clean = not n.ite and not n.quant and not z3.is_var(u) and all(k.clean for k in n.kids)
            self.d[i] = n
        return self.d[t.get_id()]

    def first_cond(self, fs):
        """the most frequent atom, without conditionals inside, occurring in a condition or in a composite literal"""
        order, seen, cnt = [], set(), {}
        roots = [self.node(f) for f in fs]
        stack = [(n, False) for n in roots]
        while stack:
            n, done = stack.pop()
            if done:
                order.append(n)
                continue
            if n.id in seen:
                continue
            seen.add(n.id)
            stack.append((n, True))
            if not n.clean or not n.atom:
                for k in n.kids:
                    if k.id not in seen:
                        stack.append((k, False))
        for n in order:
            cnt[n.id] = 0
        for n in roots:
            cnt[n.id] += 1
        for n in reversed(order):
            c = cnt[n.id]
            for k in n.kids:
                if k.id in cnt:
                    cnt[k.id] += c
        todo = [n.kids[0] for n in order if n.ite]
        for n in roots:
            g = n.kids[0] if z3.is_not(n.t) else n
            if not g.atom and not g.quant:
                todo.append(g)
        done, best, bn = set(), None, 0
        while todo:
            n = todo.pop()
            if n.id in done or n.quant:
                continue
            done.add(n.id)
            if n.atom:
                if n.clean and cnt.get(n.id, 1) > bn:
                    best, bn = n.t, cnt.get(n.id, 1)
            elif n.bool:
                todo += [k for k in n.kids if k.bool]
        return best


def structural(fs):
    """facts without products, divisions or conditionals over reals"""
    out = []
    for f in fs:
        bad = False
        for t in walk([f]):
            if z3.is_quantifier(t):
                bad = True
                break
            if z3.is_app(t) and z3.is_real(t):
                k = t.decl().kind()
                if k == z3.Z3_OP_DIV or (k == z3.Z3_OP_MUL and sum(not z3.is_rational_value(x) for x in t.children()) > 1) or k == z3.Z3_OP_POWER:
                    bad = True
                    break
        if not bad:
            out.append(f)
    return out


class Flat:
    """constraints with every product and quotient of reals replaced by a constant (the same for the same one)"""

    def __init__(self):
        self.const, self.done = {}, {}

    def of(self, f):
        for t in self.order([f]):
            i = t.get_id()
            if i in self.done or not z3.is_app(t):
                continue
            kids = [self.done.get(x.get_id(), (x, x))[1] for x in t.children()]
            same = all(a.eq(b) for a, b in zip(kids, t.children()))
            k = t.decl().kind()
            if z3.is_real(t) and k == z3.Z3_OP_MUL:
                nums = [x for x in kids if z3.is_rational_value(x)]
                rest = sorted((x for x in kids if not z3.is_rational_value(x)), key=lambda x: x.get_id())
                r = rest[0] if len(rest) == 1 else self.name('*', rest) if rest else None
                r = z3.Product(*nums, r) if r is not None and nums else r if r is not None else t
            elif z3.is_real(t) and k == z3.Z3_OP_DIV:
                r = t if z3.is_rational_value(kids[1]) and same else self.name('/', kids)
            else:
                r = t if same else t.decl()(*kids)
            self.done[i] = (t, r)
        return self.done.get(f.get_id(), (f, f))[1]

    def order(self, fs):
        out, seen, stack = [], set(), [(f, False) for f in fs]
        while stack:
            t, fin = stack.pop()
            if fin:
                out.append(t)
            elif t.get_id() not in seen and t.get_id() not in self.done:
                seen.add(t.get_id())
                stack.append((t, True))
                stack += [(x, False) for x in t.children()]
        return out

    def name(self, op, args):
        key = (op,) + tuple(x.get_id() for x in args)
        if key not in self.const:
            self.const[key] = (z3.FreshReal('flat'), args)
        return self.const[key][0]


class Splitter:
    def __init__(self, facts, deadline, maxleaves=5000):
        self.s = z3.Solver()
        self.s.set('timeout', 1500)
        self.facts = facts
        self.s.add(*structural(facts))
        self.flat = Flat()
        self.s.add(*[self.flat.of(z3.simplify(f)) for f in facts if not has_quant([f]) and not structural([f])])
        self.deadline = deadline
        self.leaves = 0
        self.terms = Terms()
        self.tried = {}
        self.maxleaves = maxleaves
        self.path = []

    def entails(self, t):
        self.s.push()
        self.s.add(z3.Not(t))
        r = self.s.check()
        self.s.pop()
        return r == z3.unsat

    def nonzero(self, hyps):
        def f(t):
            if self.entails(t):
                return True
            lits = [h for h in hyps if not has_quant([h]) and not z3.is_or(h) and len(h.sexpr()) < 4000]
            self.s.push()
            self.s.add(*lits)
            self.s.add(z3.Not(t))
            r = self.s.check()
            self.s.pop()
            return r == z3.unsat or self.known_nonzero(t)
        return f

    def known_nonzero(self, t):
        """t: x != 0 where a fact bounds x away from zero, up to polynomial and trigonometric identities"""
        if z3.is_not(t):
            t = t.arg(0)
        if not (z3.is_eq(t) or z3.is_distinct(t)):
            return False
        x = t.arg(0)
        if not any(z3.is_app(u) and u.decl().name() in ('cos', 'sin') for u in walk([x])):
            return False
        if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_MUL and any(not z3.is_rational_value(a) for a in x.children()):
            if all(z3.is_rational_value(a) and not a.eq(z3.RealVal(0)) or self.known_nonzero(a != 0) for a in x.children()):
                return True
        if self.apart is None:
            self.apart = []
            for g in self.facts:
                neg = z3.is_not(g)
                g = g.arg(0) if neg else g
                k = g.decl().kind() if z3.is_app(g) else None
                if (k in (z3.Z3_OP_GT, z3.Z3_OP_GE) and not neg or k in (z3.Z3_OP_LE, z3.Z3_OP_LT) and neg) and z3.is_rational_value(g.arg(1)):
                    v = g.arg(1).numerator_as_long()
                    if v > 0 or v == 0 and (k == z3.Z3_OP_GT or k == z3.Z3_OP_LE):
                        self.apart.append(g.arg(0))
        return any(rational_equal(x, a, lambda q: False) for a in self.apart)

    apart = None

    def merge_terms(self, fs):
        """replace integer terms by simpler terms they are entailed to be equal to"""
        for _ in range(4):
            terms = {}
            for t in walk(fs):
                if z3.is_int(t) and z3.is_app(t) and not has_var(t) and (t.decl().kind() == z3.Z3_OP_UNINTERPRETED) and t.num_args():
                    terms[t.get_id()] = t
            if not terms:
                return fs
            consts = {t.get_id(): t for t in walk(fs + self.facts[:200]) if z3.is_int(t) and z3.is_const(t)
                      and t.decl().kind() == z3.Z3_OP_UNINTERPRETED}
            if self.s.check() != z3.sat:
                return fs
            m = self.s.model()
            val = {}
            for t in consts.values():
                val.setdefault(str(m.eval(t, model_completion=True)), []).append(t)
            sub = []
            for t in sorted(terms.values(), key=lambda t: len(t.sexpr())):
                for u in val.get(str(m.eval(t, model_completion=True)), [])[:6]:
                    if self.entails(t == u):
                        sub.append((t, u))
                        break
            if not sub:
                return fs
            fs = [z3.simplify(z3.substitute(f, *sub)) for f in fs]
        return fs

    def run(self, neg, depth=0):
        """is facts and neg contradictory?"""
        if time.time() > self.deadline or self.leaves > self.maxleaves or depth > 60:
            return False
        flat = []
        for f in neg:
            flat += conj(z3.simplify(f))
        for f in flat:
            if z3.is_false(f):
                return True
        neg = [f for f in flat if not z3.is_true(f)]
        c = self.terms.first_cond(neg)
        if c is None:
            self.leaves += 1
            return self.leaf(neg)
        for f in neg:
            if z3.is_not(f) and z3.is_eq(f.arg(0)) and z3.is_real(f.arg(0).arg(0)) and f.get_id() not in self.tried:
                nz = self.nonzero([h for h in neg if h is not f])
                if rational_equal(f.arg(0).arg(0), f.arg(0).arg(1), nz) or self.by_system(f.arg(0), nz):
                    self.leaves += 1
                    return True
                self.tried[f.get_id()] = f
        tv, fv = z3.BoolVal(True), z3.BoolVal(False)
        for lit, v in ((c, tv), (z3.Not(c), fv)):
            self.s.push()
            self.s.add(lit)
            if not structural([lit]):
                self.s.add(self.flat.of(z3.simplify(lit)))
            r = self.s.check()
            if r != z3.unsat:
                sub = [(c, v)]
                self.path.append(lit)
                fs = [z3.substitute(f, *sub) for f in neg]
                eq = oriented(c) if v is tv else None
                if eq is not None:
                    fs = [z3.substitute(f, eq) for f in fs]
                ok = self.run(fs, depth + 1)
                self.path.pop()
            else:
                ok = True
            self.s.pop()
            if not ok:
                return False
        return True

    def by_system(self, e, nonzero):
        """the equation is one of the rows of a solved linear system, up to rational identities"""
        def unknowns(t):
            return {x.get_id() for x in walk([t]) if z3.is_const(x) and x.decl().name().startswith('lin') and '!' in x.decl().name()}
        us = unknowns(e)
        if not us:
            return False
        if self.systems is None:
            self.systems = [f for f in self.facts if z3.is_eq(f) and z3.is_real(f.arg(0)) and unknowns(f)]
        for f in self.systems:
            if us & unknowns(f) and rational_equal(e.arg(0) - e.arg(1), f.arg(0) - f.arg(1), nonzero):
                return True
        return False

    systems = None

    def leaf(self, neg):
        lits = structural(neg)
        self.s.push()
        self.s.add(*lits)
        r = self.s.check()
        if r == z3.unsat:
            self.s.pop()
            return True
        try:
            for f in neg:
                if z3.is_not(f) and z3.is_eq(f.arg(0)) and z3.is_real(f.arg(0).arg(0)):
                    nz = self.nonzero([h for h in neg if h is not f])
                    if rational_equal(f.arg(0).arg(0), f.arg(0).arg(1), nz) or self.by_system(f.arg(0), nz):
                        return True
        finally:
            self.s.pop()
        m = self.merge_terms(neg)
        if m is not neg:
            return self.run(m, 50)
        if os.environ.get('PYDV_LEAF') == '2':
            print('NLLEAF', [str(x)[:1500] for x in neg])
        fs = self.facts + self.path + neg
        sub = purify(fs)
        pf = [z3.substitute(f, *reversed(sub)) if sub else f for f in fs]
        pf = [f for f in pf if not has_quant([f])]
        for tac in ('qfnra-nlsat', None):
            try:
                r, _ = _check(pf if tac else fs, 2500, tac)
            except z3.Z3Exception:
                continue
            if r == z3.unsat:
                return True
        if os.environ.get('PYDV_LEAF'):
            print('LEAF', self.leaves, 'PATH', self.path[-30:], 'NEG', [str(x)[:1500] for x in neg])
        return False


def oriented(c):
    """an equation between integers as a substitution (constant := other side)"""
    if not z3.is_eq(c) or not z3.is_int(c.arg(0)):
        return None
    a, b = c.arg(0), c.arg(1)
    for x, y in ((a, b), (b, a)):
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and not any(t.eq(x) for t in walk([y])):
            return (x, y)
    for x, y in ((a, b), (b, a)):
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and z3.is_app(y) and y.num_args():
            return (y, x)
    return None


def case_split(facts, neg, timeout):
    sp = Splitter(facts, time.time() + timeout / 1000)
    try:
        neg = [g for f in neg for g in conj(z3.simplify(f))]
        sp.s.add(*structural(neg))
        sp.facts = sp.facts + structural(neg)
        neg = sp.merge_terms(neg)
        if os.environ.get('PYDV_LEAF'):
            print('merged', time.time() - sp.deadline + timeout / 1000, sum(len(f.sexpr()) for f in neg))
        ok = sp.run(neg)
        if os.environ.get('PYDV_LEAF'):
            print('leaves', sp.leaves, time.time() - sp.deadline + timeout / 1000, ok)
        return ok
    except (RecursionError, z3.Z3Exception) as e:
        if os.environ.get('PYDV_LEAF'):
            print('EXC', e)
        return False


def rational_equal(a, b, nonzero):
    """a == b as rational functions over the remaining terms, every denominator being entailed to be nonzero"""
    from fractions import Fraction
    from sympy import ring, QQ
    atoms, dens = {}, []

    def collect(t):
        if z3.is_rational_value(t) or z3.is_int_value(t):
            return
        if z3.is_app(t) and t.decl().kind() in (z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_MUL, z3.Z3_OP_DIV, z3.Z3_OP_UMINUS, z3.Z3_OP_TO_REAL):
            if t.decl().kind() == z3.Z3_OP_TO_REAL:
                atoms.setdefault(t.get_id(), t)
                return
            for x in t.children():
                collect(x)
            if t.decl().kind() == z3.Z3_OP_DIV:
                dens.append(t.arg(1))
            return
        atoms.setdefault(t.get_id(), t)
    collect(a)
    collect(b)
    if len(atoms) > 60:
        return False
    names = [f'v{i}' for i in range(len(atoms))] or ['v0']
    R = ring(names, QQ)
    R0, gens = R[0], R[1:]
    var = {k: gens[i] for i, k in enumerate(atoms)}

    def ev(t):
        """(numerator, denominator)"""
        if z3.is_rational_value(t):
            return R0(QQ(t.numerator_as_long(), t.denominator_as_long())), R0(1)
        if t.get_id() in var:
            return var[t.get_id()], R0(1)
        k = t.decl().kind()
        xs = [ev(x) for x in t.children()]
        if k == z3.Z3_OP_UMINUS:
            return -xs[0][0], xs[0][1]
        n, d = xs[0]
        for p, q in xs[1:]:
            if k == z3.Z3_OP_ADD:
                n, d = (n + p, d) if d == q else (n * q + p * d, d * q)
            elif k == z3.Z3_OP_SUB:
                n, d = (n - p, d) if d == q else (n * q - p * d, d * q)
            elif k == z3.Z3_OP_MUL:
                n, d = n * p, d * q
            else:
                n, d = n * q, d * p
        return n, d
    n1, d1 = ev(a)
    n2, d2 = ev(b)
    rest = n1 * d2 - n2 * d1
    if rest != 0:
        pairs = {}
        for k, t in atoms.items():
            if z3.is_app(t) and t.decl().name() in ('cos', 'sin'):
                pairs.setdefault(t.arg(0).get_id(), {})[t.decl().name()] = var[k]
        if len(rest) > 20000 or not pairs:
            return False
        for p in pairs.values():
            if len(p) == 2 and rest != 0:
                rest = rest.rem([p['sin'] ** 2 + p['cos'] ** 2 - 1])
        if rest != 0:
            return False
    if z3.simplify(a).eq(z3.simplify(b)):
        return True
    return all(nonzero(x != 0) for x in dens if not z3.is_rational_value(x))


def cancelled(a):
    """a as a quotient of polynomials in lowest terms (None: not a small rational function); equal to a where a's denominators are not 0"""
    from sympy import ring, QQ
    atoms = {}

    def collect(t):
        if z3.is_rational_value(t):
            return
        if z3.is_app(t) and t.decl().kind() in (z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_MUL, z3.Z3_OP_DIV, z3.Z3_OP_UMINUS):
            for x in t.children():
                collect(x)
            return
        atoms.setdefault(t.get_id(), t)
    collect(a)
    if len(atoms) > 40:
        return None
    R = ring([f'v{i}' for i in range(len(atoms))] or ['v0'], QQ)
    R0, gens = R[0], R[1:]
    var = {k: gens[i] for i, k in enumerate(atoms)}

    def ev(t):
        if z3.is_rational_value(t):
            return R0(QQ(t.numerator_as_long(), t.denominator_as_long())), R0(1)
        if t.get_id() in var:
            return var[t.get_id()], R0(1)
        k = t.decl().kind()
        xs = [ev(x) for x in t.children()]
        if k == z3.Z3_OP_UMINUS:
            return -xs[0][0], xs[0][1]
        n, d = xs[0]
        for p, q in xs[1:]:
            if k == z3.Z3_OP_ADD:
                n, d = (n + p, d) if d == q else (n * q + p * d, d * q)
            elif k == z3.Z3_OP_SUB:
                n, d = (n - p, d) if d == q else (n * q - p * d, d * q)
            elif k == z3.Z3_OP_MUL:
                n, d = n * p, d * q
            else:
                n, d = n * q, d * p
            if d == 0 or len(n) > 2000 or len(d) > 2000:
                return None
            n, d = n.cancel(d)
        return n, d
    try:
        r = ev(a)
    except (TypeError, ZeroDivisionError):
        return None
    if r is None:
        return None
    ats = list(atoms.values())

    def back(p):
        out = []
        for mono, co in p.terms():
            fs = [z3.RealVal(f'{co.numerator}/{co.denominator}')]
            for i, e in enumerate(mono):
                fs += [ats[i]] * e
            out.append(z3.Product(*fs) if len(fs) > 1 else fs[0])
        return z3.Sum(*out) if len(out) > 1 else (out[0] if out else z3.RealVal(0))
    n, d = back(r[0]), back(r[1])
    return z3.simplify(n / d) if not (r[1] == 1) else z3.simplify(n)


def cvc5_unsat(fs, timeout):
    try:
        import cvc5
    except Exception:
        return False
    s = z3.Solver()
    s.add(*fs)
    txt = s.to_smt2()
    try:
        tm = cvc5.TermManager() if hasattr(cvc5, 'TermManager') else None
        sol = cvc5.Solver(tm) if tm else cvc5.Solver()
        sol.setOption('tlimit-per', str(int(timeout)))
        sol.setLogic('ALL')
        p = cvc5.InputParser(sol)
        p.setStringInput(cvc5.InputLanguage.SMT_LIB_2_6, txt, 'q')
        sm = p.getSymbolManager()
        res = None
        while True:
            cmd = p.nextCommand()
            if cmd.isNull():
                break
            o = cmd.invoke(sol, sm)
            if 'unsat' in str(o):
                return True
        return False
    except Exception:
        return False


def contradictory(c, pc, timeout=2000):
    """is the path condition (the preconditions) contradictory?"""
    fs = []
    for p in pc:
        fs += skolem(p)
    inst = instances(c, fs, 2)
    qf = [f for f in fs + inst if not has_quant([f])]
    r, _ = _check(qf, timeout)
    return r == z3.unsat
