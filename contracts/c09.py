"""C09: support misalignments are interpolated onto elements."""
import copy
import numpy as np
from pydv.contract import contract
from pydv.heap import REAL_K, vec

TRUSTED = ['at.get_s_pos: cumulated lengths of the elements, starting with zero',
           'numpy.interp: piecewise linear interpolation, clamped at the ends']
TYPES = ('Section', 'Plinth', 'Girder')


def positions(B, n):
    """n + 1 non-decreasing positions starting with zero, the last one the circumference"""
    if B.symbolic:
        s = B.arr('s', (n + 1,))
        B.assume(B.eq(B.at(s, 0), 0.0))
        B.assume(B.every(n + 1, lambda i: B.every(n + 1, lambda j: B.Implies(i <= j, lambda: B.at(s, i) <= B.at(s, j)))))
        return s
    ls = [B.rng.choice([0.0, 0.0, B.rng.uniform(0.1, 2)]) for _ in range(n)]
    return np.concatenate(([0.0], np.cumsum(ls)))


def inside(B, a, b, i, wrap):
    return B.Or(i >= a, i <= b) if wrap else B.And(i >= a, i <= b)


def pairs_of(B, n, wraps, s=None, name='end'):
    """index pairs of structures that do not share elements; at most one crosses the end of the ring"""
    if B.symbolic:
        table = B.arr(name, (2, len(wraps)), lo=0, hi=n - 1, kind='i')
        out = [(B.at(table, 0, k), B.at(table, 1, k)) for k in range(len(wraps))]
        for (a, b), w in zip(out, wraps):
            B.assume(b < a if w else a < b)
        for k, (a, b) in enumerate(out):
            for j, (c, d) in enumerate(out[:k]):
                for x, y, w, p in ((a, b, wraps[k], (c, d)), (c, d, wraps[j], (a, b))):
                    for q in p:
                        B.assume(B.Not(inside(B, x, y, q, w)))
    else:
        if n < 2 * len(wraps):
            B.assume(False)
        cut = sorted(B.rng.sample(range(n), 2 * len(wraps)))
        if any(wraps):
            out = [(cut[-1], cut[0])] + [(cut[i], cut[i + 1]) for i in range(1, len(cut) - 1, 2)]
        else:
            out = [(cut[i], cut[i + 1]) for i in range(0, len(cut), 2)]
        table = np.array(out, dtype=int).reshape(-1, 2).T
    if s is not None:
        for (a, b), w in zip(out, wraps):
            B.assume(B.at(s, b) < B.at(s, a) if w else B.at(s, a) < B.at(s, b))
            if w:        # positive length
                B.assume(B.at(s, a) < B.at(s, b) + B.at(s, n))
    return table, out


def along(B, s, C, a, b, fa, fb, i, wrap):
    """the straight line between the ends, as a function of the path length from the start"""
    x = lambda k: B.at(s, k)
    L = x(b) - x(a) + (C if wrap else 0.0)
    d = x(i) - x(a)
    if wrap:
        d = d + B.If(i >= a, 0.0, C)
    return fa + (fb - fa) * d / L


@contract('s_interpolation', params=dict(wraps=((), (False,), (True,), (False, False), (True, False), (True, False, False))),
          quick=lambda wraps: len(wraps) < 3)
def interpolation(B, wraps):
    """up to three structures of one type: all positions, ends and values"""
    n = B.size('n', max(2 * len(wraps), 1), 12)
    s = positions(B, n)
    C = B.at(s, n)
    table, ps = pairs_of(B, n, wraps, s)
    k = len(wraps)
    if any(wraps):       # the ring goes on beyond the last structure end
        B.assume(B.every(n + 1, lambda i: B.at(s, i) <= C))
    o1, o2 = table[0, :], table[1, :]
    off = B.arr('off', (n + 1,))
    f1, f2 = B.arr('f1', (k,)), B.arr('f2', (k,))
    off0 = B.copy(off)
    out = B.call(B.mod('pySC.utils.classdef_tools').s_interpolation, off, s, o1, f1, o2, f2)
    B.ensure('accepted', out.ok)
    if not out.ok:
        return
    v = out.value
    B.ensure('one value per position', B.eq(B.len(v), n + 1))
    for j, ((a, b), w) in enumerate(zip(ps, wraps)):
        B.ensure(f'straight line between the ends {j}', B.forall(n, lambda i: B.Implies(
            inside(B, a, b, i, w), lambda: B.eq(B.at(v, i), along(B, s, C, a, b, B.at(f1, j), B.at(f2, j), i, w)))))
    B.ensure('kept elsewhere', B.forall(n, lambda i: B.Or(
        *[inside(B, a, b, i, w) for (a, b), w in zip(ps, wraps)], lambda: B.eq(B.at(v, i), B.at(off0, i)))))


def by_contract(B):
    """callers of s_interpolation: its contract (proved above), the straight line left uninterpreted"""
    if not B.symbolic:
        return lambda xa, xb, x, fa, fb: fa + (fb - fa) * (x - xa) / (xb - xa)
    import z3
    from pydv import arr as A
    from pydv.core import S_, real, zlift
    F = z3.Function('line', *[z3.RealSort()] * 6)

    def line(*v):
        return S_(F(*[real(zlift(x)[0]) for x in v]))

    def s_interpolation(off, s, ord1, f1, ord2, f2):
        n, k = B.len(off), B.len(ord1)
        old, C = B.copy(off), B.at(s, B.len(s) - 1)
        ends = [(B.at(ord1, j), B.at(ord2, j), B.at(f1, j), B.at(f2, j)) for j in range(k)]

        def value(i):
            v = B.at(old, i)
            for a, b, fa, fb in ends:
                w = B.known(b < a)
                if w is None:
                    raise B.unsupported('order of the ends of a structure')
                v = B.If(inside(B, a, b, i, w), lambda: on(line, B, s, C, a, b, fa, fb, i, w), lambda v=v: v)
            return v
        return B.build((n,), value)
    B.stub('pySC.utils.classdef_tools', 's_interpolation', sym=s_interpolation)
    return line


def on(line, B, s, C, a, b, fa, fb, i, wrap):
    x = lambda k: B.at(s, k)
    if not wrap:
        return line(x(a), x(b), x(i), fa, fb)
    return line(x(a), x(b) + C, x(i) + B.If(i >= a, 0.0, C), fa, fb)


KINDS = {t + f: vec(3) for t in TYPES for f in ('Offset', 'Roll')}
LAYOUTS = {'none': ((), (), ()), 'girder': ((), (), (False,)), 'wrapped girder': ((), (), (True,)),
           'two girders': ((), (), (False, False)),
           'plinth and girder': ((), (False,), (False,)), 'section and girder': ((False,), (), (False,)),
           'wrapped section and girder': ((True,), (), (False,)), 'wrapped plinth and girder': ((), (True,), (True,)),
           'all three': ((False,), (False,), (False,)), 'all three wrapped': ((True,), (True,), (True,)),
           'two girders on a section': ((False,), (), (False, False)), 'two plinths': ((), (False, False), ())}


def supports(B, layout, ring, **tabs):
    """a machine with these structures; every structure end carries its misalignment"""
    n = B.len(ring)
    tables, ends = {}, {}
    SC = B.machine(ring, **tabs)
    if B.symbolic:
        s = positions(B, n)
    else:
        for e in ring:
            if B.rng.random() < 0.5 and not hasattr(e, 'BendingAngle') and not hasattr(e, 'Frequency'):
                e.Length = B.rng.choice([0.0, B.rng.uniform(0.1, 2)])
        s = B.mod('pySC.utils.at_wrapper').findspos(ring)
    B.stub('pySC.utils.at_wrapper', 'findspos', sym=lambda r: B.copy(s))
    for t, wraps in zip(TYPES, LAYOUTS[layout]):
        tables[t], ends[t] = pairs_of(B, n, wraps, s, name=t)
        for a, b in ends[t]:
            for e in (a, b):
                for f in ('Offset', 'Roll'):
                    B.must(SC.RING, lambda r, e=e: B.eq(r, e), {t + f: vec(3)})
                    if not B.symbolic:
                        setattr(SC.RING[e], t + f, B.nprng.uniform(-1, 1, 3))
        SC.ORD[t] = B.copy(tables[t])
    return SC, s, ends


def riding(B, R, s, C, ends, layout, c, line):
    """total offset in coordinate c: the structures of every type ride on those of the types before"""
    f = lambda i: 0.0
    for t, wraps in zip(TYPES, LAYOUTS[layout]):
        lower = f
        for (a, b), w in zip(ends[t], wraps):
            def f(i, below=f, lower=lower, a=a, b=b, w=w, t=t):
                end = lambda e: lower(e) + B.at(B.get(R, t + 'Offset', e), c)
                return B.If(inside(B, a, b, i, w), lambda: on(line, B, s, C, a, b, end(a), end(b), i, w), lambda: below(i))
    return f


@contract('SimulatedCommissioning.support_offset_and_roll', 's_interpolation', params=dict(
    layout=tuple(LAYOUTS), where=('elements', 'locations')), runs=60, nmax=14,
    only=lambda layout, where: where == 'elements' or sum(1 for w in LAYOUTS[layout] if w) < 2)
def everywhere(B, layout, where):
    """offsets and angles at every element, or at arbitrary locations where elements start"""
    ring = B.ring(kinds=KINDS)
    SC, s, ends = supports(B, layout, ring)
    n = B.len(ring)
    C = B.at(s, n)
    R = B.snapshot(SC.RING)
    line = by_contract(B)
    if any(w for ws in LAYOUTS[layout] for w in ws):
        B.assume(B.every(n + 1, lambda i: B.at(s, i) <= C))
    if where == 'elements':
        loc, count = B.copy(s), n + 1
    else:
        count = B.size('locations', 1, 6)
        B.assume(count <= n)
        loc = B.arr('at', (count,))
        if not B.symbolic:
            loc[:] = [B.at(s, B.rng.randrange(n)) for _ in loc]
    out = B.call(SC.support_offset_and_roll, loc)
    B.ensure('accepted', out.ok)
    if not out.ok:
        return
    off, roll = out.value
    for v, what in ((off, 'offsets'), (roll, 'angles')):
        B.ensure(f'three {what} per position', B.And(len(B.shape(v)) == 2, lambda: B.eq(B.shape(v)[0], 3), lambda: B.eq(B.shape(v)[1], count)))

    def over(f):
        if where == 'elements':
            return B.forall(n, lambda i: f(i, i))
        # the first element that starts at the location
        starts = lambda v, e: B.And(B.eq(B.at(s, e), B.at(loc, v)), lambda: B.Or(B.eq(e, 0), lambda: B.at(s, e - 1) < B.at(s, e)))
        return B.forall(count, lambda v: B.forall(n, lambda e: B.Implies(starts(v, e), lambda: f(v, e))))
    total = [riding(B, R, s, C, ends, layout, c, line) for c in range(3)]
    for c in range(3):
        B.ensure(f'offset {"xyz"[c]}', over(lambda v, i: B.eq(B.at(off, c, v), total[c](i))))
    pairs = [(t, a, b, w) for t, ws in zip(TYPES, LAYOUTS[layout]) for (a, b), w in zip(ends[t], ws)]
    B.ensure('roll: sum of the start rolls of the covering structures', over(lambda v, i: B.eq(
        B.at(roll, 0, v), sum((B.If(inside(B, a, b, i, w), lambda: B.at(B.get(R, t + 'Roll', a), 0), 0.0)
                               for t, a, b, w in pairs), 0.0))))
    for q, c, what in ((1, 1, 'pitch'), (2, 0, 'yaw')):
        def slope(i):
            v = 0.0
            for t, a, b, w in pairs:
                L = B.at(s, b) - B.at(s, a) + (C if w else 0.0)
                v = B.If(inside(B, a, b, i, w), lambda: (total[c](b) - total[c](a)) / L, lambda v=v: v)
            return v
        B.ensure(f'{what}: slope of the innermost structure', over(lambda v, i: B.eq(B.at(roll, q, v), slope(i))))
    B.frame('lattice unchanged', SC.RING, R)


@contract('SimulatedCommissioning.support_offset_and_roll', params=dict(layout=tuple(LAYOUTS)), runs=150, nmax=16, bounded=True)
def anywhere(B, layout):
    """bounded: arbitrary locations strictly inside elements or drifts, structures of all types together"""
    ring = B.ring(kinds=KINDS)
    SC, s, ends = supports(B, layout, ring)
    n, C = len(ring), float(s[-1])
    line = lambda xa, xb, x, fa, fb: fa + (fb - fa) * (x - xa) / (xb - xa)
    free = [i for i in range(n) if s[i + 1] > s[i] + 1e-3]
    B.assume(free)
    at = [(B.rng.choice(free), B.rng.uniform(0.01, 0.99)) for _ in range(3)]
    loc = np.array([s[i] + u * (s[i + 1] - s[i]) for i, u in at])
    out = B.call(SC.support_offset_and_roll, loc)
    B.ensure('accepted', out.ok)
    if not out.ok:
        return
    off, roll = out.value
    first = lambda i: min(k for k in range(n + 1) if s[k] == s[i])
    value = [riding(B, SC.RING, s, C, ends, layout, c, line) for c in range(3)]
    near = lambda k: [value[c](k) for c in range(3)]
    for k, (i, u) in enumerate(at):
        a, b = first(i), first(i + 1)
        if b == n:
            continue
        B.ensure('straight line between neighbouring elements', bool(np.allclose(
            off[:, k], (1 - u) * np.array(near(a)) + u * np.array(near(b)), rtol=1e-9, atol=1e-9)))


OUT = ('T1', 'T2', 'R1', 'R2')
OWN = dict(MagnetOffset=vec(3), MagnetRoll=vec(3))
SUP = dict(SupportOffset=vec(3), SupportRoll=vec(3))


def transformation(B):
    """update_transformation under its contract (C10): a function of the misalignment of the element, left uninterpreted"""
    if not B.symbolic:
        def want(e, q):
            x = copy.copy(e)
            B.mod('pySC.utils.sc_tools').update_transformation(x)
            return getattr(x, q)
        return lambda R, r, q: want(R[r], q)
    import z3
    from pydv.core import S_, real, zlift
    F = {q: z3.Function('by ' + q, *[z3.IntSort()] * 3, *[z3.RealSort()] * 13) for q in OUT}

    def value(q, arrays, r):
        args = [real(zlift(B.at(a, i))[0]) for a in arrays for i in range(3)]
        f = lambda i, j=0: S_(F[q](zlift(r)[0], zlift(i)[0], zlift(j)[0], *args))
        return B.build((6,) if q[0] == 'T' else (6, 6), f)

    def update_transformation(element):
        arrays = [getattr(element, a) for a in ('MagnetOffset', 'SupportOffset', 'MagnetRoll', 'SupportRoll')]
        for q in OUT:
            setattr(element, q, value(q, arrays, object.__getattribute__(element, '_row')))
        return element
    B.stub('pySC.utils.sc_tools', 'update_transformation', sym=update_transformation)
    return lambda R, r, q: value(q, [B.get(R, a, r) for a in ('MagnetOffset', 'SupportOffset', 'MagnetRoll', 'SupportRoll')], r)


def by_position(B):
    """support_offset_and_roll under its contract (proved above): here any function of the location"""
    if B.symbolic:
        import z3
        from pydv.core import S_, real, zlift
        F = {q: [z3.Function(f'{q} {i} at', z3.RealSort(), z3.RealSort()) for i in range(3)] for q in ('offset', 'angle')}
        at = lambda q, i, x: S_(F[q][i](real(zlift(x)[0])))

        def component(q, i, x):
            if isinstance(i, int):
                return at(q, i, x)
            return B.If(B.eq(i, 0), lambda: at(q, 0, x), lambda: B.If(B.eq(i, 1), lambda: at(q, 1, x), lambda: at(q, 2, x)))
    else:
        k = dict(offset=B.nprng.uniform(1, 5, 3), angle=B.nprng.uniform(5, 9, 3))

        def component(q, i, x):
            return float(np.sin(k[q][int(i)] * (x + 1)))

    def support_offset_and_roll(self, locations):
        n = B.len(locations)
        return tuple(B.build((3, n), lambda i, j, q=q: component(q, i, B.at(locations, j))) for q in ('offset', 'angle'))
    B.stub('pySC.core.simulated_commissioning', 'SimulatedCommissioning.support_offset_and_roll',
           sym=support_offset_and_roll, conc=support_offset_and_roll)
    return component


def same(B, a, b, q):
    six = range(6)
    return B.And(*[B.eq(B.at(a, i), B.at(b, i)) for i in six]) if q[0] == 'T' else \
        B.And(*[B.eq(B.at(a, i, j), B.at(b, i, j)) for i in six for j in six])


@contract('SimulatedCommissioning.update_supports', params=dict(what=('magnets', 'bpms'), explicit=(False, True)))
def update(B, what, explicit):
    """the misalignment of every magnet or BPM is the one of the supports at its position"""
    updated(B, what, explicit)


@contract('SimulatedCommissioning.update_supports', bounded=True, runs=100)
def update_together(B):
    """magnets and BPMs in one call"""
    updated(B, 'both', False)


def updated(B, what, explicit):
    ring = B.ring(kinds=dict(SupportOffset=vec(2), SupportRoll=REAL_K) if what == 'bpms' else {}, absent=('MasterOf',))
    lists = {}
    for k, must in dict(Magnet=dict(OWN, **({} if what == 'both' else SUP)), BPM={}).items():
        if explicit or what == 'both' or what == dict(Magnet='magnets', BPM='bpms')[k]:
            lists[k] = B.ords(k, ring, must=must if what != 'bpms' else {}, lo=1, **({'without': lists['Magnet']} if lists else {}))
    SC = B.machine(ring, **lists)
    s = spos(B, SC)
    value, law = by_position(B), transformation(B)
    old, ideal = B.snapshot(SC.RING), B.snapshot(SC.IDEALRING)
    before = {k: B.copy(SC.ORD[k]) for k in lists}
    kw = {('offset_magnets' if what == 'bpms' else 'offset_bpms'): False} if explicit else {}
    out = B.call(SC.update_supports, **kw)
    B.ensure('accepted', out.ok)
    if not out.ok:
        return
    R = SC.RING
    nums = lambda a, r, q, k: B.And(len(B.shape(B.get(R, a, r))) == 1, lambda: B.eq(B.len(B.get(R, a, r)), k), lambda: B.And(
        *[B.eq(B.at(B.get(R, a, r), i), value(q, i, B.at(s, r))) for i in range(k)]))
    never = lambda r: False
    sel = {k: (lambda r, k=k: B.member(before[k], r)) if k in lists else never for k in ('Magnet', 'BPM')}
    sel = {k: f if what in ('both', dict(Magnet='magnets', BPM='bpms')[k]) else never for k, f in sel.items()}
    if what != 'magnets':
        B.rows('offset of the supports at the BPMs', R, lambda r: B.Implies(sel['BPM'](r), lambda: nums('SupportOffset', r, 'offset', 2)))
        B.rows('roll of the supports at the BPMs', R, lambda r: B.Implies(sel['BPM'](r), lambda: B.eq(
            B.get(R, 'SupportRoll', r), value('angle', 0, B.at(s, r)))))
    if what != 'bpms':
        B.rows('offset of the supports at the magnets', R, lambda r: B.Implies(sel['Magnet'](r), lambda: nums('SupportOffset', r, 'offset', 3)))
        B.rows('angles of the supports at the magnets', R, lambda r: B.Implies(sel['Magnet'](r), lambda: nums('SupportRoll', r, 'angle', 3)))
        for q in OUT:
            B.rows(f'{q} recomputed', R, lambda r, q=q: B.Implies(sel['Magnet'](r), lambda: B.And(
                B.has(R, q, r), lambda: same(B, B.get(R, q, r), law(R, r, q), q))))
    any_ = lambda r: B.Or(sel['Magnet'](r), sel['BPM'](r))
    B.frame('frame', R, old, dict({a: any_ for a in ('SupportOffset', 'SupportRoll')}, **{q: sel['Magnet'] for q in OUT}))
    B.isolated(SC, ideal)
    for k, v in before.items():
        B.unchanged(f'ordinates unchanged ({k})', SC.ORD[k], v)


def spos(B, SC):
    if not B.symbolic:
        return B.mod('pySC.utils.at_wrapper').findspos(SC.RING)
    s = positions(B, B.len(SC.RING))
    B.stub('pySC.utils.at_wrapper', 'findspos', sym=lambda r: B.copy(s))
    return s


@contract('SimulatedCommissioning.update_supports', params=dict(m=(1, 2), second=(False, True)), cost=3)
def split(B, m, second):
    """one master with m children (and a further magnet without): the children get the transformations of their master"""
    ring = B.ring(kinds=dict(MasterOf=('ilist', m)))
    ords = B.ords('magnets', ring, must=dict(OWN, **SUP), n=2 if second else 1)
    child = B.ords('child', ring, n=m, without=ords)
    s0 = B.at(ords, 0)
    if second:
        B.must(ring, lambda r: False, {})
        B.assume(B.Not(B.has(ring, 'MasterOf', B.at(ords, 1))))
    ring[s0].MasterOf = B.copy(child)
    SC = B.machine(ring, Magnet=ords)
    s = spos(B, SC)
    law, old = (by_position(B), transformation(B))[1], B.snapshot(SC.RING)
    out = B.call(SC.update_supports)
    B.ensure('accepted', out.ok)
    if not out.ok:
        return
    R = SC.RING
    for j in range(m):
        t = B.at(child, j)
        for q in OUT:
            B.ensure(f'{q} of child {j}', B.And(B.has(R, q, t), lambda: same(B, B.get(R, q, t), law(R, s0, q), q)))
    sel = lambda r: B.member(ords, r)
    also = lambda r: B.Or(sel(r), B.member(child, r))
    B.frame('frame', R, old, dict({q: also for q in OUT}, SupportOffset=sel, SupportRoll=sel))


GIVEN = {'nothing': '', 'start': 'a', 'both ends': 'ab', 'angles': 'r', 'start and angles': 'ar', 'both ends and roll': 'abr'}


@contract('SimulatedCommissioning._apply_support_alignment_error', 'randn_cutoff', params=dict(
    given=tuple(GIVEN), typ=TYPES, wrap=(False, True), own=(False, True)),
    only=lambda given, typ, wrap, own: given in ('start and angles', 'both ends and roll') or (typ, wrap) == ('Girder', False),
    quick=lambda given, typ, wrap, own: (typ == 'Girder') == wrap or given in ('start', 'angles'), cost=2)
def applied(B, given, typ, wrap, own):
    """errors of the ends of a structure, with the default cut-off or their own"""
    given = GIVEN[given]
    other = TYPES[(TYPES.index(typ) + 1) % 3]
    cut = lambda k: ('cut', k) if own else k
    ring = B.ring(kinds=KINDS)
    n = B.len(ring)
    SC = B.machine(ring, sig=dict(Support={typ + 'Offset': cut(vec(3)), typ + 'Roll': cut(vec(3)), other + 'Offset': vec(3)},
                                  Magnet=dict(CalErrorA=vec(lo=1))))
    s = spos(B, SC)
    C = B.at(s, n)
    table, [(a, b)] = pairs_of(B, n, (wrap,), s)
    B.assume(B.every(n + 1, lambda i: B.at(s, i) <= C))
    fields = {typ + 'Offset': vec(3), typ + 'Roll': vec(3), other + 'Offset': vec(3)}
    for e in (a, b):
        B.must(SC.RING, lambda r, e=e: B.eq(r, e), fields)
        if not B.symbolic:
            for f in fields:
                setattr(SC.RING[e], f, B.nprng.uniform(-1, 1, 3))
    if given == 'r':      # no offsets drawn: the structure is not tilted yet
        B.assume(B.And(*[B.eq(B.at(B.get(SC.RING, typ + 'Offset', a), i), B.at(B.get(SC.RING, typ + 'Offset', b), i)) for i in range(3)])
                 if B.symbolic else True)
        if not B.symbolic:
            setattr(SC.RING[b], typ + 'Offset', B.copy(getattr(SC.RING[a], typ + 'Offset')))
    sigma, limit = {}, {}
    nsig = B.real('nsigmas', lo=0, sample=(0.5, 3))
    for x, f in (('a', 'Offset'), ('b', 'Offset'), ('r', 'Roll')):
        if x not in given:
            continue
        sigma[x] = B.arr('sigma ' + x, (3,), lo=0)
        limit[x] = B.real('cut ' + x, lo=0, sample=(0.5, 3)) if own else nsig
        if x == 'r' and 'b' in given:        # explicit pitch and yaw only without uncertainties of the end offset
            B.assume(B.And(B.eq(B.at(sigma['r'], 1), 0), B.eq(B.at(sigma['r'], 2), 0)) if B.symbolic else True)
            if not B.symbolic:
                sigma['r'][1:] = 0
    val = lambda x: [B.copy(sigma[x]), limit[x]] if own else B.copy(sigma[x])
    SC.SIG.Support[a] = dict({typ + 'Offset': val('a')} if 'a' in given else {}, **({typ + 'Roll': val('r')} if 'r' in given else {}),
                             **{other + 'Offset': B.arr('other', (3,))})
    SC.SIG.Support[b] = {typ + 'Offset': val('b')} if 'b' in given else {}
    SC.ORD[typ] = B.copy(table)
    B.draws()
    sig = B.sigs(SC, 'Support')
    old, ideal = B.snapshot(SC.RING), B.snapshot(SC.IDEALRING)
    out = B.call(SC._apply_support_alignment_error, nsig)
    B.ensure('accepted', out.ok)
    if not out.ok:
        return
    R = SC.RING
    L = B.at(s, b) - B.at(s, a) + (C if wrap else 0.0)
    now = lambda f, e, i: B.at(B.get(R, typ + f, e), i)
    was = lambda f, e, i: B.at(B.get(old, typ + f, e), i)
    drawn = lambda v, x, i: B.drawn_from(v, limit[x] * B.at(sigma[x], i))
    for i, c, what in ((1, 1, 'pitch'), (2, 0, 'yaw')):
        B.ensure(f'{what} is the slope between the ends', B.eq(now('Roll', a, i) * L, now('Offset', b, c) - now('Offset', a, c)))
        if 'r' in given and 'b' not in given and 'a' in given:
            # (a draw of exactly zero: no pitch or yaw, the ends stay parallel)
            B.ensure(f'explicit {what} drawn', B.Or(drawn(now('Roll', a, i), 'r', i),
                                                    lambda: B.symbolic and B.eq(now('Roll', a, i), 0)))
    B.ensure('roll drawn' if 'r' in given else 'roll kept', drawn(now('Roll', a, 0), 'r', 0) if 'r' in given else
             B.eq(now('Roll', a, 0), was('Roll', a, 0)))
    for c in range(3):
        xyz = 'xyz'[c]
        mid = lambda f: (f('Offset', a, c) + f('Offset', b, c)) / 2
        if 'b' in given:
            B.ensure(f'start drawn, {xyz}', drawn(now('Offset', a, c), 'a', c))
            B.ensure(f'end drawn, {xyz}', drawn(now('Offset', b, c), 'b', c))
        elif 'a' in given:
            B.ensure(f'centre drawn, {xyz}', drawn(mid(now), 'a', c))
        else:
            B.ensure(f'centre kept, {xyz}', B.eq(mid(now), mid(was)))
        if 'a' in given and 'b' not in given and ('r' not in given or c == 2):
            B.ensure(f'parallel shift, {xyz}', B.eq(now('Offset', a, c), now('Offset', b, c)))
    sel = lambda r: B.Or(B.eq(r, a), B.eq(r, b))
    B.frame('frame', R, old, {f: sel for f in fields if not f.startswith(other)})
    B.frame('uncertainties unchanged', B.sigs(SC, 'Support'), sig)
    B.isolated(SC, ideal)
