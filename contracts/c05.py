"""C05: registration initialises elements and keeps consistent bookkeeping."""
from pydv.contract import contract
from pydv.heap import REAL_K, vec

AB = 'AB'
BPM = ('Noise', 'NoiseCO', 'Offset', 'Roll', 'CalError', 'SumError')
RFP = ('Voltage', 'Frequency', 'TimeLag')
RFF = tuple(f'{p}{s}' for p in RFP for s in ('Setpoint', 'Offset', 'CalError'))
MAG = ('MagnetOffset', 'MagnetRoll', 'CalErrorA', 'CalErrorB', 'BendingAngle')
SIGK = {f: REAL_K for f in BPM + RFF + MAG}


BPMK = dict(SupportOffset=vec(2), SupportRoll=REAL_K)


def sigk(fields):
    return {f: REAL_K for f in fields}


def old_ords(B, name, ring):
    return B.ords(name, ring, sort=True)


def union(B, what, new, old, given):
    """new = sorted duplicate-free union of old and given"""
    B.ensure(f'{what}: sorted without duplicates', B.increasing(new))
    B.ensure(f'{what}: contains exactly the old and the new indices', B.same_members(
        new, lambda x: B.Or(B.member(old, x), B.member(given, x))))


def merged(B, SC, tab, old, sel, kw):
    """uncertainties of the registered elements are the old ones overwritten by the given ones, nothing else changes"""
    new = B.sigs(SC, tab)
    B.rows(f'SIG.{tab}: registered elements have an entry', new, lambda r: B.Implies(sel(r), B.has(new, '@', r)))
    for f, v in kw.items():
        B.rows(f'SIG.{tab}: {f} merged', new, lambda r, f=f, v=v: B.Implies(sel(r), lambda: B.And(
            B.has(new, f, r), lambda: B.eq(B.get(new, f, r), v))))
    B.frame(f'SIG.{tab} frame', new, old, {'@': sel, **{f: sel for f in kw}})


def initialised(B, ring, sel, zero, design=()):
    for f, n in zero.items():
        B.rows(f'{f} = 0', ring, lambda r, f=f, n=n: B.Implies(sel(r), lambda: B.And(B.has(ring, f, r), lambda: B.eq(
            B.get(ring, f, r), B.const([0.0] * n) if n else 0))))
    for f, g in design:
        B.rows(f'{f} = design value', ring, lambda r, f=f, g=g: B.Implies(sel(r), lambda: B.And(B.has(ring, f, r), lambda: B.eq(
            B.get(ring, f, r), B.get(ring, g, r)))))


@contract('SimulatedCommissioning.register_bpms', params=dict(given=((), ('Noise', 'Roll'), BPM)))
def register_bpms(B, given):
    ring = B.ring(kinds=BPMK)
    ords, had = B.ords('ords', ring), old_ords(B, 'had', ring)
    SC = B.machine(ring, BPM=had, sig=dict(BPM=sigk(BPM), RF=sigk(('VoltageOffset',)), Magnet=sigk(('CalErrorA',))))
    kw = {f: B.real(f) for f in given}
    old, ideal, sig = B.snapshot(SC.RING), B.snapshot(SC.IDEALRING), {t: B.sigs(SC, t) for t in ('BPM', 'RF', 'Magnet')}
    h0, o0 = B.copy(had), B.copy(ords)
    out = B.call(SC.register_bpms, B.repeated(ords), **kw)
    B.ensure('accepted', out.ok)
    if not out.ok:
        return
    sel = lambda r: B.member(o0, r)
    union(B, 'ORD.BPM', SC.ORD.BPM, h0, o0)
    merged(B, SC, 'BPM', sig['BPM'], sel, kw)
    for t in ('RF', 'Magnet'):
        B.frame(f'SIG.{t}', B.sigs(SC, t), sig[t])
    zero = dict(Noise=2, NoiseCO=2, Offset=2, SupportOffset=2, Roll=0, SupportRoll=0, CalError=2, SumError=0)
    initialised(B, SC.RING, sel, zero)
    B.frame('frame', SC.RING, old, {f: sel for f in zero})
    B.isolated(SC, ideal)
    B.unchanged('ordinates unchanged', ords, o0)


@contract('SimulatedCommissioning.register_cavities', params=dict(given=((), ('VoltageOffset',), RFF)))
def register_cavities(B, given):
    ring = B.ring()
    ords, had = B.ords('ords', ring, must={p: REAL_K for p in RFP}), old_ords(B, 'had', ring)
    SC = B.machine(ring, RF=had, sig=dict(BPM=sigk(('Roll',)), RF=sigk(RFF), Magnet=sigk(('CalErrorA',))))
    kw = {f: B.real(f) for f in given}
    old, ideal, sig = B.snapshot(SC.RING), B.snapshot(SC.IDEALRING), {t: B.sigs(SC, t) for t in ('BPM', 'RF', 'Magnet')}
    h0, o0 = B.copy(had), B.copy(ords)
    out = B.call(SC.register_cavities, B.repeated(ords), **kw)
    B.ensure('accepted', out.ok)
    if not out.ok:
        return
    sel = lambda r: B.member(o0, r)
    union(B, 'ORD.RF', SC.ORD.RF, h0, o0)
    merged(B, SC, 'RF', sig['RF'], sel, kw)
    for t in ('BPM', 'Magnet'):
        B.frame(f'SIG.{t}', B.sigs(SC, t), sig[t])
    zero = {p + s: 0 for p in RFP for s in ('Offset', 'CalError')}
    initialised(B, SC.RING, sel, zero, [(p + 'SetPoint', p) for p in RFP])
    B.frame('frame', SC.RING, old, {f: sel for f in [p + s for p in RFP for s in ('SetPoint', 'Offset', 'CalError')]})
    B.isolated(SC, ideal)
    B.unchanged('ordinates unchanged', ords, o0)


MAGMUST = {f'Polynom{x}': vec(lo=1) for x in AB}
MZERO = dict(MagnetOffset=3, SupportOffset=3, MagnetRoll=3, SupportRoll=3, T1=6, T2=6)
OPT = {'none': (), 'HCM': ('HCM',), 'VCM': ('VCM',), 'both': ('HCM', 'VCM'), 'CF': ('CF',), 'SkewQuad': ('SkewQuad',),
       'master': ('MasterOf',), 'all': ('HCM', 'VCM', 'CF', 'SkewQuad', 'MasterOf')}


@contract('SimulatedCommissioning.register_magnets', 'SimulatedCommissioning._optional_magnet_fields',
          params=dict(opt=tuple(OPT), given=((), ('MagnetRoll', 'BendingAngle'), MAG)),
          only=lambda opt, given: len(given) == 2 or opt in ('none', 'all'))
def register_magnets(B, opt, given):
    """the elements given are distinct; the same element twice is in the bounded layer"""
    opts = OPT[opt]
    ring = B.ring()
    ords = B.ords('ords', ring, must=MAGMUST)
    had = {k: old_ords(B, 'had' + k, ring) for k in ('Magnet', 'HCM', 'VCM', 'SkewQuad', 'BPM')}
    SC = B.machine(ring, sig=dict(BPM=sigk(('Roll',)), RF=sigk(('VoltageOffset',)), Magnet=sigk(MAG)), **had)
    n = B.len(ords)
    kw = {f: B.real(f) for f in given}
    m = 2
    lim = {}
    for o in opts:
        if o == 'MasterOf':
            lim[o] = B.arr('MasterOf', (m, n), lo=0, hi=B.len(ring) - 1, kind='i')
        elif o == 'CF':
            lim[o] = 1
        else:
            lim[o] = B.real(o)
    old, ideal, sig = B.snapshot(SC.RING), B.snapshot(SC.IDEALRING), {t: B.sigs(SC, t) for t in ('BPM', 'RF', 'Magnet')}
    h0, o0 = {k: B.copy(v) for k, v in had.items()}, B.copy(ords)
    m0 = B.copy(lim['MasterOf']) if 'MasterOf' in lim else None
    out = B.call(SC.register_magnets, ords if 'MasterOf' in opts else B.repeated(ords), **kw, **lim)
    B.ensure('accepted', out.ok)
    if not out.ok:
        return
    sel = lambda r: B.member(o0, r)
    for k in had:
        if k == 'Magnet' or k in opts:
            union(B, f'ORD.{k}', SC.ORD[k], h0[k], o0)
        else:
            B.unchanged(f'ORD.{k} unchanged', SC.ORD[k], h0[k])
    merged(B, SC, 'Magnet', sig['Magnet'], sel, kw)
    for t in ('BPM', 'RF'):
        B.frame(f'SIG.{t}', B.sigs(SC, t), sig[t])
    R = SC.RING
    initialised(B, R, sel, MZERO, [(f + x, 'Polynom' + x) for f in ('NomPolynom', 'SetPoint') for x in AB])
    for x in AB:
        B.rows(f'CalError{x} = 0', R, lambda r, x=x: B.Implies(sel(r), lambda: B.And(
            B.has(R, 'CalError' + x, r), lambda: B.eq(B.get(R, 'CalError' + x, r), 0 * B.get(R, 'Polynom' + x, r)))))
    allowed = {f: sel for f in list(MZERO) + [f + x for f in ('NomPolynom', 'SetPoint', 'CalError') for x in AB]}
    if 'CF' in opts:
        allowed['CombinedFunction'] = sel
        B.rows('CombinedFunction recorded', R, lambda r: B.Implies(sel(r), lambda: B.eq(B.get(R, 'CombinedFunction', r), True)))
    if 'SkewQuad' in opts:
        allowed['SkewQuadLimit'] = sel
        B.rows('SkewQuadLimit recorded', R, lambda r: B.Implies(sel(r), lambda: B.eq(B.get(R, 'SkewQuadLimit', r), lim['SkewQuad'])))
    if 'HCM' in opts or 'VCM' in opts:
        allowed['CMlimit'] = sel

        def cm(r, i, o):
            if o in opts:
                want = lim[o]
            else:
                want = B.If(B.has(old, 'CMlimit', r), lambda: B.at(B.get(old, 'CMlimit', r), i), 0.0)
            return B.eq(B.at(B.get(R, 'CMlimit', r), i), want)
        for i, o in enumerate(('HCM', 'VCM')):
            B.rows(f'corrector limit {o}', R, lambda r, i=i, o=o: B.Implies(sel(r), lambda: B.And(
                B.has(R, 'CMlimit', r), lambda: cm(r, i, o))))
    if 'MasterOf' in opts:
        allowed['MasterOf'] = sel
        B.rows('children recorded', R, lambda r: B.Implies(sel(r), lambda: B.And(
            B.eq(B.len(B.get(R, 'MasterOf', r)), m),
            *[B.eq(B.at(B.get(R, 'MasterOf', r), q), B.at(m0, q, B.index_of(o0, r))) for q in range(m)])))
        B.unchanged('children array unchanged', lim['MasterOf'], m0)
    B.frame('frame', R, old, allowed)
    B.isolated(SC, ideal)
    B.unchanged('ordinates unchanged', ords, o0)


@contract('SimulatedCommissioning._check_kwargs', 'SimulatedCommissioning.register_bpms', 'SimulatedCommissioning.register_cavities',
          'SimulatedCommissioning.register_magnets', params=dict(what=('bpms', 'cavities', 'magnets')))
def rejected(B, what):
    ring = B.ring()
    ords, had = B.ords('ords', ring, must={**{p: REAL_K for p in RFP}, **MAGMUST}), old_ords(B, 'had', ring)
    tab = dict(bpms='BPM', cavities='RF', magnets='Magnet')[what]
    SC = B.machine(ring, sig={tab: sigk(dict(bpms=BPM, cavities=RFF, magnets=MAG)[what])}, **{tab: had})
    old, sig, h0 = B.snapshot(SC.RING), B.sigs(SC, tab), B.copy(had)
    good = dict(bpms='Roll', cavities='VoltageOffset', magnets='MagnetRoll')[what]
    out = B.call(getattr(SC, 'register_' + what), ords, **{good: B.real('good'), 'Unknown': B.real('bad')})
    B.ensure('rejected with ValueError', out.raised(ValueError))
    B.frame('lattice unchanged', SC.RING, old)
    B.frame('uncertainties unchanged', B.sigs(SC, tab), sig)
    B.unchanged('index list unchanged', SC.ORD[tab], h0)


SUP = ('Section', 'Plinth', 'Girder')


def supk(form):
    return {t + f: (vec(3) if form != 'cut' else ('cut', vec(3))) for t in SUP for f in ('Offset', 'Roll')}


@contract('SimulatedCommissioning.register_supports', 'update_double_ordinates',
          params=dict(typ=SUP, form=('none', 'start', 'cut', 'ends', 'cutends'), old=(0, 1), n=(1, 2)),
          only=lambda typ, form, old, n: typ == 'Girder' or form == 'none' or (form == 'start' and n == 1),
          quick=lambda typ, form, old, n: (old, n) != (1, 2) or (typ == 'Girder' and form == 'cutends'), cost=5)
def register_supports(B, typ, form, old, n):
    """one or two pairs added to none or one: the pairs, their elements and all uncertainties are symbolic"""
    ring = B.ring()
    N = B.len(ring)
    kinds = supk('cut' if form.startswith('cut') else 'start')
    SC = B.machine(ring, sig=dict(Support=kinds, Magnet=sigk(('CalErrorA',))))
    pairs = B.arr('pairs', (2, n), lo=0, hi=N - 1, kind='i')
    had = B.arr('had', (2, old), lo=0, hi=N - 1, kind='i')
    other = {t: B.arr('had' + t, (2, 1), lo=0, hi=N - 1, kind='i') for t in SUP if t != typ}
    if old:
        SC.ORD[typ] = had
    for t, v in other.items():
        SC.ORD[t] = v
    kw = {}
    if form != 'none':
        for f in ('Offset', 'Roll'):
            v = B.arr('sig' + f, (2, 3) if form.endswith('ends') else (3,))
            kw[f] = [v, B.real('cutoff' + f, lo=0.1)] if form.startswith('cut') else v
    h0, p0, t0 = B.copy(had), B.copy(pairs), {t: B.copy(v) for t, v in other.items()}
    kw0 = {f: B.copy(v) for f, v in kw.items()}
    before, ideal = B.snapshot(SC.RING), B.snapshot(SC.IDEALRING)
    sig, sigm = B.sigs(SC, 'Support'), B.sigs(SC, 'Magnet')
    out = B.call(SC.register_supports, pairs, typ, **kw)
    B.ensure('accepted', out.ok)
    if not out.ok:
        return
    new = SC.ORD[typ]
    k = B.shape(new)[1]
    cols = lambda a, m: [(B.at(a, 0, j), B.at(a, 1, j)) for j in range(m)]
    isin = lambda p, ps: B.Or(*[B.And(B.eq(p[0], q[0]), B.eq(p[1], q[1])) for q in ps]) if ps else False
    nc, oc, pc = cols(new, k), cols(h0, old), cols(p0, n)
    B.ensure('index list: every pair is an old or a new one', B.And(*[isin(p, oc + pc) for p in nc]))
    B.ensure('index list: contains all old and new pairs', B.And(*[isin(p, nc) for p in oc + pc]))
    B.ensure('index list: sorted without duplicates', B.And(*[B.Or(
        a[1] < b[1], B.And(B.eq(a[1], b[1]), a[0] < b[0])) for a, b in zip(nc, nc[1:])]) if k > 1 else True)
    for t, v in t0.items():
        B.unchanged(f'ORD.{t} unchanged', SC.ORD[t], v)
    R = SC.RING
    ends = [x for p in pc for x in p]
    sel = lambda r: B.Or(*[B.eq(r, x) for x in ends])
    initialised(B, R, sel, {typ + 'Offset': 3, typ + 'Roll': 3})
    B.frame('frame', R, before, {typ + 'Offset': sel, typ + 'Roll': sel})
    B.isolated(SC, ideal)
    now = B.sigs(SC, 'Support')
    B.rows('SIG.Support: registered elements have an entry', now, lambda r: B.Implies(sel(r), B.has(now, '@', r)))
    starts = lambda r: B.Or(*[B.eq(r, p[0]) for p in pc])
    lasts = lambda r: B.Or(*[B.eq(r, p[1]) for p in pc])
    allowed = {'@': sel}
    for f, v in kw0.items():
        a, c = v if form.startswith('cut') else (v, None)
        want = lambda i: (B.const_rows(a, i) if form.endswith('ends') else a)
        wrap = lambda i: [want(i), c] if c is not None else want(i)
        g = typ + f
        B.rows(f'SIG.Support: {g} of the start points', now, lambda r, g=g, wrap=wrap: B.Implies(
            B.And(starts(r), B.Not(lasts(r)) if form.endswith('ends') else True), lambda: B.And(
                B.has(now, g, r), lambda: B.eq(B.get(now, g, r), wrap(0)))))
        if form.endswith('ends'):
            B.rows(f'SIG.Support: {g} of the end points', now, lambda r, g=g, wrap=wrap: B.Implies(
                B.And(lasts(r), B.Not(starts(r))), lambda: B.And(B.has(now, g, r), lambda: B.eq(B.get(now, g, r), wrap(1)))))
        allowed[g] = sel if form.endswith('ends') else starts
    B.frame('SIG.Support frame', now, sig, allowed)
    B.frame('SIG.Magnet', B.sigs(SC, 'Magnet'), sigm)
    B.unchanged('given pairs unchanged', pairs, p0)
    for f in kw:
        B.unchanged(f'given {f} uncertainty unchanged', kw[f][0] if isinstance(kw[f], list) else kw[f],
                    kw0[f][0] if isinstance(kw[f], list) else kw0[f])


@contract('SimulatedCommissioning.register_supports', params=dict(why=('type', 'keyword', 'shape1', 'shape3', 'empty')))
def supports_rejected(B, why):
    ring = B.ring()
    N = B.len(ring)
    SC = B.machine(ring, sig=dict(Support=supk('start')))
    rows = {'shape1': 1, 'shape3': 3, 'empty': 0}.get(why, 2)
    pairs = B.arr('pairs', (rows, 2), lo=0, hi=N - 1, kind='i')
    had = B.arr('had', (2, 1), lo=0, hi=N - 1, kind='i')
    SC.ORD['Girder'] = had
    old, sig, h0 = B.snapshot(SC.RING), B.sigs(SC, 'Support'), B.copy(had)
    v = B.vec('sigma', 3)
    out = B.call(SC.register_supports, pairs, 'Bench' if why == 'type' else 'Girder',
                 **({'Shape': v} if why == 'keyword' else {'Offset': v}))
    B.ensure('rejected with ValueError', out.raised(ValueError))
    B.frame('lattice unchanged', SC.RING, old)
    B.frame('uncertainties unchanged', B.sigs(SC, 'Support'), sig)
    B.unchanged('index list unchanged', SC.ORD['Girder'], h0)
