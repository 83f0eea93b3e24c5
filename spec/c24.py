"""C24  reproducibility"""
from lib import *
from c13 import seq_of
from c14 import real_grid, mk_star, KINDS
from c17 import mk_spotgen, mk_facgen
from c18 import Mature
from c19 import mk_flaregen
from c23 import times

SG, FG, FL = 'spots.SpotGenerator.', 'faculae.FaculaGenerator.', 'flares.FlareGenerator.'


def own(c, evs, rng, what):
    for e in evs:
        if e[0] == 'draw':
            c.oblige(f'{what}: {e[2]} is drawn from the random generator that was given', is_(e[1], rng))
    bad = [x for x in c.nondet if x.startswith('global')]
    c.oblige(f'{what}: global random state is neither used nor changed', TRUE if not bad else FALSE)


def same_draw(a, b):
    """Form: the same request to a random generator"""
    if a[2] != b[2] or len(a[3]) != len(b[3]) or (a[4] is None) != (b[4] is None) or len(a[6]) != len(b[6]):
        return FALSE
    fs = [frozen_eq(freeze(x), freeze(y)) for x, y in zip(a[3], b[3])]
    if a[4] is not None:
        x, y = [NP._shape(e[4]) for e in (a, b)]
        if len(x) != len(y):
            return FALSE
        fs += [mk_cmp('=', p - q) for p, q in zip(x, y)]
    return mk_and(*fs)


def same_result(c, name, a, b, depth=0):
    """obliges that two results hold the same values"""
    if depth > 4:
        return
    if isinstance(a, (VList, SymSeq, list, tuple)):
        if not isinstance(b, (VList, SymSeq, list, tuple)):
            c.oblige(name, FALSE)
            return
        A, B = seq_of(a), seq_of(b)
        if len(A) != len(B) or any(isinstance(x, Gen) != isinstance(y, Gen) for x, y in zip(A, B)):
            c.oblige(f'{name}: as many', FALSE)
            return
        for i, (x, y) in enumerate(zip(A, B)):
            if isinstance(x, Gen):
                c.oblige(f'{name}: as many', mk_cmp('=', S.seg_count(x) - S.seg_count(y)))
                if x.filtered or y.filtered or not x.inc or not y.inc:
                    raise Unsupported('selected features')
                x, y = x.rep, y.rep
            else:
                x, y = x[1], y[1]
            same_result(c, f'{name}[{i}]', x, y, depth + 1)
        return
    if hasattr(a, '__dict__') and type(a).__module__.startswith('vspec_vsm'):
        c.oblige(f'{name}: same kind', is_(type(a), type(b)))
        if type(a) is not type(b):
            return
        c.oblige(f'{name}: not the same object', TRUE if a is not b else FALSE)
        for k, v in sorted(a.__dict__.items()):
            if k in ('gridmaker', 'rng'):
                continue
            c.oblige(f'{name}: same {k}', TRUE if k in b.__dict__ else FALSE)
            if k in b.__dict__:
                same_result(c, f'{name}.{k}', v, b.__dict__[k], depth + 1)
        return
    f = frozen_eq(freeze(a), freeze(b))
    if f == FALSE and freeze(a)[0] == 'O':
        raise Unsupported('result of another kind')
    c.oblige(f'{name}: same value', f)


def twice(P, c, mk, call, calls=2):
    """runs `call` on one generator and again, with equally seeded randomness, on a second one with equal settings.
    The n-th request of the second run has to equal the n-th request of the first; it then gets the same numbers."""
    start, comp = c.fresh_n, dict(c.compressed)
    ra, rb = NP.Generator('first'), NP.Generator('second')
    A, B = mk(ra), mk(rb)
    logs, outs = [], []
    for o, r, nm in ((A, ra, 'first'), (B, rb, 'second')):
        c.fresh_n, c.compressed = start, dict(comp)
        e0 = len(c.events)
        fr = Frame(o, ('rng',))
        res = []
        try:
            for _ in range(calls):
                res.append(call(o))
        except PathEnd:
            own(c, c.events[e0:], r, nm)
            raise
        own(c, c.events[e0:], r, nm)
        c.oblige(f'{nm}: keeps its random generator', is_(o.__dict__.get('rng', getattr(o, 'rng', None)), r))
        fr.check(c, f'{nm} generator')
        logs.append([e for e in c.events[e0:] if e[0] == 'draw'])
        outs.append(res)
    x, y = logs
    if len(x) != len(y) and c.havocs:
        raise Unsupported('the two runs meet different loop states')
    c.oblige('the same number of random draws', TRUE if len(x) == len(y) else FALSE)
    for i, (a, b) in enumerate(zip(x, y)):
        c.oblige(f'draw {i + 1} is the same request', same_draw(a, b))
        if a[5] != b[5]:
            raise Unsupported('draws cannot be aligned')
    for i, (a, b) in enumerate(zip(*outs)):
        same_result(c, f'result {i + 1}', a, b)


def N(nm='n'):
    return Sym(var(nm, sign='pos', isint=True), True)


def R():
    return qty('rstar', U.m, 'pos')[0]


def tm():
    return qty('t', U.s, 'nneg')[0]


def add(name, funcs, mk, call, calls=2, prep=None):
    def f(P, c):
        if prep:
            prep(P, c)
        twice(P, c, lambda r: mk(P, c, r), lambda o: call(o, c), calls)
    unit('C24', name, funcs)(f)


def norad(L):
    for x in L:
        x.__dict__.pop('r', None)       # distances on the grid: a function of the coordinates (C06, C14)
    return L


for _dist in ('iso', 'solar'):
    def _mk(dist):
        mk = lambda P, c, r: mk_spotgen(P, c, dist=dist, rng=r)[0]
        add(f'spots ({dist})', [SG + 'generate_spots', SG + 'get_coordinates', SG + '__init__'], mk, lambda o, c: o.generate_spots(N()), 1)
        add(f'three spots after two spots ({dist})', [SG + 'generate_spots', SG + 'get_coordinates'], mk, lambda o, c: norad(list(o.generate_spots(2)) + list(o.generate_spots(3))), 1)
        add(f'coordinates of spots ({dist})', [SG + 'get_coordinates'], mk, lambda o, c: tuple(o.get_coordinates(N())))
    _mk(_dist)


def gen_contract(P, c):
    """contract of generate_spots / generate_faculae (above): a function of the settings, the number and the draws"""
    def g(self, n):
        c.events.append(('draw', self.rng, 'features', (n,), None, c.fresh_name('features'), []))
        return (('features', c.fresh_n),)
    c.patch.set(P.spots.SpotGenerator, 'generate_spots', g)
    c.patch.set(P.faculae.FaculaGenerator, 'generate_faculae', g)


def births(o, c):
    r = (o.birth_spots if hasattr(o, 'birth_spots') else o.birth_faculae)(tm(), R())
    return Sym(var('features!%d' % seq_of(r)[0][1][1]))


add('births of spots', [SG + 'birth_spots', SG + 'get_n_spots_to_birth'], lambda P, c, r: small(c, *mk_spotgen(P, c, rng=r)), births, 2, gen_contract)
add('births of faculae', [FG + 'birth_faculae', FG + 'get_n_faculae_expected'], lambda P, c, r: mk_facgen(P, c, rng=r)[0], births, 2, gen_contract)


def small(c, s, v):
    c.assume(mk_cmp('<=', v['A0'] - v['AM']))
    c.assume(mk_cmp('>=', f_log(v['AM']) - f_log(v['A0'])))     # axiom instance: log is increasing
    return s


add('faculae', [FG + 'generate_faculae', FG + 'get_coords', FG + '__init__'], lambda P, c, r: mk_facgen(P, c, rng=r)[0], lambda o, c: o.generate_faculae(N()))
add('coordinates of faculae', [FG + 'get_coords'], lambda P, c, r: mk_facgen(P, c, rng=r)[0], lambda o, c: tuple(o.get_coords(N())))

_fl = lambda P, c, r: mk_flaregen(P, c, rng=r)[0]
add('peak times of flares', [FL + 'get_peaks', FL + '__init__'], lambda P, c, r: mk_flaregen(P, c, rng=r, cluster=num('cluster', 'nneg'))[0], lambda o, c: o.get_peaks(N('nflares')), 1)
add('widths of flares', [FL + 'gen_fwhm'], _fl, lambda o, c: o.gen_fwhm(N()))
add('temperatures of flares', [FL + 'gen_teffs'], _fl, lambda o, c: o.gen_teffs(N()))
add('coordinates of flares', [FL + 'gen_coords'], _fl, lambda o, c: tuple(o.gen_coords(N())))


def peaks_contract(P, c):
    def pk(self, n):
        nm = c.fresh_name('xpeak')
        c.events.append(('draw', self.rng, 'peaks', (n,), None, nm, []))
        return Array((V.dim_rat(n),), lambda ix: var(nm, *ix, sign='nneg'))
    c.patch.set(P.flares.FlareGenerator, 'get_peaks', pk)


add('series of flares', [FL + 'generate_flare_series', FL + 'get_ntotal', FL + 'quantile_func', FL + 'gen_fwhm', FL + 'gen_teffs', FL + 'gen_coords'], _fl,
    lambda o, c: o.generate_flare_series(tm()), 1, peaks_contract)


# ------------------------------------------------------------------ mature spots
for _static in (True, False):
    def _mk(static):
        def mature(P, c):
            rng = NP.Generator('rng')
            sg, v = mk_spotgen(P, c, static=static, rng=rng)
            small(c, sg, v)
            cov = num('cov', 'nneg')
            c.assume(mk_cmp('<=', var('cov', sign='nneg') - 1))
            Rs = R()

            def gen(self, n):
                x = P.spots.StarSpot.__new__(P.spots.StarSpot)
                am = var(c.fresh_name('amax'), sign='pos')
                c.assume(mk_cmp('>=', am - v['A0']))
                c.events.append(('draw', self.rng, 'features', (n,), None, None, []))
                x.__dict__.update(area_max=Quantity(Sym(am), U.m ** 2), area_current=Quantity(Sym(v['A0']), U.m ** 2), is_growing=True, growth_rate=self.growth_rate, decay_rate=self.decay_rate, _AM=am)
                return (x,)
            c.patch.set(P.spots.SpotGenerator, 'generate_spots', gen)

            def age(self, time):
                a = var(c.fresh_name('aged'), sign='nneg')
                c.assume(mk_cmp('<=', a - self.__dict__['_AM']))
                self.__dict__['area_current'] = Quantity(Sym(a), U.m ** 2)
            c.patch.set(P.spots.StarSpot, 'age', age)
            c.while_specs.append(Mature(c, Rs, PI * 4 * var('cov', sign='nneg')))
            fr = Frame(sg, ('rng',))
            try:
                sg.generate_mature_spots(cov, Rs)
            except PathEnd:
                own(c, c.events, rng, 'iteration')
                raise
            own(c, c.events, rng, 'all')
            c.oblige('keeps its random generator', is_(sg.rng, rng))
            fr.check(c, 'generator')
        unit('C24', 'mature spots use the given random generator only ' + ('(static)' if static else '(aging)'), [SG + 'generate_mature_spots'])(mature)
    _mk(_static)


# ------------------------------------------------------------------ granulation
@unit('C24', 'granulation is a function of its settings, seed and times', ['granules.Granulation.get_coverage', 'granules.Granulation._build_gp', 'granules.build_gp', 'granules.Granulation.__init__'])
def gran(P, c):
    def mk():
        return P.granules.Granulation(num('mean'), num('amp'), qty('period', U.hr, 'pos')[0], qty('dteff', U.K)[0], num('seed', isint=True))
    a, b = mk(), mk()
    logs, outs = [], []
    start = c.fresh_n
    for o in (a, b):
        fr = Frame(o)
        c.fresh_n = start
        e0 = len(c.events)
        t, dims = times()
        outs.append(o.get_coverage(t))
        logs.append([e for e in c.events[e0:] if e[0] == 'gp.sample'])
        c.oblige('no random numbers from elsewhere', TRUE if not [e for e in c.events[e0:] if e[0] == 'draw'] and not [x for x in c.nondet if x.startswith('global')] else FALSE)
        fr.check(c, 'granulation')
    if [len(x) for x in logs] != [1, 1]:
        raise Unsupported('not one sample of the process')
    (x,), (y,) = logs
    if type(x[2]).__name__ != 'JKey' or type(y[2]).__name__ != 'JKey':
        raise Unsupported('random key of another kind')
    kx, ky = tree_of(x[2].seed), tree_of(y[2].seed)
    c.oblige('equal seeds give equal random keys', same(kx, ky))
    c.oblige('the random key comes from the seed of the model', TRUE if "'seed'" in repr(kx.key) or 'seed' in repr(kx) else FALSE)
    p = gp(dims)
    g, h = x[1], y[1]
    c.oblige('same times', feq(at(g.X, p), at(h.X, p)))
    c.oblige('same mean', same(tree_of(g.mean), tree_of(h.mean)))
    for k in ('scale', 'freq'):
        if not hasattr(g.kernel, k):
            raise Unsupported('kernel of another shape')
        c.oblige(f'same {k} of the kernel', feq(at(getattr(g.kernel, k), (RZERO,)), at(getattr(h.kernel, k), (RZERO,))))
    c.oblige('same noise', feq(tree_of(g.diag), tree_of(h.diag)))


# ------------------------------------------------------------------ star
for _k in KINDS:
    def _mk(k):
        def star(P, c):
            st = mk_star(P, c, k, real_grid(P, c, 'spiral', 'o'), gens=False)[0]
            for nm in ('spot_generator', 'fac_generator', 'flare_generator'):
                o = getattr(st, nm)
                c.oblige(f'the {nm} created by the star uses the random generator of the star', is_(getattr(o, 'rng', None), st.rng))
            c.oblige('that is the one it was given', TRUE if st.rng.tag == 'rng' else FALSE)
            c.oblige('no random numbers are drawn', TRUE if not [e for e in c.events if e[0] == 'draw'] else FALSE)
        unit('C24', f'generators created by the star share its random generator ({k})', ['star.Star.__init__', SG + 'off', FG + 'off', FL + 'off'])(star)

        def given(P, c):
            st = mk_star(P, c, k, real_grid(P, c, 'spiral', 'o'), gens=True)[0]
            c.oblige('given generators keep their random generator', TRUE if st.spot_generator.rng.tag == 'rng' and st.fac_generator.rng.tag == 'rng' else FALSE)
        unit('C24', f'given generators keep their random generator ({k})', ['star.Star.__init__'])(given)
    _mk(_k)
