"""C16  painting faculae"""
from lib import *
from c13 import seq_of

FN = ['star.Star.add_faculae_to_map']
LOW, HIGH = rat(2300), rat(3900)


def mk_ite(f, a, b):
    return a if f == TRUE else b if f == FALSE else Ite(f, a, b)


class SpotsStub:
    """SpotCollection by contract (C10): some surface map"""

    def __init__(self, st):
        self.st = st

    def map_pixels(self, star_rad, star_teff):
        return Quantity(Array(self.st.dims, lambda ix: var('spotmap', *ix, sign='pos')), U.K)


class FacsStub:
    def __init__(self, seq):
        self.faculae = seq


def mk_fac(P, c, grid, tag, k=(), two=True):
    """a facula in any state; its wall/floor shares and offsets by the contract of C15, its pixel
    distances by the contract of C06"""
    st = grid.__dict__['_stub']
    Fc = P.faculae.Facula
    f = Fc.__new__(Fc)
    v = lambda n, s='any', i=False: var(n + tag, *k, sign=s, isint=i)
    q = lambda n, base, s: Quantity(Sym(v(n, s) / base.scale), base)
    d = f.__dict__
    d['_spec'] = dict(tag=tag, k=tuple(k), two=two, dist=lambda ix: var('fdist' + tag, *k, *ix, sign='nneg'),
                      dw=v('dwall', 'any', True), df=v('dfloor', 'any', True) if two else v('dwall', 'any', True), frac=v('wfrac', 'nneg') if two else RONE, calls=[])
    d['radius'] = q('frad', U.km, 'pos')
    d['r_max'] = q('frmax', U.km, 'pos')
    d['lifetime'] = q('flife', U.hr, 'pos')
    d['depth'] = q('fdepth', U.km, 'nneg')
    d['lat'], d['lon'] = q('flat', U.rad, 'any'), q('flon', U.rad, 'any')
    d['is_growing'] = SymBool(BAtom('fgrow' + tag, tuple(k)))
    d['gridmaker'] = grid
    c.families['wfrac' + tag] = lambda *ix: [mk_cmp('<=', var('wfrac' + tag, *ix, sign='nneg') - 1)]
    if two:
        c.families['dwall' + tag] = lambda *ix: [mk_not(mk_cmp('=', var('dwall' + tag, *ix, isint=True) - var('dfloor' + tag, *ix, isint=True)))]
    return f


def stubs(P, c, clip=True):
    def _r(self):
        s = self.__dict__['_spec']
        return Quantity(Array(self.gridmaker.__dict__['_stub'].dims, lambda ix: s['dist'](ix)), U.rad)

    def frac(self, angle):
        s = self.__dict__['_spec']
        s['calls'].append(si(angle) if has_kind(angle, U.rad) else None)
        kw, kf = Quantity(Sym(s['dw'], True), U.K), Quantity(Sym(s['df'], True), U.K)
        one = U.dimensionless_unscaled
        if not s['two']:
            return VDict([(kw, Quantity(Sym(RONE), one))])
        return VDict([(kw, Quantity(Sym(s['frac']), one)), (kf, Quantity(Sym(RONE - s['frac']), one))])

    def clip_teff(teff):
        return Quantity(V.mksym(tmap(lambda z: z, tmin(tmax(si(teff), LOW), HIGH))), U.K)
    c.patch.set(P.faculae.Facula, '_r', property(_r))
    c.patch.set(P.faculae.Facula, 'fractional_effective_area', frac)
    if clip:
        c.patch.set(P.star, 'clip_teff', clip_teff)


def opaque_mu(c, g, la, lo):
    """the cosine map of the grid by contract: the true cosine (C06), named mu.  Seen from any other point it is
    computed"""
    st = g.__dict__['_stub']
    c.families['mu'] = lambda *ix: [mk_cmp('<=', var('mu', *ix) - 1), mk_cmp('>=', var('mu', *ix) + 1)]

    def cosang(self, a, b):
        if c.entails(mk_and(feq(si(a), si(la)), feq(si(b), si(lo)))):
            return Array(st.dims, lambda ix: var('mu', *ix))
        return mu_array(st, si(a), si(b))
    c.patch.set(type(g), 'cos_angle_from_disk_center', c.ghost(cosang, 'mu'))
    return lambda ix: var('mu', *ix)


def clipped(T, d):
    return tmin(tmax(T + d, LOW), HIGH)


def inside(f, RS, p):
    s = f.__dict__['_spec']
    return mk_cmp('<=', s['dist'](p) - si(f.__dict__['radius']) / RS)


def mk_star(P, c, seq, two_d=False):
    g = mk_grid(P, c, two_d=two_d)
    star = P.star.Star.__new__(P.star.Star)
    R, RS = qty('rstar', U.m, 'pos')
    TS, T0 = qty('tstar', U.K, 'pos', False)
    star.__dict__.update(gridmaker=g, radius=R, teff=TS, spots=SpotsStub(g.__dict__['_stub']))
    la, LA = angle('lat0')
    lo, LO = angle('lon0')
    star.__dict__['faculae'] = FacsStub(seq(g))
    return star, g, RS, T0, la, lo


for _two_keys in (True, False):
    for _real in (False, True):
        for _two_d in (False, True):
            if _two_d and (_real or not _two_keys):
                continue

            def _mk(two_keys, real, two_d):
                def one(P, c):
                    stubs(P, c, not real)
                    star, g, RS, T0, la, lo = mk_star(P, c, lambda g: (mk_fac(P, c, g, 'a', (), two_keys),), two_d)
                    st = g.__dict__['_stub']
                    f = star.faculae.faculae[0]
                    s = f.__dict__['_spec']
                    fr, fs = Frame(f), Frame(star)
                    muT = opaque_mu(c, g, la, lo)
                    m = star.add_faculae_to_map(la, lo)
                    p = gp(st)
                    ins = inside(f, RS, p)
                    c.oblige('a temperature map of the shape of the grid', mk_and(TRUE if has_kind(m, U.K) else FALSE, same_shape(m, st.dims)))
                    want = si(P.helpers.get_angle_between(la, lo, f.lat, f.lon))
                    c.oblige('wall share taken at the angle of the facula from the disk center', mk_and(*[same(a, want) if a is not None else FALSE for a in s['calls']]))
                    TW, TF = pick(c, clipped(T0, s['dw'])), pick(c, clipped(T0, s['df']))
                    mp = at(m, p)
                    c.oblige('pixels outside keep the map of the spots', mk_implies(mk_not(ins), feq(mp, var('spotmap', *p, sign='pos'))))
                    c.oblige('pixels inside become wall or floor, clipped to the supported range', mk_implies(ins, mk_or(feq(mp, TW), feq(mp, TF))))
                    q = tuple(var(f'q{i}', sign='nneg', isint=True) for i in range(len(st.dims)))
                    mq = at(m, q)
                    c.oblige('wall pixels are at least as far from the disk center as floor pixels',
                             mk_implies(mk_and(ins, inside(f, RS, q), feq(mp, TW), feq(mq, TF), mk_not(feq(TW, TF))), fle(muT(p), muT(q))))
                    fr.check(c, 'painting: facula')
                    fs.check(c, 'painting: star')
                    c.oblige('the faculae of the star stay the same', TRUE if star.faculae.faculae == (f,) else FALSE, 'frame')
                unit('C16', f"one facula repaints its own pixels ({'two regions' if two_keys else 'one region'}{', real clipping' if real else ''}{', two-dimensional grid' if two_d else ''})",
                     FN + ['faculae.Facula.map_pixels', 'faculae.Facula.angular_radius', 'helpers.get_angle_between'] + (['helpers.clip_teff'] if real else []))(one)
            _mk(_two_keys, _real, _two_d)


@unit('C16', 'the number of wall pixels matches the wall share', FN + ['faculae.Facula.map_pixels'])
def count(P, c):
    stubs(P, c)
    star, g, RS, T0, la, lo = mk_star(P, c, lambda g: (mk_fac(P, c, g, 'a'),))
    st = g.__dict__['_stub']
    f = star.faculae.faculae[0]
    s = f.__dict__['_spec']
    muT = opaque_mu(c, g, la, lo)
    m = star.add_faculae_to_map(la, lo)
    ev = [e for e in c.events if e[0] == 'percentile']
    p = gp(st)
    if not ev:
        c.oblige('no pixel inside', mk_not(inside(f, RS, p)))
        return
    if len(ev) != 1:
        raise Unsupported('several percentiles')
    B = ev[0][1]
    TW, TF = clipped(T0, s['dw']), clipped(T0, s['df'])
    c.assume(mk_not(feq(TW, TF)))
    c.oblige('wall pixels are those not above the border cosine', mk_implies(inside(f, RS, p), mk_iff(feq(at(m, p), TW), fle(muT(p), B))))
    cnt = lambda fn: tree_of(V.a_sum(Array(st.dims, fn, 'b')))
    n = cnt(lambda ix: inside(f, RS, ix))
    W = cnt(lambda ix: mk_and(fle(muT(ix), B), inside(f, RS, ix)))
    L = cnt(lambda ix: mk_and(flt(muT(ix), B), inside(f, RS, ix)))
    c.note('counting: sums of pixelwise equivalent indicators are equal (the pixelwise equivalence is proved)')
    c.oblige('not fewer wall pixels than the share, less one', fle(n * s['frac'] - 1, W))
    c.oblige('not more than the share plus one, apart from the pixels tied at the border', fle(L, n * s['frac'] + 1))


@unit('C16', 'no facula: the map of the spots', FN)
def none(P, c):
    stubs(P, c)
    star, g, RS, T0, la, lo = mk_star(P, c, lambda g: ())
    st = g.__dict__['_stub']
    m = star.add_faculae_to_map(la, lo)
    p = gp(st)
    c.oblige('the map of the spots', feq(at(m, p), var('spotmap', *p, sign='pos')))


@unit('C16', 'of two overlapping faculae the later one is painted on top', FN)
def two(P, c):
    stubs(P, c)
    star, g, RS, T0, la, lo = mk_star(P, c, lambda g: (mk_fac(P, c, g, 'a'), mk_fac(P, c, g, 'b')))
    st = g.__dict__['_stub']
    fs = star.faculae.faculae
    frs = [Frame(f) for f in fs]
    opaque_mu(c, g, la, lo)
    for f in fs:  # clipping: the other units
        for x in ('dw', 'df'):
            t = T0 + f.__dict__['_spec'][x]
            c.assume(mk_and(mk_cmp('>=', t - LOW), mk_cmp('<=', t - HIGH)))
    m = star.add_faculae_to_map(la, lo)
    p = gp(st)
    a, b = fs
    ia, ib = inside(a, RS, p), inside(b, RS, p)
    mp = at(m, p)
    TW, TF = [[T0 + f.__dict__['_spec'][x] for f in fs] for x in ('dw', 'df')]
    c.oblige('outside both', mk_implies(mk_not(mk_or(ia, ib)), feq(mp, var('spotmap', *p, sign='pos'))))
    c.oblige('inside the last', mk_implies(ib, mk_or(feq(mp, TW[1]), feq(mp, TF[1]))))
    c.oblige('inside the first only', mk_implies(mk_and(ia, mk_not(ib)), mk_or(feq(mp, TW[0]), feq(mp, TF[0]))))
    for i, fr in enumerate(frs):
        fr.check(c, f'painting: facula {i}')


class PaintFold:
    """loop invariant of add_faculae_to_map: after j faculae, pixel p holds the wall or floor temperature of the
    last of them that contains it, else the spot map.  Base and step are checked for a generic facula and pixel."""

    def __init__(self, c, gen, RS, T0, dims):
        c.ghosts['PAINTED'] = False
        self.c, self.gen, self.RS, self.T0, self.dims = c, gen, RS, T0, dims

    def __call__(self, loop, name, init, ph, pf, val, s):
        c = self.c
        if not (isinstance(ph, Quantity) and isinstance(ph.value, Array) and isinstance(val, Quantity) and isinstance(val.value, Array)):
            return None
        if s.src != self.gen.src or len(val.value.dims) != len(self.dims):
            return None
        p = gp(self.dims)
        old, new, ini = at(Quantity(Array(self.dims, pf), ph.unit), p), at(val, p), at(init, p)
        f = self.gen.rep
        ins = inside(f, self.RS, p)
        sp = f.__dict__['_spec']
        TW, TF = clipped(self.T0, sp['dw']), clipped(self.T0, sp['df'])
        base = feq(ini, var('spotmap', *p, sign='pos'))
        step = mk_and(mk_implies(mk_not(ins), feq(new, old)), mk_implies(ins, mk_or(feq(new, TW), feq(new, TF))))
        if not (c.entails(base) and c.entails(step)):
            return None
        c.oblige(f'loop invariant of {name}: base', base, 'inv')
        c.oblige(f'loop invariant of {name}: step', step, 'inv')
        c.ghosts['PAINTED'] = True
        return Quantity(Array(self.dims, lambda ix: var('PAINTED', *ix)), U.K)


@unit('C16', 'any number of faculae: the last one containing a pixel decides it', FN)
def many(P, c):
    stubs(P, c)
    n = var('nfac', sign='nneg', isint=True)
    hold = {}

    def seq(g):
        hold['g'] = mk_gen(n, lambda k: mk_fac(P, c, g, 'k', (k,)), 'facs')
        return SymSeq([hold['g']], 'tuple')
    star, g, RS, T0, la, lo = mk_star(P, c, seq)
    st = g.__dict__['_stub']
    c.fold_specs.append(PaintFold(c, hold['g'], RS, T0, st.dims))
    fr = Frame(hold['g'].rep)
    opaque_mu(c, g, la, lo)
    m = star.add_faculae_to_map(la, lo)
    p = gp(st)
    if c.entails(mk_cmp('<', n - 1)):
        c.oblige('no facula: the map of the spots', feq(at(m, p), var('spotmap', *p, sign='pos')))
        return
    c.oblige('the value of the loop invariant at the end', feq(at(m, p), var('PAINTED', *p)))
    fr.check(c, 'painting: any facula')
