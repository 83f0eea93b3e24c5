"""C23  granulation coverage"""
from lib import *

GR = 'granules.'


def is_nan(t):
    return tform(lambda l: TRUE if l is NAN else FALSE, t)


def clamp(t):
    return tmin(tmax(t, RZERO), RONE)


def times(name='t', tag=''):
    n = var('nt' + tag, sign='nneg', isint=True)
    un = sunit('time' + tag, U.hr)
    return Quantity(Array((n,), lambda ix: var('time' + tag, *ix) / un.scale), un), (n,)


@unit('C23', 'clamping to [0,1]', [GR + 'save_cast_coverage'])
def cast(P, c):
    n = var('nt', sign='nneg', isint=True)
    src = lambda ix: mk_ite(BAtom('isnan', tuple(ix)), NAN, mk_ite(BAtom('isinf', tuple(ix)), mk_ite(BAtom('neg', tuple(ix)), NINF, PINF), var('cov', *ix)))
    a = Array((n,), src)
    out = P.granules.save_cast_coverage(a)
    p = gp((n,))
    c.oblige('one value per time', same_shape(out, (n,)))
    v, o = src(p), at(out, p)
    c.oblige('NaN stays NaN', mk_implies(is_nan(v), is_nan(o)))
    c.oblige('a number stays a number in [0,1]', mk_implies(mk_not(is_nan(v)), mk_and(mk_not(is_nan(o)), fle(RZERO, o), fle(o, RONE))))
    c.oblige('values in [0,1] are unchanged', mk_implies(mk_and(fle(RZERO, v), fle(v, RONE)), feq(o, v)))
    c.oblige('too small values become zero, too large ones one', mk_and(mk_implies(flt(v, RZERO), feq(o, RZERO)), mk_implies(flt(RONE, v), feq(o, RONE))))


def mk(P, c):
    mean, amp = num('mean'), num('amp')
    per, PER = qty('period', U.hr, 'pos')
    dt, DT = qty('dteff', U.K)
    seed = num('seed', isint=True)
    g = P.granules.Granulation(mean, amp, per, dt, seed)
    return g, mean, amp, PER, DT, dt, seed


@unit('C23', 'the model evaluates the configured process at the given times in any unit', [GR + 'Granulation.__init__', GR + 'Granulation.get_coverage', GR + 'Granulation._build_gp', GR + 'build_gp', GR + 'save_cast_coverage', GR + 'GranulationKernel.__init__'])
def model(P, c):
    g, mean, amp, PER, DT, dt, seed = mk(P, c)
    t, dims = times()
    fr, ft = Frame(g), freeze(t)
    out = g.get_coverage(t)
    fr.check(c, 'get_coverage: model')
    c.oblige('the times are not modified', frozen_eq(ft, freeze(t)), 'frame')
    s = [e for e in c.events if e[0] == 'gp.sample']
    if len(s) != 1:
        raise Unsupported('not one sample of the process')
    gpr, key = s[0][1], s[0][2]
    p = gp(dims)
    k = gpr.kernel
    if type(key).__name__ != 'JKey':
        raise Unsupported('random key of another kind')
    # times in hours against periods in hours: only their ratio matters together with the amplitude law below
    h = U.hr.scale
    q = tuple(var('other_time_index', sign='nneg', isint=True) for _ in p)
    c.assume(mk_cmp('<', q[0] - dims[0]))
    # the covariance depends on differences of times only (unit 'granulation kernel'), so a common shift does not matter
    c.oblige('evaluated at the given times (hours)', feq(tmap(lambda a, b: l_add(a, -b), at(gpr.X, p), at(gpr.X, q)), (var('time', *p) - var('time', *q)) / h))
    c.oblige('around the configured mean', same(tree_of(gpr.mean), tree_of(mean)))
    if not hasattr(k, 'scale') or not hasattr(k, 'freq'):
        raise Unsupported('kernel of another shape')
    z = (RZERO,)
    c.oblige('amplitude of the kernel', feq(at(k.scale, z), tree_of(amp)))
    c.oblige('frequency of the kernel (per hour)', feq(at(k.freq, z), h / PER))
    c.oblige('no additional noise', feq(tree_of(gpr.diag), RZERO))
    o = at(out, p)
    c.oblige('one value per time', same_shape(out, dims))
    c.oblige('a number in [0,1] or NaN', mk_or(is_nan(o), mk_and(fle(RZERO, o), fle(o, RONE))))


@unit('C23', 'sample of the process is passed on, clamped', [GR + 'Granulation.get_coverage', GR + 'save_cast_coverage'])
def passed(P, c):
    g, *_ = mk(P, c)
    t, dims = times()
    got = []
    real = loader.JGP.sample

    def sample(self, key, shape=None, **kw):
        r = real(self, key, shape, **kw)
        got.append(V.snap(r))
        return r
    c.patch.set(loader.JGP, 'sample', sample)
    o = g.get_coverage(t)
    if len(got) != 1:
        raise Unsupported('not one sample')
    p = gp(dims)
    v, x = got[0].at(p), at(o, p)
    c.oblige('NaN exactly where the process gives NaN', mk_iff(is_nan(v), is_nan(x)))
    c.oblige('else the value limited to [0,1]', mk_implies(mk_not(is_nan(v)), feq(x, clamp(v))))


@unit('C23', 'granulation kernel', [GR + 'GranulationKernel.evaluate', GR + 'GranulationKernel.__init__'])
def kernel(P, c):
    s, f = var('scale', sign='pos'), var('per', sign='pos')
    k = P.granules.GranulationKernel(Sym(s), Sym(f))
    x, y = num('x1'), num('x2')
    r = k.evaluate(x, y)
    for a, b in ((x.t, y.t),):
        d = Ite(mk_cmp('>=', a - b), a - b, b - a)
        w = tmap(lambda q: q / f / f_sqrt(rat(2)), d)
        want = tmap(lambda q: s / f * f_exp(-q) * f_cos(q - PI / 4), w)
        c.oblige('covariance of the granulation process', feq(at(r, ()), want) if not isinstance(r, Array) or not r.dims else feq(at(r, (RZERO,)), want))


def star_with(P, c, gran):
    star = P.star.Star.__new__(P.star.Star)
    star.__dict__['granulation'] = gran
    return star


@unit('C23', 'through the star: a number in [0,1], zero without temperature difference or process', ['star.Star.get_granulation_coverage', GR + 'Granulation.get_coverage'])
def star(P, c):
    g, mean, amp, PER, DT, dt, seed = mk(P, c)
    st = star_with(P, c, g)
    t, dims = times()
    raw = []

    def cov(self, time):
        """contract of get_coverage: one value per time, NaN or in [0,1]"""
        c.families['gcov'] = lambda *ix: [mk_cmp('<=', var('gcov', *ix, sign='nneg') - 1)]
        if not c.entails(mk_and(same_shape(time, dims), feq(at(time, gp(dims)), var('time', *gp(dims))))):
            raise Unsupported('other times')
        a = Array(dims, lambda ix: mk_ite(BAtom('covnan', tuple(ix)), NAN, var('gcov', *ix, sign='nneg')))
        raw.append(1)
        return a
    c.patch.set(P.granules.Granulation, 'get_coverage', cov)
    fr = Frame(g)
    o = st.get_granulation_coverage(t)
    fr.check(c, 'granulation model')
    p = gp(dims)
    c.oblige('one value per time', same_shape(o, dims))
    x = at(o, p)
    c.oblige('a number in [0,1]', mk_and(mk_not(is_nan(x)), fle(RZERO, x), fle(x, RONE)))
    off = mk_or(mk_cmp('=', DT), mk_and(mk_cmp('=', mean.t), mk_cmp('=', amp.t)))
    c.oblige('zero when switched off', mk_implies(off, feq(x, RZERO)))
    c.oblige('otherwise the value of the model, zero where that is NaN', mk_implies(mk_not(off), feq(x, mk_ite(BAtom('covnan', tuple(p)), RZERO, var('gcov', *p, sign='nneg')))))


@unit('C23', 'no model: zero', ['star.Star.get_granulation_coverage'])
def nomodel(P, c):
    st = star_with(P, c, None)
    t, dims = times()
    o = st.get_granulation_coverage(t)
    c.oblige('one value per time', same_shape(o, dims))
    c.oblige('zero', feq(at(o, gp(dims)), RZERO))


@unit('C23', 'switched off: zero', ['star.Star.get_granulation_coverage', GR + 'Granulation.off'])
def off(P, c):
    g = P.granules.Granulation.off(seed=num('seed', isint=True))
    st = star_with(P, c, g)
    t, dims = times()
    o = st.get_granulation_coverage(t)
    c.oblige('one value per time', same_shape(o, dims))
    c.oblige('zero', feq(at(o, gp(dims)), RZERO))


@unit('C23', 'a star without granulation gets the switched off model', ['star.Star.__init__', GR + 'Granulation.off'])
def default(P, c):
    import c14
    old = c14.real_grid(P, c, 'spiral' if 'spiral' in c14.KINDS else c14.KINDS[0], 'o')
    star, _, _ = c14.mk_star(P, c, c14.KINDS[0], old, False)
    t, dims = times()
    o = star.get_granulation_coverage(t)
    c.oblige('one value per time', same_shape(o, dims))
    c.oblige('zero', feq(at(o, gp(dims)), RZERO))
