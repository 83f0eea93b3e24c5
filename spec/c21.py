"""C21  selection of flares in a time window"""
from lib import *
from c13 import seq_of, items
from c20 import one

FC = 'flares.FlareCollection.'
MASK = [FC + 'mask', FC + 'index', FC + '__init__']
SEL = MASK + [FC + 'get_flares_in_timeperiod']
VIS = SEL + [FC + 'get_visible_flares_in_timeperiod']
INT = VIS + [FC + 'get_flare_integral_in_timeperiod']


def flare(P, c, tag, k=()):
    """a flare with arbitrary parameters, each in an arbitrary unit of its own"""
    v = {}

    def q(n, base, s='any', anyunit=True):
        x = v[n] = var('f' + n + tag, *k, sign=s)
        un = Unit(base.dims, var(f'unit_{n}{tag}', *k, sign='pos'), f'<unit of {n}>') if anyunit else base
        return Quantity(Sym(x / un.scale), un)
    f = P.flares.StellarFlare(q('fwhm', U.s, 'pos'), q('en', U.J, 'nneg'), q('lat', U.rad), q('lon', U.rad), q('teff', U.K, 'pos', False), q('tp', U.s))
    f.__dict__['_v'] = v
    return f


def window(P, c, pos=False):
    a, A = qty('tstart', U.s)
    b, B = qty('tfinish', U.s)
    c.assume(mk_cmp('>' if pos else '>=', B - A))
    return a, b, A, B


def selected(f, A, B):
    v = f.__dict__['_v']
    return mk_and(mk_cmp('>', v['tp'] + v['fwhm'] * 20 - A), mk_cmp('<', v['tp'] - v['fwhm'] * 10 - B))


def subobs(given):
    if not given:
        return None, RZERO, RZERO
    la, LA = angle('sublat')
    lo, LO = angle('sublon')
    return VDict([('lat', la), ('lon', lo)]), LA, LO


def facing(f, LA, LO):
    v = f.__dict__['_v']
    return mk_cmp('>', mu_true(LA, LO, v['lat'], v['lon']))


def generic(P, c, tag='g'):
    n = var('nfl' + tag, sign='nneg', isint=True)
    return mk_gen(n, lambda k: flare(P, c, tag, (k,)), tag)


def member(c, got, g, what, cond):
    """the generic flare is in the result exactly under cond; the result consists of nothing else"""
    segs = seq_of(got)
    ok = len(segs) == 1 and isinstance(segs[0], Gen) and segs[0].src == g.src
    kept = ok and segs[0].inc
    dropped = len(segs) == 0 or (ok and not segs[0].inc)
    if not kept and not dropped:
        raise Unsupported('shape of the selection')
    c.oblige(what, mk_iff(cond, TRUE if kept else FALSE))
    return segs[0].rep if kept else None


def call(col, fn, a, b, so):
    return getattr(col, fn)(a, b) if so is None else getattr(col, fn)(a, b, so)


# -------------------------------------------------------------- any collection
@unit('C21', 'mask: peak + 20 FWHM after the start and peak - 10 FWHM before the end, for any collection', MASK)
def mask(P, c):
    g = generic(P, c)
    c.assume(mk_cmp('>=', g.n - 1))
    col = P.flares.FlareCollection(VList(segs=[g]))
    a, b, A, B = window(P, c)
    m = col.mask(a, b)
    c.oblige('one flag per flare', same_shape(m, (g.n,)))
    c.oblige('flag', mk_iff(form_of(at(m, (g.k,))), selected(g.rep, A, B)))


@unit('C21', 'flares of a window, any collection', SEL)
def sel(P, c):
    g = generic(P, c)
    c.assume(mk_cmp('>=', g.n - 1))
    col = P.flares.FlareCollection(VList(segs=[g]))
    fr, ff = Frame(col), Frame(g.rep)
    a, b, A, B = window(P, c)
    r = member(c, col.get_flares_in_timeperiod(a, b), g, 'selected exactly when in the window', selected(g.rep, A, B))
    c.oblige('the flare itself', is_(r, g.rep) if r is not None else TRUE)
    fr.check(c, 'collection')
    ff.check(c, 'flare')


for _so in (True, False):
    def _mk(given):
        nm = '' if given else ' (default viewpoint)'

        def vis(P, c):
            g = generic(P, c)
            c.assume(mk_cmp('>=', g.n - 1))
            col = P.flares.FlareCollection(VList(segs=[g]))
            fr, ff = Frame(col), Frame(g.rep)
            a, b, A, B = window(P, c)
            so, LA, LO = subobs(given)
            r = member(c, call(col, 'get_visible_flares_in_timeperiod', a, b, so), g, 'selected exactly when in the window and on the facing hemisphere', mk_and(selected(g.rep, A, B), facing(g.rep, LA, LO)))
            c.oblige('the flare itself', is_(r, g.rep) if r is not None else TRUE)
            fr.check(c, 'collection')
            ff.check(c, 'flare')
        unit('C21', 'visible flares of a window, any collection' + nm, VIS)(vis)

        def integ(P, c):
            g = generic(P, c)
            c.assume(mk_cmp('>=', g.n - 1))
            log = stub_timearea(P, c)
            col = P.flares.FlareCollection(VList(segs=[g]))
            fr, ff = Frame(col), Frame(g.rep)
            a, b, A, B = window(P, c, True)
            so, LA, LO = subobs(given)
            r = member(c, call(col, 'get_flare_integral_in_timeperiod', a, b, so), g, 'one record exactly when in the window and on the facing hemisphere', mk_and(selected(g.rep, A, B), facing(g.rep, LA, LO)))
            if r is not None:
                record(c, r, g.rep, log, A, B, 'record')
            fr.check(c, 'collection')
            ff.check(c, 'flare')
        unit('C21', 'one time-area record per visible flare, any collection' + nm, INT)(integ)
    _mk(_so)


def stub_timearea(P, c):
    """contract of StellarFlare.get_timearea: some non-negative time-area (its value: next units); the call is recorded"""
    log = []

    def get_timearea(self, time):
        x = var(f'ta{len(log)}', sign='nneg')
        log.append((self, time, x))
        return Quantity(Sym(x / 3600 / 10 ** 6), U.hr * U.km ** 2)
    c.patch.set(P.flares.StellarFlare, 'get_timearea', get_timearea)
    return log


def record(c, r, f, log, A, B, what):
    if not isinstance(r, (VDict, dict)):
        raise Unsupported('record')
    te, ta = r['Teff'], r['timearea']
    c.oblige(what + ': own temperature', mk_and(TRUE if has_kind(te, U.K) else FALSE, feq(si(te), f.__dict__['_v']['teff'])))
    mine = [e for e in log if e[0] is f]
    if not mine:
        raise Unsupported('time-area by other means')
    c.oblige(what + ': own time-area integral', mk_or(*[feq(si(ta), e[2]) for e in mine]))
    for _, t, _ in mine:
        check_times(c, t, A, B, what)


def check_times(c, t, A, B, what):
    if not has_kind(t, U.s) or not isinstance(t.value, Array) or len(t.value.dims) != 1:
        raise Unsupported('sampling times')
    n = t.value.dims[0]
    c.oblige(what + ': at least two times', mk_cmp('>=', n - 2))
    c.oblige(what + ': from the start of the window', feq(at(t, (RZERO,)), A))
    c.oblige(what + ': to its end', feq(at(t, (n - 1,)), B))
    p = gp((n,))
    c.assume(mk_and(mk_cmp('>=', p[0]), mk_cmp('<=', p[0] - n + 2)))
    c.oblige(what + ': times increase', flt(at(t, p), at(t, (p[0] + 1,))))
    # int(window / 10 min) points, at least two: the widest step is that of two points over just under three resolutions
    c.oblige(what + ': steps of at most 30 minutes', fle(tmap(lambda x, y: l_add(x, -y), at(t, (p[0] + 1,)), at(t, p)), rat(1800)))


# -------------------------------------------------------------- small collections: order, exactness
for _n in (0, 1, 2):
    def _mk(n):
        def few(P, c):
            fs = [flare(P, c, f'{i}') for i in range(n)]
            log = stub_timearea(P, c)
            col = P.flares.FlareCollection(VList(list(fs)))
            a, b, A, B = window(P, c, True)
            so, LA, LO = subobs(True)
            got = items(col.get_flares_in_timeperiod(a, b))
            for i, f in enumerate(fs):
                c.oblige(f'flare {i} selected exactly when in the window', mk_iff(selected(f, A, B), TRUE if any(x is f for x in got) else FALSE))
            c.oblige('selection keeps the order, each flare once', TRUE if [id(x) for x in got] == [id(f) for f in fs if any(f is x for x in got)] else FALSE)
            if n < 2:
                vs = items(col.get_visible_flares_in_timeperiod(a, b, so))
                want = [f for f in got if c.decide(facing(f, LA, LO))]
                c.oblige('visible ones are those facing the observer, in order', TRUE if [id(x) for x in vs] == [id(x) for x in want] else FALSE)
                rec = items(col.get_flare_integral_in_timeperiod(a, b, so))
                c.oblige('one record each', TRUE if len(rec) == len(want) else FALSE)
                if len(rec) == len(want):
                    for i, (r, f) in enumerate(zip(rec, want)):
                        record(c, r, f, log, A, B, f'record {i}')
        unit('C21', f'collection of {n} flares', INT, kind='instance of the contract')(few)
    _mk(_n)


@unit('C21', 'two visible flares give two records, in order, whatever they have in common', [FC + 'get_flare_integral_in_timeperiod'], kind='instance of the contract')
def two(P, c):
    fs = [flare(P, c, f'{i}') for i in range(2)]
    log = stub_timearea(P, c)
    col = P.flares.FlareCollection(VList(list(fs)))
    a, b, A, B = window(P, c, True)
    so, LA, LO = subobs(True)
    seen = []

    def visible(self, tstart, tfinish, sub_obs_coords=None):
        seen.append((tstart, tfinish))
        return VList(list(fs))
    c.patch.set(P.flares.FlareCollection, 'get_visible_flares_in_timeperiod', visible)
    rec = items(col.get_flare_integral_in_timeperiod(a, b, so))
    if not seen:
        raise Unsupported('visible flares found by other means')
    for x, y in seen:
        c.oblige('the flares of that window', mk_and(feq(si(x), A), feq(si(y), B)))
    c.oblige('one record each', TRUE if len(rec) == 2 else FALSE)
    if len(rec) == 2:
        for i, (r, f) in enumerate(zip(rec, fs)):
            record(c, r, f, log, A, B, f'record {i}')


@unit('C21', 'a single flare is a collection of one', MASK)
def single(P, c):
    f = flare(P, c, '0')
    col = P.flares.FlareCollection(f)
    c.oblige('list of that flare', TRUE if [id(x) for x in items(col.flares)] == [id(f)] else FALSE)
    a, b, A, B = window(P, c)
    got = items(col.get_flares_in_timeperiod(a, b))
    c.oblige('selected exactly when in the window', mk_iff(selected(f, A, B), TRUE if got else FALSE))


@unit('C21', 'a flare with non-zero area anywhere in the window is selected', ['xoflares._flaremodelnp', FC + 'mask'], kind='lemma over the real code')
def complete(P, c):
    f = flare(P, c, '0')
    v = f.__dict__['_v']
    a, b, A, B = window(P, c)
    t = var('t')
    c.assume(mk_and(mk_cmp('>=', t - A), mk_cmp('<=', t - B)))
    x = (t - v['tp']) / v['fwhm']
    y = one(P, c, t, v['tp'], v['fwhm'], var('am', sign='nneg'))
    c.assume(mk_not(feq(y, RZERO)))
    got = items(P.flares.FlareCollection(f).get_flares_in_timeperiod(a, b))
    c.oblige('selected', TRUE if len(got) == 1 else FALSE)


# -------------------------------------------------------------- the integral
def stub_area(P, c):
    log = []

    def areacurve(self, time):
        log.append(time)
        n = time.value.dims[0]
        return Quantity(Array((n,), lambda ix: var('area', *ix, sign='nneg')), U.m ** 2)
    c.patch.set(P.flares.StellarFlare, 'areacurve', areacurve)
    return log


@unit('C21', 'get_timearea is the trapezoidal integral of its own area curve', ['flares.StellarFlare.get_timearea'])
def timearea(P, c):
    f = flare(P, c, '0')
    fr = Frame(f)
    log = stub_area(P, c)
    n = var('nt', sign='pos', isint=True)
    c.assume(mk_cmp('>=', n - 2))
    un = sunit('tt', U.s)
    time = Quantity(Array((n,), lambda ix: var('tt', *ix) / un.scale), un)
    ft = freeze(time)
    r = f.get_timearea(time)
    c.oblige('a time-area', TRUE if has_kind(r, U.s * U.m ** 2) else FALSE)
    if len(log) != 1:
        raise Unsupported('area curve by other means')
    c.oblige('at the given times', mk_and(same_shape(log[0], (n,)), feq(at(log[0], gp((n,))), var('tt', *gp((n,))))))
    A = lambda i: var('area', i, sign='nneg')
    T_ = lambda i: var('tt', i)
    c.oblige('sum of the trapezoids', feq(si(r), tree_of(NP.sum(Array((n - 1,), lambda ix: (A(ix[0]) + A(ix[0] + 1)) / 2 * (T_(ix[0] + 1) - T_(ix[0])))))))
    fr.check(c, 'flare')
    c.oblige('times not modified', frozen_eq(ft, freeze(time)), 'frame')


for _n in (2, 3, 5):
    def _mk(n):
        def pos(P, c):
            f = flare(P, c, '0')
            stub_area(P, c)
            ts = [var(f't{i}') for i in range(n)]
            c.assume(mk_and(*[mk_cmp('>', y - x) for x, y in zip(ts, ts[1:])]))
            time = Quantity(NP.array(VList([Sym(t) for t in ts])), U.s)
            c.assume(mk_or(*[mk_cmp('>', var('area', rat(i), sign='nneg')) for i in range(n)]))
            r = f.get_timearea(time)
            c.oblige('positive', flt(RZERO, si(r)))
        unit('C21', f'the integral over {n} increasing times is positive when one of the areas is', ['flares.StellarFlare.get_timearea'], kind='instance of the contract')(pos)
    _mk(_n)


@unit('C21', 'Star.get_flare_int_over_timeperiod is that of its flares', ['star.Star.get_flare_int_over_timeperiod'])
def star(P, c):
    st = P.star.Star.__new__(P.star.Star)
    log = []
    ret = VList([VDict([('Teff', Quantity(Sym(var('T9')), U.K))])])

    def stub(self, tstart, tfinish, sub_obs_coords=None):
        log.append((self, tstart, tfinish, sub_obs_coords))
        return ret
    c.patch.set(P.flares.FlareCollection, 'get_flare_integral_in_timeperiod', stub)
    col = st.__dict__['flares'] = P.flares.FlareCollection(VList([]))
    a, b, A, B = window(P, c)
    so, LA, LO = subobs(True)
    fz = freeze(so)
    r = st.get_flare_int_over_timeperiod(a, b, so)
    if len(log) != 1 or not isinstance(log[0][3], VDict):
        raise Unsupported('other call')
    s, x, y, z = log[0]
    c.oblige('its own flares', is_(s, col))
    c.oblige('the window', mk_and(feq(si(x), A), feq(si(y), B)))
    c.oblige('the viewpoint', frozen_eq(fz, freeze(z)))
    c.oblige('result handed on', TRUE if seq_of(r) == seq_of(ret) else FALSE)
