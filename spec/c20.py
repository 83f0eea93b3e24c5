"""C20  flare profile and energy"""
from lib import *

X = 'xoflares.'
TOL = rat(F(1, 10 ** 9))


def leaf(c, t):
    """the branch of a tree that the hypotheses select"""
    while isinstance(t, Ite):
        if c.entails(t.c):
            t = t.a
        elif c.entails(mk_not(t.c)):
            t = t.b
        else:
            raise Unsupported('profile is not a single expression on its piece')
    if not isinstance(t, Rat):
        raise Unsupported('profile is not a number')
    return t


def antideriv(r, x):
    """antiderivative of a sum of  c x^n  and  c exp(k x)  with respect to the variable x"""
    a = atom_of(x)
    if any(a.id in Rat(p).fv() for p, _ in r.den):
        raise Unsupported('antiderivative')
    den = RONE
    for p, e in r.den:
        for _ in range(e):
            den = den * Rat(p)
    out = RZERO
    for m, co in r.num.d.items():
        n, k, other = 0, RZERO, rat(co)
        for i, e in m:
            b = Atom.byid[i]
            if b.id == a.id:
                n = e
            elif a.id in b.fv:
                if b.kind != 'fn' or b.name != 'exp':
                    raise Unsupported('antiderivative')
                k = k + deriv(b.args[0], x) * e
                other = other * rat(b).ipow(int(e)) if float(e).is_integer() else other * pow_rat(rat(b), e)
            else:
                other = other * (rat(b).ipow(int(e)) if float(e).is_integer() else pow_rat(rat(b), e))
        if k == RZERO:
            if int(n) != n or n < 0:
                raise Unsupported('antiderivative')
            out = out + other * x.ipow(int(n) + 1) / (int(n) + 1)
        else:
            if n or a.id in k.fv():
                raise Unsupported('antiderivative')
            out = out + other / k
    return out / den


def one(P, c, t, tp, fw, am):
    """the profile of one flare at one time through the real code (time given as a one-element array)"""
    ar = Array((RONE,), lambda ix: t)
    v = P.xoflares._flaremodelnp(ar, Sym(tp), Sym(fw), Sym(am))
    return at(v, (RZERO,))


def setup(P, c):
    t, tp = var('time'), var('tpeak')
    fw, am = var('fwhm', sign='pos'), var('ampl', sign='nneg')
    return t, tp, fw, am, (t - tp) / fw


@unit('C20', 'the profile is zero outside one FWHM before to 20 FWHM after the peak', [X + '_flaremodelnp'])
def outside(P, c):
    t, tp, fw, am, x = setup(P, c)
    c.assume(mk_or(mk_cmp('<=', x + 1), mk_cmp('>=', x - 20)))
    c.oblige('zero', feq(one(P, c, t, tp, fw, am), RZERO))


@unit('C20', 'the profile equals the amplitude at the peak', [X + '_flaremodelnp'])
def peak(P, c):
    t, tp, fw, am, x = setup(P, c)
    c.oblige('amplitude', feq(one(P, c, tp, tp, fw, am), am))


@unit('C20', 'the profile is between zero and the amplitude', [X + '_flaremodelnp'])
def bounds(P, c):
    t, tp, fw, am, x = setup(P, c)
    c.assume(mk_cmp('=', t - tp - var('x') * fw))
    # by scaling (next unit) it is enough to look at the normalised profile
    v = one(P, c, var('x'), RZERO, RONE, RONE)
    c.oblige('finite', finite(v))
    c.oblige('not negative', fle(RZERO, v))
    c.oblige('at most the amplitude', fle(v, RONE))


@unit('C20', 'the profile depends on (t - peak)/FWHM only and scales with the amplitude', [X + '_flaremodelnp'], kind='lemma over the real code')
def scaling(P, c):
    x = var('x')
    tp, fw, am = var('tpeak'), var('fwhm', sign='pos'), var('ampl', sign='nneg')
    a = one(P, c, tp + x * fw, tp, fw, am)
    b = one(P, c, x, RZERO, RONE, RONE)
    c.oblige('same up to amplitude', feq(a, tmap(lambda z: z * am, b)))


def pieces(P, c):
    """the two pieces of the normalised profile, read off the real code under the hypotheses that select them"""
    x = var('x')
    return x, one(P, c, x, RZERO, RONE, RONE)


_PIECE = {}


for _nm, _lo, _hi in (('rise', -1, 0), ('decay', 0, 20)):
    def _mk(nm, lo, hi):
        def piece(P, c):
            x, t = pieces(P, c)
            c.assume(mk_and(mk_cmp('>', x - lo), mk_cmp('<', x - hi)))
            f = leaf(c, t)
            A = antideriv(f, x)
            c.oblige('antiderivative differentiates back to the profile', feq(deriv(A, x), f), 'lemma')
        return piece
    unit('C20', f'the {_nm} of the profile has a closed-form antiderivative', [X + '_flaremodelnp'], kind='lemma over the real code')(_mk(_nm, _lo, _hi))


def integral(P, c):
    """exact integral of the normalised profile of the real code over its support (fundamental theorem of calculus)"""
    x, t = pieces(P, c)
    tot = RZERO
    xa = atom_of(x)
    for lo, hi in ((-1, 0), (0, 20)):
        f = None
        for mid in [F(lo * k + hi * (8 - k), 8) for k in range(1, 8)]:
            g = branch(t, {xa.id: rat(mid)})
            if f is not None and g.key != f.key:
                raise Unsupported('the profile has more than two pieces')
            f = g
        A = antideriv(f, x)
        tot = tot + subst(A, {xa.id: rat(hi)}) - subst(A, {xa.id: rat(lo)})
    return tot


def branch(t, sub):
    while isinstance(t, Ite):
        f = subst_form(t.c, sub)
        if f == TRUE:
            t = t.a
        elif f == FALSE:
            t = t.b
        else:
            raise Unsupported('piece of the profile')
    if not isinstance(t, Rat):
        raise Unsupported('piece of the profile')
    return t


@unit('C20', 'the two pieces cover the support of the profile', [X + '_flaremodelnp'], kind='lemma over the real code')
def two_pieces(P, c):
    x, t = pieces(P, c)
    xa = atom_of(x)
    r, d = branch(t, {xa.id: rat(F(-1, 2))}), branch(t, {xa.id: rat(10)})
    c.oblige('rise piece', mk_implies(mk_and(mk_cmp('>', x + 1), mk_cmp('<', x)), feq(t, r)))
    c.oblige('decay piece', mk_implies(mk_and(mk_cmp('>', x), mk_cmp('<', x - 20)), feq(t, d)))


@unit('C20', 'the closed-form integral is the integral of the profile', [X + '_flareintegralnp', X + '_flaremodelnp'])
def closed(P, c):
    fw, am = var('fwhm', sign='pos'), var('ampl', sign='pos')
    v = P.xoflares._flareintegralnp(Sym(fw), Sym(am))
    I = integral(P, c)
    # the coefficients of the closed form are machine numbers computed before the verifier sees them, hence 1e-9
    c.oblige('equal (to 1e-9)', mk_and(fle(tmap(lambda z: l_add(z, -I * fw * am), tr(v)), fw * am * TOL), fle(-fw * am * TOL, tmap(lambda z: l_add(z, -I * fw * am), tr(v)))))
    c.oblige('positive', flt(RZERO, tr(v)))


def mk_flare(P, c, tag=''):
    fw, FW = qty('flfwhm' + tag, U.s, 'pos')
    en, EN = qty('flenergy' + tag, U.J, 'nneg')
    la, LA = angle('fllat' + tag)
    lo, LO = angle('fllon' + tag)
    te, TE = qty('flteff' + tag, U.K, 'pos', False)
    tp, TP = qty('fltpeak' + tag, U.s, 'any')
    f = P.flares.StellarFlare(fw, en, la, lo, te, tp)
    return f, dict(FW=FW, EN=EN, LA=LA, LO=LO, TE=TE, TP=TP)


@unit('C20', 'calc_peak_area normalises the flare to its energy', ['flares.StellarFlare.calc_peak_area', X + '_flareintegralnp'])
def energy(P, c):
    f, v = mk_flare(P, c)
    fr = Frame(f)
    a = f.calc_peak_area()
    c.oblige('an area', TRUE if has_kind(a, U.m ** 2) else FALSE)
    sg = P.flares.const.sigma_sb
    SG = si(sg)
    I = integral(P, c)
    lhs = tmap(lambda z, g: l_mul(z, I * v['FW'] * g * v['TE'].ipow(4)), si(a), SG)
    c.oblige('time integral of the area x sigma T^4 = energy (to 1e-9)', mk_and(fle(lhs, v['EN'] * (TOL + 1)), fle(v['EN'] * (RONE - TOL), lhs)))
    c.oblige('not negative', fle(RZERO, si(a)))
    fr.check(c, 'calc_peak_area')


@unit('C20', 'areacurve is the peak area times the profile', ['flares.StellarFlare.areacurve', X + 'get_light_curvenp', X + 'multiflaremodelnp'])
def areacurve(P, c):
    f, v = mk_flare(P, c)
    n = var('nt', sign='pos', isint=True)
    un = sunit('tt', U.s)
    xv = lambda ix: var('x', *ix)
    time = Quantity(Array((n,), lambda ix: (v['TP'] + var('x', *ix) * v['FW']) / un.scale), un)
    fz = freeze(time)
    fr = Frame(f)
    a = f.areacurve(time)
    p = gp((n,))
    c.oblige('an area', TRUE if has_kind(a, U.m ** 2) else FALSE)
    c.oblige('one value per time', same_shape(a, (n,)))
    pk = si(f.calc_peak_area())
    c.oblige('peak area x profile((t - peak)/FWHM)', feq(at(a, p), tmap(lambda y, z: l_mul(y, z), pk, one(P, c, var('x', *p), RZERO, RONE, RONE))))
    fr.check(c, 'areacurve')
    c.oblige('the times are not modified', frozen_eq(fz, freeze(time)), 'frame')


@unit('C20', 'the light curve of any number of flares is the sum of the single ones', [X + 'get_light_curvenp', X + 'multiflaremodelnp'])
def many(P, c):
    n, m = var('nt', sign='pos', isint=True), var('nf', sign='pos', isint=True)
    fam = lambda nm, sg='any': Array((m,), lambda ix: var(nm, *ix, sign=sg))
    time = Array((n,), lambda ix: var('tt', *ix))
    v = P.xoflares.get_light_curvenp(time, fam('tps'), fam('fws', 'pos'), fam('ams', 'nneg'))
    p = gp((n,))
    k = c.arr_k(m)
    s = Gen(m, k, None, f'arr:{show(m)}')
    body = one(P, c, var('tt', *p), var('tps', k), var('fws', k, sign='pos'), var('ams', k, sign='nneg'))
    c.oblige('one value per time', same_shape(v, (n,)))
    c.oblige('sum of the single light curves', feq(at(v, p), S.gen_sum(s, V.tree_to_rat(body))))


for _k in (0, 1, 2, 3):
    def _mk(k):
        def few(P, c):
            n = var('nt', sign='pos', isint=True)
            time = Array((n,), lambda ix: var('tt', *ix))
            tp = [Sym(var(f'tp{i}')) for i in range(k)]
            fw = [Sym(var(f'fw{i}', sign='pos')) for i in range(k)]
            am = [Sym(var(f'am{i}', sign='nneg')) for i in range(k)]
            v = P.xoflares.get_light_curvenp(time, VList(tp), VList(fw), VList(am))
            p = gp((n,))
            tot = RZERO
            for i in range(k):
                tot = tmap(lambda a, b: a + b, tot, one(P, c, var('tt', *p), tree_of(tp[i]), tree_of(fw[i]), tree_of(am[i])))
            c.oblige('sum of the single light curves', feq(at(v, p), tot))
        return few
    unit('C20', f'the light curve of {_k} flares is the sum of the single ones', [X + 'get_light_curvenp', X + 'multiflaremodelnp'])(_mk(_k))
