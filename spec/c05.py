"""C05  orthographic projection"""
from lib import *

FN = 'helpers.proj_ortho'


def points(c):
    """any set of surface points: latitudes in [-90,90], any longitudes, written as lon0 + difference"""
    n = var('N', sign='pos', isint=True)
    LO = var('lon0')
    lat = lambda ix: var('glat', *ix)
    dl = lambda ix: var('gdlon', *ix)
    c.families['glat'] = lambda *ix: [mk_cmp('<=', var('glat', *ix) - PI / 2), mk_cmp('>=', var('glat', *ix) + PI / 2)]
    un = sunit('lons', U.rad)
    ul = sunit('lats', U.rad)
    return (n,), lat, dl, Quantity(Array((n,), lambda ix: lat(ix) / ul.scale), ul), Quantity(Array((n,), lambda ix: (LO + dl(ix)) / un.scale), un)


def nan_form(t):
    return tform(lambda l: TRUE if l is NAN else FALSE, t)


def common(P, c, pole, c0):
    """c0: set to True to look at points on the central meridian"""
    if pole is None:
        la, LA = angle('lat0')
        c.assume(mk_and(mk_cmp('<=', LA - PI / 2), mk_cmp('>=', LA + PI / 2)))
    else:
        LA = PI * F(pole, 2)
        la = Quantity(Sym(rat(90 * pole)), U.deg)
    lo, LO = angle('lon0')
    dims, lat, dl, lats, lons = points(c)
    p = gp(dims)
    x_, d_ = lat(p), dl(p)
    if c0 is not None:
        d_ = rat(c0) * PI
        lons = Quantity(Array(dims, lambda ix: LO + d_), U.rad)
    mu = f_sin(LA) * f_sin(x_) + f_cos(LA) * f_cos(x_) * f_cos(d_)
    tx = f_cos(x_) * f_sin(d_)
    ty = f_cos(LA) * f_sin(x_) - f_sin(LA) * f_cos(x_) * f_cos(d_)
    fz = [freeze(q) for q in (la, lo, lats, lons)]
    X, Y = P.helpers.proj_ortho(la, lo, lats, lons)
    for q, f in zip((la, lo, lats, lons), fz):
        c.oblige('the arguments are not modified', frozen_eq(f, freeze(q)), 'frame')
    c.oblige('x has the shape of the points', same_shape(X, dims))
    c.oblige('y has the shape of the points', same_shape(Y, dims))
    x, y = at(X, p), at(Y, p)
    front = mk_cmp('>=', mu)
    c.oblige('x is the orthographic coordinate on the facing hemisphere', mk_implies(front, feq(x, tx)))
    c.oblige('y is the orthographic coordinate on the facing hemisphere', mk_implies(front, feq(y, ty)))
    c.oblige('hidden points project to NaN in x', mk_implies(mk_not(front), nan_form(x)))
    c.oblige('hidden points project to NaN in y', mk_implies(mk_not(front), nan_form(y)))
    c.oblige('no point of the facing hemisphere is NaN', mk_implies(front, mk_and(mk_not(nan_form(x)), mk_not(nan_form(y)))))
    c.oblige('the true orthographic coordinates have length sin(angular distance)', mk_cmp('=', tx * tx + ty * ty - (1 - mu * mu)), 'lemma')


@unit('C05', 'proj_ortho is the orthographic projection for every central point', [FN])
def general(P, c):
    common(P, c, None, None)


@unit('C05', 'proj_ortho centered on the north pole', [FN])
def north(P, c):
    common(P, c, 1, None)


@unit('C05', 'proj_ortho centered on the south pole', [FN])
def south(P, c):
    common(P, c, -1, None)


@unit('C05', 'proj_ortho on the central meridian', [FN])
def meridian(P, c):
    common(P, c, None, 0)


@unit('C05', 'proj_ortho on the meridian opposite to the center', [FN])
def antimeridian(P, c):
    common(P, c, None, 1)


@unit('C05', 'proj_ortho rejects bare numbers', [FN])
def types(P, c):
    dims, lat, dl, lats, lons = points(c)
    la, lo = angle('lat0')[0], angle('lon0')[0]
    args = [la, lo, lats, lons]
    for k in range(4):
        bad = list(args)
        bad[k] = bad[k].value
        expect_raise(c, f'argument {k} without unit is rejected', TypeError, lambda: P.helpers.proj_ortho(*bad))
