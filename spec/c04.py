"""C04  circle overlap"""
from lib import *

F = 'helpers.calc_circ_fraction_inside_unit_circle'


def lens(d, r):
    """exact area of the intersection of the unit circle and a circle of radius r at distance d,
    over the area of the latter (partial overlap)"""
    c1 = (d * d - r * r + 1) / (d * 2)
    c2 = (d * d + r * r - 1) / (d * r * 2)

    def seg(c_):
        return f_arccos(c_) - c_ * f_sqrt(RONE - c_ * c_)
    return (seg(c1) + r * r * seg(c2)) / (PI * r * r)


def setup(P, c):
    x, y, r = num('x'), num('y'), num('r', 'pos')
    X, Y, R = var('x'), var('y'), var('r', sign='pos')
    return x, y, r, X, Y, R


def overlap(P, c, X, Y, R):
    d2 = X * X + Y * Y
    return d2


@unit('C04', 'disjoint circles have no overlap', [F])
def disjoint(P, c):
    x, y, r, X, Y, R = setup(P, c)
    c.assume(mk_cmp('<=', R - 1))
    c.assume(mk_cmp('>', X * X + Y * Y - (R + 1) * (R + 1)))
    v = P.helpers.calc_circ_fraction_inside_unit_circle(x, y, r)
    c.oblige('zero', feq(tree_of(v), RZERO))


@unit('C04', 'a contained circle is entirely inside', [F])
def inside(P, c):
    x, y, r, X, Y, R = setup(P, c)
    c.assume(mk_cmp('<=', R - 1))
    c.assume(mk_cmp('<=', X * X + Y * Y - (RONE - R) * (RONE - R)))
    v = P.helpers.calc_circ_fraction_inside_unit_circle(x, y, r)
    c.oblige('one', feq(tree_of(v), RONE))


@unit('C04', 'partially overlapping circles have the exact lens area', [F])
def partial(P, c):
    x, y, r, X, Y, R = setup(P, c)
    c.assume(mk_cmp('<=', R - 1))
    d2 = X * X + Y * Y
    c.assume(mk_cmp('<=', d2 - (R + 1) * (R + 1)))
    c.assume(mk_cmp('>', d2 - (RONE - R) * (RONE - R)))
    d = f_sqrt(d2)
    c.assume(mk_cmp('>', d - (RONE - R)))
    c.assume(mk_cmp('<=', d - (RONE + R)))
    # domains of the lens formula (proved, then used)
    c1 = (d * d - R * R + 1) / (d * 2)
    c2 = (d * d + R * R - 1) / (d * R * 2)
    for n, z in (('c1', c1), ('c2', c2)):
        c.oblige(f'{n} of the lens formula is a cosine', mk_and(mk_cmp('<=', z - 1), mk_cmp('<=', -z - 1)), 'lemma')
        c.assume(mk_and(mk_cmp('<=', z - 1), mk_cmp('<=', -z - 1)))
    L = lens(d, R)
    c.note('geometry (assumed): the intersection of two disks has an area between zero and that of either disk')
    c.assume(mk_and(mk_cmp('<=', -L), mk_cmp('<=', L - 1)))
    v = P.helpers.calc_circ_fraction_inside_unit_circle(x, y, r)
    c.oblige('exact lens area over circle area', feq(tree_of(v), L))


@unit('C04', 'the fraction is finite, in [0,1] and depends only on the distance', [F])
def bounds(P, c):
    x, y, r, X, Y, R = setup(P, c)
    c.assume(mk_cmp('<=', R - 1))
    v = tree_of(P.helpers.calc_circ_fraction_inside_unit_circle(x, y, r))
    c.oblige('finite', finite(v))
    c.oblige('not negative', fle(RZERO, v))
    c.oblige('at most one', fle(v, RONE))


@unit('C04', 'a radius above one is rejected', [F])
def reject(P, c):
    x, y, r, X, Y, R = setup(P, c)
    c.assume(mk_cmp('>', R - 1))
    expect_raise(c, 'ValueError', Exception, lambda: P.helpers.calc_circ_fraction_inside_unit_circle(x, y, r))
