from common import *

GRID = cg.SpiralGrid(7)


def law(A0, AM, G, D, growing, t):
    """(area, growing, near_boundary), SI units"""
    if not growing:
        return max(A0 - D * t, 0.0), False, False
    L = np.log1p(G * 86400.)
    if L == 0:
        return A0, True, False
    tm = np.log(AM / A0) / L * 86400.
    if t < tm:
        return A0 * np.exp(L * t / 86400.), True, abs(t - tm) <= 1e-9 * (t + tm)
    return max(AM - D * (t - tm), 0.0), False, abs(t - tm) <= 1e-9 * (t + tm) and A0 != AM


def spot(am, a0, g, d, growing, rng):
    a0 = min(a0, am)
    AM = am * u.m ** 2
    A0 = a0 * u.m ** 2
    if a0 == am:
        AM = A0 = conv(AM, rng, AREAS)
    else:
        AM, A0 = conv(AM, rng, AREAS), conv(A0, rng, AREAS)
    G = (g / u.s).to(pick(rng, [1 / u.s, 1 / u.day, 1 / u.hr, 1 / u.yr]))
    D = (d * u.m ** 2 / u.s).to(pick(rng, [MSH / u.day, u.m ** 2 / u.s, u.km ** 2 / u.hr, MSH / u.yr]))
    return sp.StarSpot(rng.uniform(-90, 90) * u.deg, rng.uniform(0, 360) * u.deg, AM, A0, rng.uniform(2500, 3000) * u.K, rng.uniform(3000, 3300) * u.K,
                       area_over_umbra_area=rng.uniform(1, 9), is_growing=growing, growth_rate=G, decay_rate=D, gridmaker=GRID)


@battery('C11', 'random areas over 12 decades, rates over 8 decades, times over 10 decades, mixed units, up to 12 steps')
def run(r):
    for k in r.loop(1500):
        rng = r.rng
        am = r.val('area_max', lu(rng, 1e8, 1e18))
        a0 = r.val('area0', am * pick(rng, [1.0, 1e-6, 1e-2, rng.random(), rng.random()]))
        growing = bool(rng.random() < 0.6)
        if growing and a0 <= 0:
            a0 = am * 1e-3
        if not growing and rng.random() < 0.1 and not r.hint:
            a0 = r.val('area0', 0.0)
        g = r.val('growth', pick(rng, [0.0, lu(rng, 1e-8, 1e-3), lu(rng, 1e-7, 1e-4)]))
        d = r.val('decay', pick(rng, [0.0, lu(rng, 1e-10, 1e-2) * am, lu(rng, 1e-8, 1e-5) * am]))
        L = np.log1p(g * 86400.)
        tm = np.log(am / a0) / L * 86400. if growing and L > 0 else 0
        t = r.val('t', r.hint.get('t1', pick(rng, [0.0, lu(rng, 1., 1e8), lu(rng, 1e-2, 10.) * (tm or 1e5), tm + (lu(rng, 1e-2, 10.) * (am / d) if d else 1e6), tm])))
        if min(am, g, d, t, a0) < 0 or not np.isfinite([am, a0, g, d, t]).all():
            continue
        r.put(growing=growing)
        s = spot(am, a0, g, d, growing, rng)
        a0 = min(a0, am)
        tq = conv(t * u.s, rng, TIMES)
        before = snapshot(s)
        tv = (tq.value, tq.unit)
        old = s.area_current, s.area_current.value, s.area_max, s.area_max.value
        ok, _ = r.call('age', s.age, tq)
        if not ok:
            continue
        r.check((tq.value, tq.unit) == tv, 'age modifies its time argument')
        r.check(old[0].value == old[1] and old[2].value == old[3], 'age modifies an area object in place')
        A, gr_, near = law(a0, am, g, d, growing, t)
        tol = 1e-7 * am + (d * tm + d * t) * (1e-13 + (4e-15 / (g * 86400.) if g else 0))
        got = s.area_current.to_value(u.m ** 2)
        r.close(got, A, 'area after aging differs from the growth/decay law', rtol=1e-7, atol=tol)
        r.check(0 <= got <= am * (1 + 1e-9), 'area leaves [0, area_max]', got=got)
        if not near:
            r.check(bool(s.is_growing) == gr_, 'growing flag differs from the law', got=s.is_growing, expected=gr_)
        df = [x for x in diff(before, snapshot(s)) if x not in ('area_current', 'is_growing')]
        r.check(not df, f'age changes {df}')
        # splitting
        n = int(rng.integers(2, 12))
        w = rng.random(n)
        if rng.random() < 0.5:
            w = w * (rng.random(n) < 0.5)
        w = w / w.sum() if w.sum() > 0 else np.ones(n) / n
        rng2 = np.random.default_rng(k)
        s1 = spot(am, a0, g, d, growing, rng2)
        for x in w:
            ok, _ = r.call('age', s1.age, conv(x * t * u.s, rng, TIMES))
            if not ok:
                break
        else:
            r.put(steps=w * t)
            r.close(s1.area_current.to_value(u.m ** 2), A, 'aging in steps differs from aging at once', rtol=1e-6, atol=10 * tol)
            if not near:
                r.check(bool(s1.is_growing) == gr_, 'growing flag differs after aging in steps')
