from common import *

GRID = cg.SpiralGrid(7)


def law(R0, RM, LT, growing, t):
    if not growing:
        return R0 * np.exp(-2 * t / LT), False, False
    tm = np.log(RM / R0) * LT / 2
    near = abs(t - tm) <= 1e-9 * (t + tm) and R0 != RM
    if t < tm:
        return R0 * np.exp(2 * t / LT), True, near
    return RM * np.exp(-2 * (t - tm) / LT), False, near


def fac(rm, r0, lt, growing, rng, grid=GRID):
    RM, R0 = rm * u.m, min(r0, rm) * u.m
    if r0 >= rm:
        RM = R0 = conv(RM, rng, LENGTHS)
    else:
        RM, R0 = conv(RM, rng, LENGTHS), conv(R0, rng, LENGTHS)
    return fa.Facula(rng.uniform(-90, 90) * u.deg, rng.uniform(0, 360) * u.deg, RM, R0, rng.uniform(1, 200) * u.km, conv(lt * u.s, rng, TIMES),
                     rng.normal() * u.K / u.km, rng.uniform(0, 100) * u.km, -100 * u.K, rng.normal() * u.K / u.km, 100 * u.K, growing=growing, gridmaker=grid)


@battery('C12', 'radii over 8 decades, lifetimes over 8 decades, times up to 30 lifetimes, mixed units, up to 12 steps')
def run(r):
    for k in r.loop(1500):
        rng = r.rng
        rm = r.val('r_max', lu(rng, 1e3, 1e9))
        r0 = r.val('r_init', rm * pick(rng, [1.0, np.exp(-2), 1e-4, rng.random(), rng.random()]))
        lt = r.val('lifetime', lu(rng, 10., 1e9))
        growing = bool(rng.random() < 0.6)
        tm = np.log(rm / r0) * lt / 2
        t = r.val('t', r.hint.get('t1', pick(rng, [0.0, lu(rng, 1e-3, 30.) * lt, tm, tm * rng.random(), tm + lt * rng.random()])))
        if t < 0 or not np.isfinite([rm, r0, lt, t]).all() or t > 300 * lt:
            continue
        r0 = min(r0, rm)
        r.put(growing=growing)
        f = fac(rm, r0, lt, growing, rng)
        before = snapshot(f)
        tq = conv(t * u.s, rng, TIMES)
        tv = (tq.value, tq.unit)
        old = f.radius, f.radius.value, f.r_max, f.r_max.value, f.lifetime, f.lifetime.value
        ok, _ = r.call('age', f.age, tq)
        if not ok:
            continue
        r.check((tq.value, tq.unit) == tv, 'age modifies its time argument')
        r.check(all(old[i].value == old[i + 1] for i in (0, 2, 4)), 'age modifies one of the quantities it was given in place')
        R_, g_, near = law(r0, rm, lt, growing, t)
        tol = 1e-9 * (1 + t / lt)
        got = f.radius.to_value(u.m)
        r.close(got, R_, 'radius differs from the law', rtol=tol)
        r.check(0 < got <= rm * (1 + 1e-12), 'radius leaves (0, r_max]', got=got)
        if not near:
            r.check(bool(f.is_growing) == g_, 'growing flag differs from the law')
        df = [x for x in diff(before, snapshot(f)) if x not in ('radius', 'is_growing')]
        r.check(not df, f'age changes {df}')
        n = int(rng.integers(2, 12))
        w = rng.random(n) * (rng.random(n) < 0.7)
        w = w / w.sum() if w.sum() > 0 else np.ones(n) / n
        f1 = fac(rm, r0, lt, growing, np.random.default_rng(k))
        r.put(steps=w * t)
        for x in w:
            ok, _ = r.call('age', f1.age, conv(x * t * u.s, rng, TIMES))
            if not ok:
                break
        else:
            r.close(f1.radius.to_value(u.m), R_, 'aging in steps differs from aging at once', rtol=10 * tol)
            if not near:
                r.check(bool(f1.is_growing) == g_, 'growing flag differs after aging in steps')
