from common import *
import copy

G1 = cg.SpiralGrid(11)


def rs(rng):
    s = rand_spot(rng, G1, frac=lu(rng, 1e-6, 1e-3))
    if rng.random() < 0.25:
        s.area_current = 0 * MSH
    if rng.random() < 0.1:
        s.area_current = s.area_max
    if rng.random() < 0.1:
        s.area_current = lu(rng, 1e-9, 1) * MSH
    s.decay_rate = pick(rng, [0., lu(rng, 1, 1e4)]) * MSH / u.day
    s.growth_rate = pick(rng, [0., lu(rng, 0.01, 2)]) / u.day
    if s.is_growing and s.area_current.value == 0:
        s.is_growing = False
    return s


def rf(rng):
    f = rand_fac(rng, G1)
    if rng.random() < 0.5:
        f.radius = f.r_max * np.exp(-rng.uniform(0, 4))
    f.lifetime = lu(rng, 1, 500) * u.hr
    return f


def near(a, b):
    return abs((a - b).to_value(b.unit)) <= 1e-9 * abs(b.value)


def gone_spot(s):
    return (not s.is_growing) and s.area_current.to_value(MSH) <= 0


def gone_fac(f):
    x = f.radius.to_value(u.m) / (f.r_max.to_value(u.m) * np.exp(-2))
    return (not f.is_growing) and x <= 1, abs(x - 1) < 1e-9


@battery('C13', 'random histories of up to 12 add / age operations on collections and stars of up to 20 features')
def run(r):
    rng = r.rng
    for k in r.loop(120):
        mode = k % 3
        hist = []
        ini_s, ini_f = [rs(rng) for _ in range(rng.integers(0, 4))], [rf(rng) for _ in range(rng.integers(0, 4))]
        if mode == 2:
            star = mk_star(rng, ini_s, ini_f, gp_=12)
            sc, fc = star.spots, star.faculae
            add_s, add_f, age = star.add_spot, star.add_fac, [star.age]
        else:
            sc, fc = sp.SpotCollection(*ini_s, gridmaker=G1), fa.FaculaCollection(*ini_f, gridmaker=G1)
            add_s, add_f, age = sc.add_spot, fc.add_faculae, [sc.age, fc.age]
        es, ef = list(ini_s), list(ini_f)
        ok = True
        for step in range(int(rng.integers(1, 13))):
            op = int(rng.integers(4))
            if op == 0:
                new = [rs(rng) for _ in range(rng.integers(0, 4))]
                arg = new[0] if len(new) == 1 and rng.random() < 0.7 else pick(rng, [list, tuple])(new)
                hist.append(f'add {len(new)} spots as {type(arg).__name__}')
                r.put(history=hist)
                ok, _ = r.call('adding spots', add_s, arg)
                es += new
            elif op == 1:
                new = [rf(rng) for _ in range(rng.integers(0, 4))]
                arg = new[0] if len(new) == 1 and rng.random() < 0.7 else pick(rng, [list, tuple])(new)
                hist.append(f'add {len(new)} faculae as {type(arg).__name__}')
                r.put(history=hist)
                ok, _ = r.call('adding faculae', add_f, arg)
                ef += new
            else:
                t = pick(rng, [0., lu(rng, 1, 1e7), lu(rng, 1e3, 1e6)])
                tq = conv(t * u.s, rng, TIMES)
                hist.append(f'age {tq}')
                r.put(history=hist)
                cs, cf = [copy.copy(s) for s in es], [copy.copy(f) for f in ef]
                for o in cs + cf:
                    o.age(tq)
                for fn in age:
                    ok, _ = r.call('aging', fn, tq)
                    if not ok:
                        break
                if not ok:
                    break
                for a, b in zip(es, cs):
                    r.check(near(a.area_current, b.area_current) and a.is_growing == b.is_growing, 'a spot was not aged by exactly the given time, once', got=a.area_current, expected=b.area_current)
                for a, b in zip(ef, cf):
                    r.check(near(a.radius, b.radius) and a.is_growing == b.is_growing, 'a facula was not aged by exactly the given time, once', got=a.radius, expected=b.radius)
                es = [s for s in es if not gone_spot(s)]
                if any(gone_fac(f)[1] for f in ef):
                    break
                ef = [f for f in ef if not gone_fac(f)[0]]
            if not ok:
                break
            gs, gf = list(sc.spots), list(fc.faculae)
            r.check(len(gs) == len(es) and all(a is b for a, b in zip(gs, es)), 'the spots kept are not exactly the live ones in order', got=len(gs), expected=len(es))
            r.check(len(gf) == len(ef) and all(a is b for a, b in zip(gf, ef)), 'the faculae kept are not exactly the live ones in order', got=len(gf), expected=len(ef))
            if r.failures:
                return


@battery('C13', 'faculae that sit exactly at 1/e^2 of their maximum radius')
def edge(r):
    rng = r.rng
    rm = [lu(rng, 10, 1e5) for _ in range(60)]
    fs = []
    for x in rm:
        f = rand_fac(rng, G1, growing=False)
        f.r_max = x * u.km
        f.radius = f.r_max / np.e ** 2
        fs.append(f)
    c = fa.FaculaCollection(*fs, gridmaker=G1)
    r.cases += 1
    ok, _ = r.call('aging', c.age, 0 * u.s)
    if ok:        # roundoff decides for each of them, but not the same way for all of them
        r.check(len(c.faculae) < len(fs), 'faculae at exactly 1/e^2 of their maximum radius are kept')
    fs = [rand_fac(rng, G1, growing=True) for _ in range(5)]
    for f in fs:
        f.radius = f.r_max / np.e ** 2 / rng.uniform(1, 3)
    c = fa.FaculaCollection(*fs, gridmaker=G1)
    ok, _ = r.call('aging', c.age, 0 * u.s)
    if ok:
        r.check(len(c.faculae) == len(fs), 'a growing facula is dropped')


@battery('C13', 'one collection of 1500 spots and 1500 faculae')
def many(r):
    rng = r.rng
    g = cg.SpiralGrid(3)
    r.cases += 1
    ss, ff = [], []
    for i in range(1500):
        ss.append(sp.StarSpot(0 * u.deg, 0 * u.deg, 100 * MSH, (0 if i % 7 == 3 else 50) * MSH, 2500 * u.K, 2700 * u.K, is_growing=i % 2 == 0 and i % 7 != 3, growth_rate=0.5 / u.day, decay_rate=10 * MSH / u.day, gridmaker=g))
        ff.append(fa.Facula(0 * u.deg, 0 * u.deg, 100 * u.km, (2 if i % 5 == 3 else 50) * u.km, 10 * u.km, 10 * u.hr, 0 * u.K / u.km, 1 * u.km, 1 * u.K, 0 * u.K / u.km, 2 * u.K, growing=i % 2 == 0 and i % 5 != 3, gridmaker=g))
    star = mk_star(rng, ss, ff, gp_=3)
    r.put(n=1500)
    es, ef = ss, ff
    for t in (1 * u.min, 4.9 * u.day, 0 * u.s, 0.5 * u.day):        # most of the decaying ones die in the last step
        ok, _ = r.call('aging', star.age, t)
        if not ok:
            break
        es, ef = [s for s in es if not gone_spot(s)], [f for f in ef if not gone_fac(f)[0]]
        gs, gf = list(star.spots.spots), list(star.faculae.faculae)
        r.check(len(gs) == len(es) and all(a is b for a, b in zip(gs, es)), 'the spots kept are not exactly the live ones in order', got=len(gs), expected=len(es))
        r.check(len(gf) == len(ef) and all(a is b for a, b in zip(gf, ef)), 'the faculae kept are not exactly the live ones in order', got=len(gf), expected=len(ef))


@battery('C13', 'the same feature added again')
def again(r):
    rng = r.rng
    for k in range(10):
        r.cases += 1
        a, b = [rs(rng), rs(rng)], [rf(rng), rf(rng)]
        star = mk_star(rng, a, b, gp_=3)
        ok1, _ = r.call('add_spot', star.add_spot, a[k % 2] if k < 5 else [a[1], a[0], a[1]])
        ok2, _ = r.call('add_fac', star.add_fac, b[k % 2] if k < 5 else (b[1], b[0], b[1]))
        if ok1 and ok2:
            es, ef = a + ([a[k % 2]] if k < 5 else [a[1], a[0], a[1]]), b + ([b[k % 2]] if k < 5 else [b[1], b[0], b[1]])
            gs, gf = list(star.spots.spots), list(star.faculae.faculae)
            r.check(len(gs) == len(es) and all(x is y for x, y in zip(gs, es)), 'adding spots does not append exactly those', got=len(gs), expected=len(es))
            r.check(len(gf) == len(ef) and all(x is y for x, y in zip(gf, ef)), 'adding faculae does not append exactly those', got=len(gf), expected=len(ef))
