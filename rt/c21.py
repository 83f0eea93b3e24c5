from common import *
from c20 import prof, rand_flare, INT
from scipy.integrate import quad


@battery('C21', 'collections of up to 90 flares in mixed units, windows from seconds to weeks incl. windows inside one flare, random sub-observer points')
def run(r):
    rng = r.rng
    for k in r.loop(40):        # numbers without rounding: windows that start or end exactly at the limits
        p0, w0 = float(rng.integers(-8, 40)), 2. ** int(rng.integers(-3, 4))
        f = rand_flare(rng, tpeak=p0 * u.day, fwhm=w0 * u.day)
        col = fl.FlareCollection([f])
        dt = float(rng.integers(1, 5))
        for a, b, e in ((p0 + 20 * w0, p0 + 20 * w0 + dt, False), (p0 - 10 * w0 - dt, p0 - 10 * w0, False), (p0 + 20 * w0 - 0.125, p0 + 20 * w0 + dt, True), (p0 - 10 * w0 - dt, p0 - 10 * w0 + 0.125, True)):
            r.put(window_days=(a, b), tpeak_days=p0, fwhm_days=w0)
            ok, m = r.call('mask', col.mask, a * u.day, b * u.day)
            if ok:
                r.check(bool(np.ravel(m)[0]) == e, 'window mask is wrong exactly at its limits', got=m, expected=e)
            ok, g = r.call('get_flares_in_timeperiod', col.get_flares_in_timeperiod, a * u.day, b * u.day)
            if ok:
                r.check(len(g) == int(e), 'selection is wrong exactly at the limits of the window', got=len(g), expected=e)
    for k in r.loop(150):
        n = int(pick(rng, [0, 1, 2, rng.integers(0, 25), rng.integers(30, 90) if k % 4 == 0 else 3]))
        fs = [rand_flare(rng, tpeak=conv(rng.uniform(-50, 400) * u.hr, rng, TIMES), fwhm=conv(pick(rng, [lu(rng, 1000, 1e5), lu(rng, 1000, 1e5), lu(rng, 1e5, 1e6) if rng.random() < 0.5 else lu(rng, 0.01, 1000)]) * u.s, rng, TIMES)) for _ in range(n)]
        if n > 1 and rng.random() < 0.3:        # flares with something in common
            for f in fs[1:]:
                if rng.random() < 0.7:
                    f.Teff = fs[0].Teff
                if rng.random() < 0.5:
                    f.tpeak, f.fwhm = fs[0].tpeak, fs[0].fwhm
                if rng.random() < 0.5:
                    f.lat, f.lon = fs[0].lat, fs[0].lon
        t0 = rng.uniform(-20, 350) * 3600.
        dt = pick(rng, [lu(rng, 1, 1200), lu(rng, 1200, 1e6), 600., 3600., lu(rng, 1e6, 6e6)])
        if fs and rng.random() < 0.5:
            f = pick(rng, fs)
            t0 = f.tpeak.to_value(u.s) + f.fwhm.to_value(u.s) * pick(rng, [rng.uniform(-1, 19), rng.uniform(-12, 22), -10 - 1e-3, 20 - 1e-3, -10 + pick(rng, [-1, 1]) * 10. ** rng.uniform(-5, -1), 20 + pick(rng, [-1, 1]) * 10. ** rng.uniform(-5, -1)])
            if rng.random() < 0.3:
                t0 -= dt
        a, b = conv(t0 * u.s, rng, TIMES), conv((t0 + dt) * u.s, rng, TIMES)
        A, B = a.to_value(u.s), b.to_value(u.s)
        col = fl.FlareCollection(fs if not (n == 1 and rng.random() < 0.5) else fs[0])
        la, lo = lat_lon(rng)
        so = {'lat': conv(la * u.deg, rng, [u.deg, u.rad]), 'lon': conv(lo * u.deg, rng, [u.deg, u.rad])}
        if rng.random() < 0.15:
            so = None
            la, lo = 0., 0.
        if fs and rng.random() < 0.3:        # just inside and just outside the limb
            f = pick(rng, fs)
            f.lat, f.lon = 0 * u.deg, (lo + pick(rng, [-1, 1]) * (90 + pick(rng, [-1, 1]) * 10. ** rng.uniform(-6, 0))) * u.deg
        r.put(window=(A, B), sub_obs=(la, lo), flares=[(f.tpeak.to_value(u.s), f.fwhm.to_value(u.s), f.lat.value, f.lon.value) for f in fs])
        P = np.array([f.tpeak.to_value(u.s) for f in fs])
        W = np.array([f.fwhm.to_value(u.s) for f in fs])
        sel = (P + 20 * W > A) & (P - 10 * W < B)
        if np.any((np.abs(P + 20 * W - A) < 1e-8 * (W + np.abs(P) + abs(A))) | (np.abs(P - 10 * W - B) < 1e-8 * (W + np.abs(P) + abs(B)))):
            continue
        cosc = np.array([np.cos(true_angle(np.radians(la), np.radians(lo), f.lat.to_value(u.rad), f.lon.to_value(u.rad))) for f in fs])
        if np.any(np.abs(cosc) < 1e-9):
            continue
        ok, m = r.call('mask', col.mask, a, b)
        if ok:
            r.check(np.array_equal(np.asarray(m, bool), sel), 'window mask selects the wrong flares', got=m, expected=sel)
        ok, g = r.call('get_flares_in_timeperiod', col.get_flares_in_timeperiod, a, b)
        exp = [f for f, s in zip(fs, sel) if s]
        if ok:
            r.check(len(g) == len(exp) and all(x is y for x, y in zip(g, exp)), 'selected flares are not exactly those of the window, in order', got=len(g), expected=len(exp))
        ok, g = r.call('get_visible_flares_in_timeperiod', col.get_visible_flares_in_timeperiod, a, b, so)
        vis = [f for f, s, c in zip(fs, sel, cosc) if s and c > 0]
        if ok:
            r.check(len(g) == len(vis) and all(x is y for x, y in zip(g, vis)), 'visible flares are not exactly the selected ones on the facing hemisphere, in order', got=len(g), expected=len(vis))
        if k % 3 == 0:
            star = mk_star(rng, gp_=12)
            star.flares = col
            fn = lambda: star.get_flare_int_over_timeperiod(a, b, so)
        else:
            fn = lambda: col.get_flare_integral_in_timeperiod(a, b, so)
        ok, rec = r.call('get_flare_integral_in_timeperiod', fn)
        if ok and r.check(len(rec) == len(vis), 'not one record per visible flare', got=len(rec), expected=len(vis)):
            N = max(2, int((B - A) / 600.))
            h = (B - A) / (N - 1)
            for x, f in zip(rec, vis):
                r.check(x['Teff'] == f.Teff, 'record has the temperature of another flare', got=x['Teff'], expected=f.Teff)
                ta = x['timearea'].to_value(u.s * u.m ** 2)
                p, w = f.tpeak.to_value(u.s), f.fwhm.to_value(u.s)
                pk = f.calc_peak_area().to_value(u.m ** 2)
                lo_, hi_ = (A - p) / w, (B - p) / w
                seg = [z for z in (-1, 0, 20) if lo_ < z < hi_]
                br = [lo_, *seg, hi_]
                ex = sum(quad(prof, s + 1e-13, e - 1e-13)[0] for s, e in zip(br[:-1], br[1:]) if e > s + 1e-12) * w * pk
                tol = pk * (2.2 * h * min(1, h / w) + 0.02 * h)
                r.check(abs(ta - ex) <= tol + 1e-6 * ex, 'time-area integral differs from the integral of its own area curve over the window', got=ta / pk / w, expected=ex / pk / w, tol=tol / pk / w, step=h / w)
                ends = f.areacurve(u.Quantity([a, b]))
                if np.all(ends.value > 0):
                    r.check(ta > 0, 'flare with positive area at both ends has no integral', got=ta)
        r.check(len(col.flares) == n and all(x is y for x, y in zip(col.flares, fs)), 'selection changes the collection')
