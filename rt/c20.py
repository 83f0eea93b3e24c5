from common import *
from scipy.integrate import quad

FR = [1.0, 1.94053, -0.175084, -2.24588, -1.12498]
FD = [0.689008, -1.60053, 0.302963, -0.278318]
SB = 5.670374419e-8


def prof(x):
    x = np.asarray(x, float)
    with np.errstate(over='ignore'):
        return np.where((x > -1) & (x <= 0), sum(c * x ** i for i, c in enumerate(FR)), np.where((x > 0) & (x < 20), FD[0] * np.exp(FD[1] * x) + FD[2] * np.exp(FD[3] * x), 0.))


INT = quad(prof, -1, 0)[0] + quad(prof, 0, 20)[0]


def rand_flare(rng, **kw):
    d = dict(fwhm=conv((lu(rng, 60, 1e6) if rng.random() < 0.85 else lu(rng, 0.01, 60)) * u.s, rng, TIMES), energy=conv(lu(rng, 1e28, 1e38) * u.erg, rng, [u.erg, u.J]), lat=rng.uniform(-90, 90) * u.deg, lon=rng.uniform(0, 360) * u.deg,
             Teff=rng.uniform(3000, 20000) * u.K, tpeak=conv(rng.uniform(-100, 1000) * u.hr, rng, TIMES))
    d.update(kw)
    return fl.StellarFlare(**d)


@battery('C20', 'fwhm over 4 decades, energies over 10 decades, mixed units, times from -3 to 25 fwhm around the peak incl. the break points')
def run(r):
    rng = r.rng
    for k in r.loop(400):
        f = rand_flare(rng)
        if 'fwhm' in r.hint:
            f.fwhm = r.val('fwhm', 1) * u.s
        if 'energy' in r.hint:
            f.energy = r.val('energy', 1) * u.J
        W, E, T, tp = f.fwhm.to_value(u.s), f.energy.to_value(u.J), f.Teff.to_value(u.K), f.tpeak.to_value(u.s)
        if W <= 0 or not np.isfinite([W, E]).all():
            continue
        r.put(fwhm=W, energy=E, Teff=T, tpeak=tp)
        ok, a = r.call('calc_peak_area', f.calc_peak_area)
        if not ok:
            continue
        a = a.to_value(u.m ** 2)
        r.close(a * W * INT * SB * T ** 4, E, 'the flare does not radiate its energy', rtol=1e-6)
        x = np.concatenate([rng.uniform(-3, 25, 30), rng.uniform(-1, 1, 30), rng.uniform(-1.01, -0.99, 4), rng.uniform(19.9, 20.1, 4)])
        t = tp + x * W
        tq = conv(t * u.s, rng, TIMES)
        x = (tq.to_value(u.day) - f.tpeak.to_value(u.day)) / f.fwhm.to_value(u.day)
        vague = (np.abs(x + 1) < 1e-6) | (np.abs(x - 20) < 1e-6) | (np.abs(x) < 1e-8)
        before = snapshot(f)
        ok, c = r.call('areacurve', f.areacurve, tq)
        if not ok:
            continue
        c = c.to_value(u.m ** 2)
        if r.check(c.shape == x.shape, 'area curve has the wrong shape'):
            e = a * prof(x)
            slack = 1e-12 * (1 + abs(tp) / W + np.max(np.abs(t)) / W) * 100
            bad = (np.abs(c - e) > a * (1e-9 + slack)) & ~vague
            j = np.argmax(bad)
            r.check(not bad.any(), 'area curve differs from the flare profile', x=x[j], got=c[j] / a, expected=e[j] / a)
            r.check(np.all(c >= 0), 'negative flare area')
            r.check(np.all(c <= a * (1 + 1e-9)), 'flare area above the peak area')
            r.check(np.all(c[((x < -1) | (x > 20)) & ~vague] == 0), 'flare area is not zero outside [-1,20] FWHM')
        ok, cp = r.call('areacurve', f.areacurve, f.tpeak.reshape(1) if hasattr(f.tpeak, 'reshape') else f.tpeak)
        if ok:
            r.close(np.ravel(cp.to_value(u.m ** 2))[0], a, 'area at the peak time is not the peak area', rtol=1e-9)
        # energy by direct integration of the area curve of the real code
        if k % 10 == 0:
            xs = np.unique(np.concatenate([np.linspace(-1.001, 0, 4001), np.linspace(0, 20.001, 8001)]))
            cc = f.areacurve(f.tpeak + xs * f.fwhm).to_value(u.m ** 2)
            en = np.sum((cc[1:] + cc[:-1]) / 2 * np.diff(xs)) * W * SB * T ** 4
            r.close(en, E, 'the integrated light curve does not give the energy', rtol=2e-3)
        ok, i1 = r.call('_flareintegralnp', xo._flareintegralnp, 1.0, 1.0)
        if ok:
            r.close(i1, INT, 'closed-form integral is not the integral of the profile', rtol=1e-7)
            w_, a_ = lu(rng, 1e-3, 1e3), lu(rng, 1e-3, 1e3)
            ok, i2 = r.call('_flareintegralnp', xo._flareintegralnp, w_, a_)
            if ok:
                r.close(i2, INT * w_ * a_, 'closed-form integral does not scale with FWHM and amplitude', rtol=1e-7)
        if k % 8 == 0:        # numbers without rounding: exactly one FWHM before and 20 FWHM after the peak
            p0, w0 = float(rng.integers(-8, 40)), 2. ** int(rng.integers(-3, 4))
            ends = p0 + w0 * np.array([-1., 20.])
            f0 = rand_flare(rng, tpeak=p0 * u.day, fwhm=w0 * u.day)
            r.put(tpeak_days=p0, fwhm_days=w0)
            ok, c = r.call('areacurve', f0.areacurve, ends * u.day)
            if ok:
                r.check(np.all(c.to_value(u.m ** 2) == 0), 'flare area is not zero one FWHM before or 20 FWHM after the peak', got=c.to_value(u.m ** 2))
            ok, c = r.call('get_light_curvenp', xo.get_light_curvenp, ends, [p0], [w0], [1.])
            if ok:
                r.check(np.all(np.asarray(c) == 0), 'light curve is not zero one FWHM before or 20 FWHM after the peak', got=c)
        # several flares
        n = int(pick(rng, [rng.integers(1, 6), rng.integers(5, 30)]))
        P, Wd, A = rng.uniform(0, 10, n), np.exp(rng.uniform(-4, 1, n)), np.exp(rng.uniform(-3, 3, n))
        tt = np.sort(rng.uniform(-3, 30, 50))
        ok, c = r.call('get_light_curvenp', xo.get_light_curvenp, tt, P, Wd, A)
        if ok:
            X = (tt[:, None] - P) / Wd
            e = np.sum(A * prof(X), axis=1)
            v = np.any((np.abs(X + 1) < 1e-9) | (np.abs(X - 20) < 1e-9) | (np.abs(X) < 1e-12), axis=1)
            r.check(c.shape == e.shape and np.all((np.abs(c - e) <= 1e-9 * A.sum()) | v), 'light curve is not the sum of the individual flares')
            s = rng.uniform(-5, 5)
            ok, c2 = r.call('get_light_curvenp', xo.get_light_curvenp, tt + s, P + s, Wd, A * 3)
            if ok:
                X = (tt[:, None] - P) / Wd
                v = np.any((np.abs(X + 1) < 1e-6) | (np.abs(X - 20) < 1e-6) | (np.abs(X) < 1e-6), axis=1)
                r.check(np.all((np.abs(c2 - 3 * c) <= 1e-6 * A.sum()) | v), 'light curve does not only depend on time relative to the peak, or does not scale with amplitude')
        r.check(not diff(before, snapshot(f)), 'computing the area curve changes the flare')
        f.energy, f.fwhm, f.tpeak = f.energy * 3, f.fwhm * 2, f.tpeak + 1 * u.hr        # the same flare, other settings
        W, tp = f.fwhm.to_value(u.day), f.tpeak.to_value(u.day)
        ok, c = r.call('areacurve', f.areacurve, (tp + np.array([-0.4, 0.3, 5.]) * W) * u.day)
        if ok:
            r.check(np.all(np.abs(c.to_value(u.m ** 2) - 1.5 * a * prof([-0.4, 0.3, 5.])) < a * (1e-8 + 1e-10 * abs(tp) / W)), 'area curve differs from the flare profile after the flare was changed')
