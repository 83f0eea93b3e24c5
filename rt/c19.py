from common import *


def fgen(rng, alpha, beta, emin, **kw):
    return fl.FlareGenerator(9000 * u.K, 500 * u.K, 3 * u.hr, 0.3, alpha=alpha, beta=beta, min_energy=emin, **kw)


@battery('C19', 'slopes from -3 to -0.1, minimum energies over 10 decades in erg/J, random X incl. 0 and values next to 1')
def run(r):
    rng = r.rng
    EU = [u.erg, u.J, u.Unit('1e30 erg')]
    for k in r.loop(700):
        alpha = r.val('alpha', -pick(rng, [rng.uniform(0.1, 3), 1.0, 0.829]))
        beta = r.val('beta', rng.uniform(0, 60))
        em = r.val('min_energy', lu(rng, 1e28, 1e36))
        if alpha >= 0 or em <= 0 or not np.isfinite([alpha, beta, em]).all():
            continue
        f = fgen(rng, alpha, beta, conv(em * u.erg, rng, EU))
        X = np.sort(np.concatenate([[0.0], rng.random(int(rng.integers(1, 30))), 1 - 10. ** rng.uniform(-12, -1, 2)]))
        if rng.random() < 0.2:
            X = X[1:2]
        ok, q = r.call('quantile_func', f.quantile_func, X)
        if ok:
            e = q.to_value(u.erg)
            if r.check(np.shape(e) == X.shape, 'quantiles have the wrong shape'):
                r.close(e, em * (1 - X) ** (1 / alpha), 'quantiles are not those of the power law', rtol=1e-9)
                r.check(np.all(e >= em * (1 - 1e-12)), 'a quantile is below the minimum energy')
                r.check(np.all(np.diff(e)[np.diff(X) > 0] > 0), 'quantiles do not increase', X=X)
                ok, c = r.call('cdf', f.cdf, q)
                if ok:
                    r.close(c, X, 'cdf is not the inverse of the quantile function', rtol=0, atol=1e-9)
            ok, q1 = r.call('quantile_func', f.quantile_func, float(X[0]))
            if ok:
                r.close(np.ravel(u.Quantity(q1).to_value(u.erg))[0], e[0], 'quantile of a scalar differs')
        for bad in (1.0, 1.5, -1e-9, [0.2, 1.0], [-0.1, 0.5], [0.1, 2.0, 0.3]):
            r.raises(ValueError, f'quantile of {bad} is accepted', f.quantile_func, bad)
        E = em * np.array([1.0, *np.exp(rng.uniform(0, 15, 3))])
        if rng.random() < 0.2:      # the rate law and the cdf are formulas for every energy
            Elow = em * np.exp(-rng.uniform(0, 4))
            ok1, c = r.call('cdf', f.cdf, Elow * u.erg)
            ok2, n = r.call('get_nexp_greater_than', f.get_nexp_greater_than, Elow * u.erg, 3 * u.day)
            ok3, nt = r.call('get_ntotal', f.get_ntotal, 3 * u.day)
            if ok1 and ok2 and ok3 and abs(beta + alpha * np.log10(em)) < 200:
                r.close(n, nt * (1 - c), 'expected numbers and cdf are inconsistent below the minimum energy', rtol=1e-9)
        Eq = conv(E * u.erg, rng, EU)
        ok, c = r.call('cdf', f.cdf, Eq)
        if ok:
            r.close(c, 1 - (E / em) ** alpha, 'cdf is not that of the power law', rtol=1e-9, atol=1e-12)
            ok, q = r.call('quantile_func', f.quantile_func, np.clip(c, 0, 1 - 1e-16))
            if ok:
                good = (1 - c) > 1e-5
                r.close(q.to_value(u.erg)[good], E[good], 'quantile function is not the inverse of the cdf', rtol=1e-8)
        ok, p = r.call('pdf', f.pdf, Eq)
        if ok:
            r.close(u.Quantity(p).value, -alpha / em * (E / em) ** (alpha - 1), 'density is not the derivative of the cdf', rtol=1e-8)
        t = lu(rng, 1, 1e8)
        tq = conv(t * u.s, rng, TIMES)
        if abs(beta + alpha * np.log10(em)) < 200:
            ok, n = r.call('get_nexp_greater_than', f.get_nexp_greater_than, Eq, tq)
            if ok:
                w = 10. ** (beta + alpha * np.log10(E)) * t / 86400.
                r.close(n, w, 'expected number above an energy is not 10^beta E^alpha per day', rtol=1e-9)
                ok, nt = r.call('get_ntotal', f.get_ntotal, tq)
                if ok:
                    r.close(nt, w[0], 'total expected number is not that above the minimum energy', rtol=1e-9)
                    r.close(nt * (E / em) ** alpha, n, 'expected numbers and cdf are inconsistent', rtol=1e-9)
            ok, fr = r.call('frequency_greater_than', f.frequency_greater_than, Eq)
            if ok:
                r.close(fr.to_value(1 / u.day), 10. ** (beta + alpha * np.log10(E)), 'frequency is not 10^beta E^alpha per day', rtol=1e-9)
        # the same generator with other settings
        f.min_energy, f.alpha = f.min_energy * 10, alpha * 1.5
        ok, q = r.call('quantile_func', f.quantile_func, np.array([0.0, 0.5, 0.9]))
        if ok:
            r.close(q.to_value(u.erg), em * 10 * (1 - np.array([0.0, 0.5, 0.9])) ** (1 / alpha / 1.5), 'quantiles are not those of the power law after the settings changed', rtol=1e-9)
        for off in (fl.FlareGenerator.off(), fgen(rng, alpha, beta, np.inf * u.erg)):
            ok, nt = r.call('get_ntotal', off.get_ntotal, tq)
            if ok:
                r.check(nt == 0, 'flares expected although the minimum energy is infinite', got=nt)
