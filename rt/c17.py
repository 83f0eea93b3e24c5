from common import *


@battery('C17', 'random generator settings over several decades, mixed units, static and disabled generators')
def run(r):
    rng = r.rng
    g = cg.SpiralGrid(5)
    for k in r.loop(500):
        A1, A0 = lu(rng, 1e2, 1e4), lu(rng, 1, 1e2)
        if k % 7 == 3:
            A0 = A1 * pick(rng, [1.0, rng.uniform(0.5, 1)])
        A1, A0 = r.val('A1', A1), r.val('A0', A0)
        gr_, dr = r.val('growth', lu(rng, 1e-2, 5)), r.val('decay', pick(rng, [lu(rng, 0.1, 1e3), lu(rng, 0.1, 1e3), lu(rng, 1e-6, 0.1)]))
        cov = r.val('coverage', pick(rng, [0.0, rng.uniform(0, 1), 1]))
        if min(A1, A0, gr_, dr) <= 0 or A0 > A1 or cov < 0 or not np.isfinite([A1, A0, gr_, dr, cov]).all():
            continue
        R, t = lu(rng, 1e8, 1e10), lu(rng, 1, 1e8)
        sg = spot_gen(rng, g, dist_area_mean=conv(A1 * MSH, rng, AREAS), init_area=conv(A0 * MSH, rng, AREAS), growth_rate=(gr_ / u.day).to(pick(rng, [1 / u.day, 1 / u.s, 1 / u.yr])),
                      decay_rate=(dr * MSH / u.day).to(pick(rng, [MSH / u.day, u.km ** 2 / u.s])), coverage=cov)
        life = A1 / dr + np.log(A1 / A0) / gr_
        mean = ((A1 - A0) / gr_ + A1 ** 2 / 2 / dr) / life
        ok, x = r.call('mean_lifetime', lambda: sg.mean_lifetime)
        if ok:
            r.close(x.to_value(u.day), life, 'mean lifetime is not the duration of growth plus decay', rtol=1e-9)
        ok, x = r.call('mean_area', lambda: sg.mean_area)
        if ok:
            r.close(x.to_value(MSH), mean, 'mean area is not the time average of the law', rtol=1e-9)
            r.check(x.to_value(MSH) <= A1 * (1 + 1e-12), 'mean area exceeds the peak area')
        r.check(bool(sg.is_static) is False, 'a decaying generator counts as static')
        tq, rq = conv(t * u.s, rng, TIMES), conv(R * u.m, rng, LENGTHS)
        exp = cov * 4 * np.pi * R ** 2 * (t / 86400.) / ((mean * MSH).to_value(u.m ** 2) * life)
        r.put(t=t, R=R)
        ok, n = r.call('get_n_spots_to_birth', sg.get_n_spots_to_birth, tq, rq)
        if ok:
            r.close(n, exp, 'expected number of spots does not sustain the coverage', rtol=1e-9)
        for st_ in (spot_gen(rng, g, decay_rate=0 * pick(rng, [MSH / u.day, u.km ** 2 / u.s]), coverage=cov), sp.SpotGenerator.off(gridmaker=g)):
            ok, n = r.call('get_n_spots_to_birth', st_.get_n_spots_to_birth, tq, rq)
            if ok:
                r.check(n == 0, 'a static or disabled generator expects births', got=n)
            r.check(bool(st_.is_static), 'a generator without decay is not static')
            ok, x = r.call('mean_area', lambda: st_.mean_area)
            if ok:
                r.check(x == st_.dist_area_mean, 'mean area of a static generator is not its peak area')
            ok, x = r.call('mean_lifetime', lambda: st_.mean_lifetime)
            if ok:
                r.check(np.isinf(x.value), 'mean lifetime of a static generator is not infinite')
        # the same generator with other settings
        sg.coverage, sg.decay_rate = 0.1, sg.decay_rate * 2
        if rng.random() < 0.5:
            sg.growth_rate = sg.growth_rate * 3
            gr_ = gr_ * 3
        life = A1 / dr / 2 + np.log(A1 / A0) / gr_
        mean = ((A1 - A0) / gr_ + A1 ** 2 / 4 / dr) / life
        ok, n = r.call('get_n_spots_to_birth', sg.get_n_spots_to_birth, tq, rq)
        if ok:
            r.close(n, 0.1 * 4 * np.pi * R ** 2 * (t / 86400.) / ((mean * MSH).to_value(u.m ** 2) * life), 'expected number of spots does not sustain the coverage after the settings changed', rtol=1e-9)
        rp, lt = lu(rng, 10, 1e5), lu(rng, 1, 1e4)
        fc = cov if isinstance(cov, (float, int)) else float(cov)
        fg = fac_gen(rng, g, dist_r_peak=conv(rp * u.km, rng, LENGTHS), dist_life_peak=conv(lt * u.hr, rng, TIMES), coverage=fc)
        ma = np.pi * rp ** 2 * (1 - np.exp(-2)) / 2
        ok, x = r.call('facula mean_area', lambda: fg.mean_area)
        if ok:
            r.close(x.to_value(u.km ** 2), ma, 'mean facula area is not the time average over its life', rtol=1e-9)
        ok, n = r.call('get_n_faculae_expected', fg.get_n_faculae_expected, tq, rq)
        if ok:
            r.close(n, fc * 4 * np.pi * (R / 1e3) ** 2 / ma * t / 3600. / (2 * lt), 'expected number of faculae does not sustain the coverage', rtol=1e-9)
        fg.dist_r_peak, fg.dist_life_peak = fg.dist_r_peak * 2, fg.dist_life_peak * 3
        ok, n = r.call('get_n_faculae_expected', fg.get_n_faculae_expected, tq, rq)
        if ok:
            r.close(n, fc * 4 * np.pi * (R / 1e3) ** 2 / ma * t / 3600. / (24 * lt), 'expected number of faculae does not sustain the coverage after the settings changed', rtol=1e-9)
        ok, n = r.call('get_n_faculae_expected', fa.FaculaGenerator.off(gridmaker=g).get_n_faculae_expected, tq, rq)
        if ok:
            r.check(n == 0, 'a disabled facula generator expects births', got=n)
