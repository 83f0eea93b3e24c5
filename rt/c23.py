from common import *


def oracle(mean, amp, per, seed, hrs):
    import jax
    import jax.numpy as jnp
    from tinygp import kernels, GaussianProcess

    class K(kernels.Kernel):
        a: jnp.ndarray
        f: jnp.ndarray

        def __init__(self, a, f):
            self.a, self.f = a, f

        def evaluate(self, x1, x2):
            t = jnp.abs(x1 - x2) * self.f / jnp.sqrt(2.)
            return self.a * self.f * jnp.exp(-t) * jnp.cos(t - jnp.pi / 4)
    gp = GaussianProcess(K(jnp.asarray(float(amp)), jnp.asarray(1. / per)), jnp.asarray(hrs), diag=0, mean=mean)
    return np.array(gp.sample(jax.random.PRNGKey(seed)))


@battery('C23', 'time axes of 1 to 60 points in several units, means and amplitudes up to twice the allowed range, four off switches')
def run(r):
    rng = r.rng
    for k in r.loop(300):
        n = int(rng.integers(0, 40))
        x = rng.normal(0.5, 1, n)
        x = np.where(rng.random(n) < 0.2, pick(rng, [0., 1., -0.0, 0.5, np.inf, -np.inf, 1 + 1e-15, -1e-300]), x)
        y = x.copy()
        ok, c = r.call('save_cast_coverage', gr.save_cast_coverage, y)
        if ok:
            r.check(np.shape(c) == x.shape and np.array_equal(c, np.clip(x, 0, 1)), 'clamping is not the limit to [0,1]', x=x)
    for k in r.loop(10, 60):
        mean, amp, per = rng.uniform(-0.2, 1.5), lu(rng, 1e-3, 1.), lu(rng, 1, 50)
        if k % 5 == 4:      # far shorter than the sampling
            per = lu(rng, 1e-3, 1)
            amp *= per
        n = int(pick(rng, [1, 5, 20, 60]))
        step = int(rng.integers(1, 4))
        days = np.arange(n) * step
        hrs = days * 24.
        per = per * step
        seed = int(rng.integers(1 << 30))
        dteff = rng.uniform(10, 500) * u.K
        gq = gr.Granulation(mean, amp, conv(per * u.hr, rng, [u.hr, u.day]), dteff, seed=seed)
        r.put(mean=mean, amplitude=amp, period_hr=per, n=n, seed=seed)
        ok, c = r.call('Granulation.get_coverage', gq.get_coverage, hrs * u.hr)
        if not ok:
            continue
        if not r.check(np.shape(c) == (n,), 'not one coverage value per time'):
            continue
        g_ = c[~np.isnan(c)]
        r.check(np.all((g_ >= 0) & (g_ <= 1)), 'coverage outside [0,1]', got=c)
        e = oracle(mean, amp, per, seed, hrs)
        if not np.any(np.isnan(e)):
            r.check(np.all(np.abs(c - np.clip(e, 0, 1)) < 5e-3), 'coverage is not the clamped sample of the configured model', got=c[:5], expected=np.clip(e, 0, 1)[:5])
        ok, c2 = r.call('Granulation.get_coverage', gq.get_coverage, days * u.day)
        if ok:
            r.check(np.shape(c2) == (n,) and np.all((np.abs(c2 - c) < 5e-3) | np.isnan(c) | np.isnan(c2)), 'coverage depends on the unit of time', got=c2[:5], expected=c[:5])
        star = mk_star(rng, gp_=12, gran=gq)
        ok, c3 = r.call('Star.get_granulation_coverage', star.get_granulation_coverage, hrs * u.hr)
        if ok:
            r.check(np.shape(c3) == (n,) and np.all(np.isfinite(c3)) and np.all((c3 >= 0) & (c3 <= 1)), 'coverage asked through the star is not a number in [0,1]', got=c3)
            r.check(np.shape(c3) == (n,) and np.allclose(c3, np.where(np.isnan(c), 0, c), atol=1e-6), 'coverage asked through the star differs from the model')
        # NaN from the model becomes zero
        class Fake:
            pass
        fk = Fake()
        fk.dteff, fk.params = dteff, dict(mean=mean, scale=amp, period=per)
        n4 = int(pick(rng, [n, n, 700, 3000]))
        v = np.where(rng.random(n4) < pick(rng, [0.5, 2. / n4]), np.nan, rng.random(n4))
        fk.get_coverage = lambda t: v.copy()
        star.granulation = fk
        ok, c4 = r.call('Star.get_granulation_coverage', star.get_granulation_coverage, np.arange(n4) * u.hr)
        if ok:
            r.check(np.array_equal(c4, np.where(np.isnan(v), 0, v)), 'NaN is not replaced by zero, or other values change', got=c4, model=v)
    for k in r.loop(20):
        n = int(rng.integers(0, 8))
        tq = conv(np.sort(rng.uniform(0, 100, n)) * u.hr, rng, TIMES)
        amp, mean = rng.uniform(0, 1), rng.uniform(0, 1)
        for nm, g_ in (('off', gr.Granulation.off()), ('off', gr.Granulation.off(seed=3)), ('zero temperature difference', gr.Granulation(mean, amp, 5 * u.hr, 0 * u.K, seed=1)), ('zero mean and amplitude', gr.Granulation(0, 0, 5 * u.hr, 200 * u.K, seed=1)), ('none', None)):
            star = mk_star(rng, gp_=12, gran=g_)
            if nm == 'none' and rng.random() < 0.5:
                star.granulation = None
            ok, c = r.call(f'Star.get_granulation_coverage ({nm})', star.get_granulation_coverage, tq)
            if ok:
                r.check(np.shape(c) == (n,) and np.all(np.asarray(c) == 0), f'granulation coverage not zero ({nm})', got=c)
