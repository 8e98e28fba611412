"""Statistical verdicts. Every test has a false-alarm probability far below 1e-8."""
import numpy as np
from scipy import stats as st

P = 1e-9


def uniform(ck, what, u, witness=None):
    """u should be iid U(0,1)."""
    u = np.asarray(u, float)
    ck.ev("statistical_tests")
    ck.ev("random_values_tested", len(u))
    if not ck.ensure(np.all(np.isfinite(u)), f"{what}: non-finite values", witness):
        return False
    p = st.kstest(u, "uniform").pvalue
    return ck.ensure(p > P, f"{what}: distribution is wrong (n={len(u)}, KS p={p:.3g})", witness)


def normal(ck, what, z, witness=None):
    z = np.asarray(z, float)
    n = len(z)
    if not uniform(ck, what, st.norm.cdf(z), witness):
        return False
    m = np.mean(z) * np.sqrt(n)
    p = 2 * st.norm.sf(abs(m))
    ok = ck.ensure(p > P, f"{what}: mean {np.mean(z):.4g} sigma is not 0 (n={n})", witness)
    q = np.sum(z * z)
    p = 2 * min(st.chi2.cdf(q, n), st.chi2.sf(q, n))
    return ok and ck.ensure(p > P, f"{what}: scatter is {np.sqrt(q / n):.4g} times the stated sigma (n={n})", witness)


def uncorrelated(ck, what, x, y, witness=None):
    x, y = np.asarray(x, float), np.asarray(y, float)
    n = len(x)
    r = np.corrcoef(x, y)[0, 1]
    ck.ev("statistical_tests")
    return ck.ensure(abs(r) * np.sqrt(n) < 6.3, f"{what}: correlated, r={r:.3g} (n={n})", witness)


def binomial(ck, what, k, n, p, witness=None):
    """k successes in n trials of probability p (scalar), exact two-sided."""
    ck.ev("statistical_tests")
    ck.ev("random_values_tested", n)
    if p <= 0 or p >= 1:
        return ck.ensure(k == (n if p >= 1 else 0), f"{what}: {k}/{n} with probability {p}", witness)
    t = 2 * min(st.binom.cdf(k, n, p), st.binom.sf(k - 1, n, p))
    return ck.ensure(t > P, f"{what}: {k} of {n}, expected a fraction {p:.5g} (p={t:.3g})", witness)


def bernoulli_sum(ck, what, k, p, witness=None):
    """k successes over independent trials with probabilities p[]; Chernoff bound, both sides."""
    p = np.clip(np.asarray(p, float), 0, 1)
    ck.ev("statistical_tests")
    ck.ev("random_values_tested", len(p))
    mu = p.sum()
    n = len(p)
    # by Hoeffding the Poisson-binomial is dominated by the binomial with the mean probability (outside mean +- 1)
    m = mu / max(n, 1)
    if k <= mu - 1:
        t = st.binom.cdf(k, n, m)
    elif k >= mu + 1:
        t = st.binom.sf(k - 1, n, m)
    else:
        t = 1.0
    return ck.ensure(t > P, f"{what}: {k} of {n}, expected {mu:.1f} (p<{t:.3g})", witness)


def no_repeats(ck, what, z, witness=None):
    """iid values: circular autocorrelation at every lag is noise (a generator that is restarted, or draws used twice, give a peak)."""
    z = np.asarray(z, float)
    n = len(z)
    ck.ev("statistical_tests")
    ck.ev("random_values_tested", n)
    z = np.clip(z, -8, 8)
    z = z - z.mean()
    f = np.fft.rfft(z)
    r = np.fft.irfft(f * np.conj(f), n)[1:] / max(np.sum(z * z), 1e-300)
    k = int(np.argmax(np.abs(r)))
    return ck.ensure(abs(r[k]) * np.sqrt(n) < 8.0, f"{what}: values repeat at a distance of {k + 1} rows (r={r[k]:.3g}, n={n})", witness)
