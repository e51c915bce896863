"""Distribution oracles for simulated noise; thresholds make a false alarm a once-in-a-billion event per test."""
import numpy as np
from scipy import stats

FAMILIES = {"gauss": stats.norm(), "exp": stats.expon(), "gumbel": stats.gumbel_r(), "uniform": stats.uniform(-1, 2), "laplace": stats.laplace()}
P_MIN = 1e-10
Z_MAX = 7.0


def check_family(ctx, e, family, scale, what):
    """e: 1-d sample claimed to be scale * family."""
    e = np.asarray(e, dtype=float)
    ctx.require(np.isfinite(e).all(), "%s: non-finite values", what)
    if scale == 0:
        ctx.require(np.abs(e).max() < 1e-6, "%s: noise of scale zero is %r", what, float(np.abs(e).max()))
        return
    d = FAMILIES[family]
    x = e / scale
    tol = 1e-6
    lo, hi = d.support()
    ctx.require(x.min() >= lo - tol and x.max() <= hi + tol, "%s: values %r..%r outside the support of %s", what, x.min(), x.max(), family)
    p = stats.kstest(x, d.cdf).pvalue
    ctx.require(p > P_MIN, "%s: not %s noise of scale %r (KS p-value %.3g, mean %.3g, sd %.3g over %d values)", what, family, scale, p, x.mean(), x.std(), len(x))
    z = (x.mean() - d.mean()) / (d.std() / np.sqrt(len(x)))
    if len(x) >= 500:
        ctx.require(abs(z) < Z_MAX + 1, "%s: mean %.4g of %s noise with scale 1, expected %.4g (z = %.1f)", what, x.mean(), family, d.mean(), z)


def check_uncorrelated(ctx, a, b, what):
    a, b = np.asarray(a, float), np.asarray(b, float)
    n = len(a)
    if n < 200 or a.std() < 1e-9 or b.std() < 1e-9:
        return
    # ranks keep the null distribution independent of the tails
    ra, rb = stats.rankdata(a), stats.rankdata(b)
    for x, y, k in ((ra, rb, "rank"), (np.abs(ra - ra.mean()), np.abs(rb - rb.mean()), "absolute rank")):
        r = np.corrcoef(x, y)[0, 1]
        ctx.require(abs(r) * np.sqrt(n) < Z_MAX, "%s: %s correlation %.3g over %d samples", what, k, r, n)


def check_mean_zero(ctx, resid, var, weight, what):
    """sum(weight * resid) must be within Z_MAX of zero; var = variance of each residual."""
    s = float(np.sum(weight * resid))
    sd = float(np.sqrt(np.sum(weight ** 2 * var)))
    if sd > 0:
        ctx.require(abs(s) < (Z_MAX + 1) * sd + 15 * np.abs(weight).max(), "%s: deviates by %.1f standard errors", what, s / sd)
