"""C14 error metrics."""
from .stream import *
from .standins import EXTRA

EXPLANATION = ("The functions of nilmtk.losses run symbolically on ground truth and predictions of arbitrary "
               "values (non-negative for relative error and f1); each result is compared with its definition, and is 0 (1 for f1 and r2) exactly for a perfect prediction.")
BOUNDS = {"samples": "1..3 (4 thorough)", "values": "arbitrary reals", "containers": "pandas Series and numpy arrays"}
ASSUMPTIONS = BASE_ASSUMPTIONS + ["sklearn metrics are replaced by their definitions in symbolic runs; replays use sklearn"]


def data(ctx, n, kind, lo=0):
    g = [ctx.real('g%d' % i, lo, 3000) for i in range(n)]
    p = [ctx.real('p%d' % i, lo, 3000) for i in range(n)]
    if kind == 'series':
        ix = pd.date_range('2020-01-01', periods=n, freq='1min', tz='UTC')
        mk = lambda v: pd.Series(ctx.array(v), index=ix)
    else:
        mk = ctx.array
    return g, p, mk(g), mk(p)


def tolerant(ctx, a, b, label):
    """a == b; squares of close numbers need a wider margin on floats."""
    if ctx.symbolic:
        ctx.eq(a, b, label)
    else:
        ctx.expect(abs(float(a) - float(b)) <= 1e-6 + 1e-5 * max(abs(float(a)), abs(float(b))), label)


def h_mae(ctx, n, kind):
    from nilmtk.losses import mae
    g, p, G, P = data(ctx, n, kind, lo=-3000)
    tolerant(ctx, mae(G, P) * n, sum(abs(a - b) for a, b in zip(g, p)), "mean absolute error")


def h_rmse(ctx, n, kind):
    from nilmtk.losses import rmse
    g, p, G, P = data(ctx, n, kind, lo=-3000)
    r = rmse(G, P)
    ctx.expect(r >= 0, "rmse is not negative")
    tolerant(ctx, r * r * n, sum((a - b) * (a - b) for a, b in zip(g, p)), "root mean squared error")


def h_relative(ctx, n, kind):
    from nilmtk.losses import relative_error
    g, p, G, P = data(ctx, n, kind)
    tolerant(ctx, relative_error(G, P) * n, sum(abs(a - b) / (1 + b) for a, b in zip(g, p)), "mean of |error| / (1 + prediction)")


def h_nde(ctx, n, kind):
    from nilmtk.losses import nde
    g, p, G, P = data(ctx, n, kind, lo=-3000)
    den = sum(a * a for a in g)
    ctx.assume(g[0] >= 1)
    r = nde(G, P)
    ctx.expect(r >= 0, "nde is not negative")
    tolerant(ctx, r * r * den, sum((a - b) * (a - b) for a, b in zip(g, p)), "normalised disaggregation error")


def h_nep(ctx, n, kind):
    from nilmtk.losses import nep
    g, p, G, P = data(ctx, n, kind, lo=-3000)
    ctx.assume(sum(g) >= 1)
    tolerant(ctx, nep(G, P) * sum(g), sum(abs(a - b) for a, b in zip(g, p)), "normalised error in assigned power")


def h_f1(ctx, n, kind):
    from nilmtk.losses import f1score
    g, p, G, P = data(ctx, n, kind)
    got = f1score(G, P)
    a, b = [bool(x >= 10) for x in g], [bool(x >= 10) for x in p]
    tp = sum(x and y for x, y in zip(a, b))
    wrong = sum(x != y for x, y in zip(a, b))
    want = 2.0 * tp / (2 * tp + wrong) if tp else 0.0
    tolerant(ctx, got, want, "f1 of being on (at least 10 W)")


def h_r2(ctx, n, kind):
    from nilmtk.losses import r2score
    g, p, G, P = data(ctx, n, kind)
    m = sum(g) / n
    den = sum((a - m) * (a - m) for a in g)
    ctx.assume(g[0] >= g[1] + 1)
    tolerant(ctx, (1 - r2score(G, P)) * den, sum((a - b) * (a - b) for a, b in zip(g, p)), "coefficient of determination")


def cases(tier):
    t = tier == 'thorough'
    cs = []
    for f in (h_mae, h_rmse, h_relative, h_nde, h_nep, h_f1, h_r2):
        for kind in ('series', 'array'):
            for n in ((1, 2, 3) if not t else (1, 2, 3, 4)):
                if f is h_r2 and n < 2 or f is h_nde and n > 2:
                    continue
                cs.append(Case(f, extra=EXTRA, n=n, kind=kind))
    return cs
