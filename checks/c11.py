"""C11 factorial HMM: relabelling, combination and decoding."""
import contextlib
import io
import itertools
from collections import OrderedDict
from types import SimpleNamespace

from .stream import *
from symrun.shims import rounded_array

EXPLANATION = ("sort_learnt_parameters, create_combined_hmm, decode_hmm, FHMMExact.partial_fit and disaggregate_chunk run "
               "symbolically on arbitrary means, start, transition and covariance parameters: z3 proves that sorting is a "
               "relabelling of states, that every combined parameter is the sum/product of the decoded individual ones, and "
               "that predictions are the decoded means.  hmmlearn's fit and predict are replaced by stand-ins returning "
               "arbitrary parameters and states.")
BOUNDS = {"appliances": "1..3", "states per appliance": "2..3 (thorough 4 x 2)", "samples": "1..3 per chunk",
          "parameters": "arbitrary reals, equal means included"}
ASSUMPTIONS = BASE_ASSUMPTIONS + ["hmmlearn.fit/predict are not encoded: any parameters / any state sequence are assumed to come out"]


def quiet():
    return contextlib.redirect_stdout(io.StringIO())


def arr(ctx, shape, name, lo=0, hi=1000):
    out = np.empty(shape, dtype=object)
    for ix in np.ndindex(*shape):
        out[ix] = ctx.real(name + '_'.join(map(str, ix)), lo, hi)
    return out if ctx.symbolic else out.astype(float)


def params(ctx, k, p):
    return SimpleNamespace(startprob_=arr(ctx, (k,), p + 'pi', 0, 1), means_=arr(ctx, (k, 1), p + 'mu', -3000, 3000),
                           covars_=arr(ctx, (k, 1, 1), p + 'cov', 0, 100), transmat_=arr(ctx, (k, k), p + 'A', 0, 1))


def relabelled(ctx, old, new, k):
    """new is old with its states renamed by one permutation."""
    opts = []
    for perm in itertools.permutations(range(k)):
        c = []
        for i in range(k):
            c.append(ctx.same(new.means_[i][0], old.means_[perm[i]][0]))
            c.append(ctx.same(new.startprob_[i], old.startprob_[perm[i]]))
            c.append(ctx.same(new.covars_[i][0][0], old.covars_[perm[i]][0][0]))
            for j in range(k):
                c.append(ctx.same(new.transmat_[i][j], old.transmat_[perm[i]][perm[j]]))
        opts.append(conj(*c))
    return disj(*opts)


def h_sort(ctx, k):
    from nilmtk.disaggregate import fhmm_exact as F
    f = need(ctx, F, 'sort_learnt_parameters')
    old = params(ctx, k, '')
    pi, mu, cov, A = f(old.startprob_, old.means_, old.covars_, old.transmat_)
    ctx.expect(np.shape(mu) == (k, 1) and np.shape(pi) == (k,) and np.shape(A) == (k, k) and np.shape(cov) == (k, 1, 1),
               "shapes are kept")
    new = SimpleNamespace(startprob_=pi, means_=mu, covars_=cov, transmat_=A)
    for i in range(k - 1):
        ctx.expect(mu[i][0] <= mu[i + 1][0], "states are in order of their means")
    ctx.expect(relabelled(ctx, old, new, k), "sorting only renames the states")


def h_decode(ctx, sizes):
    """decode enumerates the combinations in the order of the combined states."""
    from nilmtk.disaggregate import fhmm_exact as F
    f = need(ctx, F, 'decode_hmm')
    names = ['app%d' % a for a in range(len(sizes))]
    cents = OrderedDict((n, [ctx.real('c%s_%d' % (n, j), 0, 3000) for j in range(k)]) for n, k in zip(names, sizes))
    total = int(np.prod(sizes))
    states, power = f(total, cents, names, np.arange(total))
    for s, combo in enumerate(itertools.product(*[range(k) for k in sizes])):
        for a, n in enumerate(names):
            ctx.expect(int(states[n][s]) == combo[a], "state of one appliance in a combined state")
            ctx.eq(power[n][s], cents[n][combo[a]], "power of one appliance in a combined state")


def check_combined(ctx, comb, models, sizes):
    combos = list(itertools.product(*[range(k) for k in sizes]))
    ctx.expect(len(comb.startprob_) == len(combos) and len(comb.transmat_) == len(combos) and len(comb.means_) == len(combos),
               "one combined state per combination")
    for s, c in enumerate(combos):
        mean, pi = 0, 1
        for m, i in zip(models, c):
            mean = mean + m.means_[i][0]
            pi = pi * m.startprob_[i]
        ctx.eq(comb.means_[s][0], mean, "mean of a combined state is the sum of the means")
        ctx.eq(comb.startprob_[s], pi, "start probability is the product")
        for t, d in enumerate(combos):
            p = 1
            for m, i, j in zip(models, c, d):
                p = p * m.transmat_[i][j]
            ctx.eq(comb.transmat_[s][t], p, "transition probability is the product")


def h_combined(ctx, sizes):
    from nilmtk.disaggregate import fhmm_exact as F
    f = need(ctx, F, 'create_combined_hmm')
    models = OrderedDict(('app%d' % a, params(ctx, k, 'm%d' % a)) for a, k in enumerate(sizes))
    if hasattr(F, 'hmm'):
        with fake_hmm(F, []):
            model = f(models)
    else:
        model = f(models)
    check_combined(ctx, model, list(models.values()), sizes)


@contextlib.contextmanager
def fake_hmm(F, learnt):
    """hmm.GaussianHMM whose fit() learns what it is told."""
    fits = []

    class GaussianHMM(object):
        def __init__(self, n_components=1, covariance_type='diag', **k):
            self.n_components = n_components

        def fit(self, X, *a, **k):
            src = learnt[len(fits)]
            fits.append(X)
            self.startprob_, self.means_, self.covars_, self.transmat_ = src.startprob_, src.means_, src.covars_, src.transmat_
            return self

    real = F.hmm
    F.hmm = SimpleNamespace(GaussianHMM=GaussianHMM)
    try:
        yield fits
    finally:
        F.hmm = real


def ts(i):
    return pd.Timestamp('2020-01-01', tz='UTC') + pd.Timedelta(minutes=i)


def h_fit(ctx, sizes, rows):
    """Each appliance is learnt from its own valid samples, combined in order."""
    from nilmtk.disaggregate import fhmm_exact as F
    need(ctx, F, 'hmm')
    k = sizes[0]
    learnt = [params(ctx, k, 'm%d' % a) for a in range(len(sizes))]
    f = F.FHMMExact({'num_of_states': k})
    train, want = [], []
    for a in range(len(sizes)):
        frames, w, n0 = [], [], 0
        for n in rows:
            v = [float('nan') if i == 1 and ctx.bool('nan%d_%d_%d' % (a, n0, i)) else ctx.real('p%d_%d_%d' % (a, n0, i), 0, 3000)
                 for i in range(n)]
            frames.append(frame(ctx, [ts(n0 + i) for i in range(n)], {COL: v}))
            w += [x for x in v if not ctx.isnan(x)]
            n0 += n
        train.append(('app%d' % a, frames))
        want.append(w)
    with quiet(), fake_hmm(F, learnt) as fits:
        f.partial_fit([frame(ctx, [ts(0)], {COL: [1.0]})], train)
    ctx.expect(len(fits) == len(sizes), "one model per appliance")
    for x, w in zip(fits, want):
        ctx.expect(np.shape(x) == (len(w), 1), "all valid samples of the appliance, as a column")
        ctx.all_eq(list(np.asarray(x).ravel()), w, "training samples of the appliance")
    ctx.expect(list(f.individual) == ['app%d' % a for a in range(len(sizes))], "appliances are kept in order")
    for a, m in enumerate(f.individual.values()):
        ctx.expect(relabelled(ctx, learnt[a], m, k), "the model of an appliance is the one learnt from it")
    check_combined(ctx, f.model, list(f.individual.values()), sizes)


def h_predict(ctx, sizes, chunks):
    from nilmtk.disaggregate import FHMMExact
    f = FHMMExact({})
    names = ['app%d' % a for a in range(len(sizes))]
    f.app_names = list(names)
    f.individual = OrderedDict()
    mus = []
    for a, k in enumerate(sizes):
        mu = [ctx.real('mu%d_%d' % (a, j), 0, 3000) for j in range(k)]
        for x, y in zip(mu, mu[1:]):
            ctx.assume(x <= y)
        mus.append(mu)
        f.individual[names[a]] = SimpleNamespace(means_=rounded_array(ctx, [[x] for x in mu]))
    total = int(np.prod(sizes))
    dfs, seqs, n0 = [], [], 0
    for c in chunks:
        dfs.append(frame(ctx, [ts(n0 + i) for i in range(c)], {COL: [float(7 * (n0 + i)) for i in range(c)]}))
        seqs.append([ctx.choose('s%d' % (n0 + i), list(range(total))) for i in range(c)])
        n0 += c
    seen = []

    def predict(x):
        k = len(seen)
        seen.append(np.array(x, dtype=float).ravel().tolist())
        return np.array([s for s, c in zip(seqs, chunks) if c][k])
    f.model = SimpleNamespace(predict=predict)
    with quiet():
        preds = f.disaggregate_chunk(dfs)
    ctx.expect(len(preds) == len(chunks), "one prediction per chunk")
    ctx.expect(seen == [d.values.ravel().tolist() for d in dfs if len(d)], "the mains readings are decoded, chunk by chunk")
    combos = list(itertools.product(*[range(k) for k in sizes]))
    for p, seq in zip(preds, seqs):
        ctx.expect(list(p.columns) == names, "one column per appliance")
        ctx.expect(len(p) == len(seq), "one row per sample")
        for i, s in enumerate(seq):
            for a in range(len(sizes)):
                g = p.iloc[i, a]
                # means are rounded to whole watts
                ctx.expect(abs(g - mus[a][combos[s][a]]) <= (0.5 if ctx.symbolic else 0.5001), "prediction is the mean of the decoded state")


def cases(tier):
    t = tier == 'thorough'
    cs = [Case(h_sort, k=k) for k in ((1, 2, 3) if not t else (1, 2, 3, 4))]
    sh = ((2,), (2, 2), (3, 2), (2, 3), (2, 2, 2)) + (((3, 2, 2), (2, 3, 4)) if t else ())
    cs += [Case(h_decode, sizes=s) for s in sh + ((3, 2, 4),)]
    cs += [Case(h_combined, sizes=s) for s in sh]
    cs += [Case(h_fit, sizes=s, rows=r) for s, r in (((2,), (3,)), ((2, 2), (2, 2)))]
    cs += [Case(h_predict, sizes=s, chunks=c) for s, c in (((2,), (2,)), ((2, 2), (2,)), ((3, 2), (1, 0, 1)), ((2, 3), (1,)), ((2, 2, 2), (1,)))]
    return cs
