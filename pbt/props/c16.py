"""C16: batch-wise Monte Carlo engine."""
import numpy as np
from hypothesis import strategies as st

from .. import gen
from ..core import Violation, arr, close, enlarge, expect, law, unpack

RULE = "at least 3 runs and more than one block; distinct by generated case"
TECHNIQUE = "property-based testing (Hypothesis): recorded draws and evaluations against statistics of all samples; block size and worker count as metamorphic relation"


def F():
    from PyDynamic.uncertainty import propagate_MonteCarlo

    return propagate_MonteCarlo


class Source:
    """the k-th sample drawn depends on k only; remembers what was drawn"""

    def __init__(self, seed, shape, kind, aslist):
        self.seed, self.shape, self.kind, self.aslist = seed, tuple(shape), kind, aslist
        self.drawn = []
        self.sizes = []

    def __call__(self, size):
        out = []
        for _ in range(size):
            r = np.random.RandomState(self.seed + 7919 * len(self.drawn))
            if self.kind == "int":
                s = r.randint(-3, 4, self.shape).astype(float)
            elif self.kind == "const":
                s = np.full(self.shape, 2.5)
            elif self.kind == "drift":
                s = r.randn(*self.shape) + 10.0 * (len(self.drawn) % 7)
            elif self.kind == "offset":
                s = r.randn(*self.shape) + 1e4
            else:
                s = r.randn(*self.shape)
            self.drawn.append(s)
            out.append(s)
        self.sizes.append(size)
        return out if self.aslist else np.array(out).reshape((size,) + self.shape)


def model_vector(s):
    v = s.ravel()
    return np.array([v.sum(), v[0] - 2 * v[-1], v[0] ** 2])


def model_identity(s):
    return np.array(s)


def model_matrix(s):
    v = s.ravel()
    return np.array([[v.max(), v.min()], [v.sum(), 3.0], [v[-1] * v[0], -v[0]]])


def model_column(s):
    return s.ravel()[:, np.newaxis] * np.array([[1.0, -2.0]])


MODELS = dict(vector=model_vector, identity=model_identity, matrix=model_matrix,
              column=model_column)


def case():
    return gen.fd(seed=gen.seeds(), shape=st.sampled_from([[1], [3], [4], [2, 3], [1, 2, 2]]),
                  kind=st.sampled_from(["randn", "randn", "int", "const", "drift", "offset"]),
                  aslist=st.booleans(), model=st.sampled_from(sorted(MODELS)),
                  runs=st.one_of(st.integers(1, 6), st.integers(5, 14), st.integers(8, 30), st.integers(10, 80)), block=gen.sizes(1, 6, 15, 100),
                  init=st.integers(1, 12),
                  nbins=st.one_of(st.integers(1, 20),
                                  st.lists(st.integers(1, 25), min_size=1, max_size=3,
                                           unique=True)))


def nt(c):
    return c["runs"] >= 3 and c["block"] < c["runs"]


def cls(c):
    return [f"draws={c['kind']}", f"model={c['model']}",
            "whole blocks" if c["runs"] % c["block"] == 0 else "last block shorter",
            "histograms=%d" % (len(c["nbins"]) if isinstance(c["nbins"], list) else 1)]


def source(c):
    return Source(c["seed"], c["shape"], c["kind"], c["aslist"])


def run(c, src, fn, **kw):
    a = dict(runs=c["runs"], blocksize=c["block"], runs_init=c["init"], nbins=c["nbins"],
             n_cpu=1)
    a.update(kw)
    return F().UMC_generic(src, fn, **a)


def check_statistics(R, y, Uy, what=""):
    """mean and covariance of the rows of R"""
    runs = len(R)
    m = np.max(np.abs(R))
    close(y, np.mean(R, axis=0), "mean" + what, rtol=1e-10, scale=m)
    if runs > 1:
        d = R - np.mean(R, axis=0)
        U = arr(Uy, (R.shape[1], R.shape[1]), "covariance" + what)
        want = d.T.dot(d) / (runs - 1)
        tol = 1e-9 * np.max(np.abs(want)) + 1e-13 * m ** 2
        bad = np.abs(U - want) > tol
        if np.any(bad):
            i = tuple(int(k) for k in np.argwhere(bad)[0])
            raise Violation(f"covariance{what} at {i}: got {U[i]!r}, that of the samples is "
                            f"{want[i]!r}")
    else:
        arr(Uy, (R.shape[1], R.shape[1]), "covariance" + what, finite=False)


def check_histograms(happr, nbins, R, R0):
    """every histogram counts every run in the bin between its edges"""
    nb = nbins if isinstance(nbins, list) else [nbins]
    expect(isinstance(happr, dict) and set(happr.keys()) == set(nb),
           f"histograms for {sorted(happr.keys())}, requested {sorted(nb)}")
    runs, k = R.shape
    A = np.vstack([R0, R])
    for n in nb:
        E = arr(happr[n]["bin-edges"], (n + 1, k), f"edges of {n} bins")
        C = arr(happr[n]["bin-counts"], (n, k), f"counts of {n} bins")
        expect(np.array_equal(C, np.round(C)) and np.all(C >= 0), "counts are not counts")
        tot = np.sum(C, axis=0)
        expect(np.all(tot == runs), f"histogram with {n} bins counts {tot.tolist()} runs "
                                    f"of {runs}")
        m = np.maximum(np.max(np.abs(A), axis=0), 1e-300)
        t = 1e-12 * m
        expect(np.all(np.diff(E, axis=0) >= -t), "bin edges are not ascending")
        expect(np.all(np.abs(E[0] - np.min(A, axis=0)) <= t), "lowest edge is not the minimum")
        expect(np.all(np.abs(E[-1] - np.max(A, axis=0)) <= t),
               "highest edge is not the maximum")
        cum = np.vstack([np.zeros((1, k)), np.cumsum(C, axis=0)])
        for i in range(n + 1):
            lo = np.sum(R < E[i] - t, axis=0)
            hi = np.sum(R <= E[i] + t, axis=0)
            expect(np.all((cum[i] >= lo) & (cum[i] <= hi)),
                   f"counts do not belong to the bins between the edges (edge {i} of {n})")


@law("C16", case(), quick=700, nontrivial=nt, classify=cls)
def statistics_are_those_of_the_evaluated_samples(c):
    """exactly the requested number of draws is evaluated, once each; mean, covariance,
    histograms and output shape are those of the evaluations"""
    src = source(c)
    fn = MODELS[c["model"]]
    calls = []

    def model(s):
        calls.append(np.array(s))
        return fn(s)

    y, Uy, happr, shape = unpack(run(c, src, model), 4)
    out = fn(src.drawn[0])
    expect(tuple(shape) == out.shape, f"output shape {shape}, expected {out.shape}")
    N = c["runs"] + c["init"]
    expect(len(src.drawn) == N, f"{len(src.drawn)} draws for {c['init']} initial and "
                                f"{c['runs']} runs")
    expect(len(calls) == N, f"{len(calls)} evaluations")
    for i, (p, q) in enumerate(zip(src.drawn, calls)):
        expect(np.array_equal(p, q), f"draw {i} was not the one evaluated")
    A = np.array([fn(s).ravel() for s in src.drawn])
    R0, R = A[: c["init"]], A[c["init"]:]
    check_statistics(R, y, Uy)
    check_histograms(happr, c["nbins"], R, R0)


@law("C16", case(), quick=300, nontrivial=nt, classify=cls)
def returned_samples_are_paired(c):
    """returned samples are the draws, each with its own result; the statistics are theirs"""
    src = source(c)
    fn = MODELS[c["model"]]
    y, Uy, happr, shape, sims = unpack(run(c, src, fn, return_samples=True), 5)
    runs = c["runs"]
    S = arr(sims["samples"], (runs,) + tuple(c["shape"]), "returned samples")
    out = fn(src.drawn[0])
    R = arr(sims["results"], (runs,) + out.shape, "returned results")
    D = np.array(src.drawn[c["init"]:])
    expect(np.array_equal(S, D), "returned samples are not the draws")
    for s, r in zip(S, R):
        expect(np.array_equal(fn(s), r), "result does not belong to its sample")
    check_statistics(R.reshape(runs, -1), y, Uy)


@law("C16", case(), quick=160, nontrivial=nt, classify=cls)
def block_size_does_not_matter(c):
    """the same draws in blocks of any size give the same statistics and histograms"""
    fn = MODELS[c["model"]]
    ref = None
    r = np.random.RandomState(c["seed"])
    blocks = [c["block"], c["runs"] + int(r.randint(0, 4)), int(r.randint(1, c["runs"] + 1))]
    for b in blocks:
        src = source(c)
        res = unpack(run(c, src, fn, blocksize=b), 4)
        R = np.array([fn(s).ravel() for s in src.drawn])
        m = np.max(np.abs(R))
        if ref is None:
            ref = res
            continue
        close(res[0], arr(ref[0]), f"mean with block size {b}", rtol=1e-10, scale=m)
        if c["runs"] > 1:
            close(res[1], arr(ref[1]), f"covariance with block size {b}", rtol=1e-9,
                  atol=1e-13 * m ** 2)
        for n in ref[2]:
            for k in ("bin-edges", "bin-counts"):
                expect(np.array_equal(res[2][n][k], ref[2][n][k]),
                       f"{k} with block size {b}")


@law("C16", gen.fd(c=case(), cpu=st.integers(2, 4)), quick=40, thorough=600,
     nontrivial=lambda c: nt(c["c"]), classify=lambda c: [f"workers={c['cpu']}"])
def worker_count_does_not_matter(c):
    """several worker processes give the same statistics, histograms and pairing"""
    cpu, c = c["cpu"], c["c"]
    fn = MODELS[c["model"]]
    src = source(c)
    y, Uy, happr, shape, sims = unpack(
        run(c, src, fn, n_cpu=cpu, return_samples=True), 5)
    ref = unpack(run(c, source(c), fn), 4)
    expect(tuple(shape) == tuple(ref[3]), "output shape")
    N = c["runs"] + c["init"]
    expect(len(src.drawn) == N, f"{len(src.drawn)} draws for {N} evaluations")
    A = np.array([fn(s).ravel() for s in src.drawn])
    S = arr(sims["samples"], (c["runs"],) + tuple(c["shape"]), "returned samples")
    expect(np.array_equal(S, np.array(src.drawn[c["init"]:])), "samples are not the draws")
    R = arr(sims["results"]).reshape(c["runs"], -1)
    expect(np.array_equal(R, A[c["init"]:]), "results do not belong to their samples")
    check_statistics(R, y, Uy)
    check_histograms(happr, c["nbins"], A[c["init"]:], A[: c["init"]])
    close(y, arr(ref[0]), "mean", rtol=1e-10, scale=np.max(np.abs(A)))


def noisy(s):
    return s + np.random.randn(*s.shape)


@law("C16", gen.fd(seed=gen.seeds(), cpu=st.sampled_from([1, 2, 3]), runs=st.integers(4, 30),
                   block=st.integers(2, 12)), quick=24, thorough=300,
     classify=lambda c: [f"workers={c['cpu']}"])
def random_models_are_evaluated_independently(c):
    """a model which itself draws random numbers gives different numbers in every run, and
    the same numbers from the same seed"""
    res = []
    for _ in range(2):
        np.random.seed(c["seed"])
        r = unpack(F().UMC_generic(lambda n: np.zeros((n, 2)), noisy, runs=c["runs"],
                                   blocksize=c["block"], runs_init=3, nbins=5,
                                   return_samples=True, n_cpu=c["cpu"]), 5)
        res.append(arr(r[4]["results"]))
    expect(np.array_equal(res[0], res[1]), "equal seeds give different results")
    v = res[0].ravel()
    expect(len(np.unique(v)) == v.size, "runs share their random numbers")


enlarge(statistics_are_those_of_the_evaluated_samples, 24, runs=gen.large(80, 700), block=gen.large(8, 300))
