"""P16: distributions conserve their data across binning and slicing."""
import numpy as np
from harness import gen
from itcl_quantizer.quantizer.distributions.distribution import Distribution

RULE = ("random finite tensors (normal, skewed, lattice with duplicates, constant, single element, float32/int/list, 1-4 dims, offsets up to 1e6) "
        "binned with 1..700 bins or explicit edges, then random sequences of value slices (open, partial, sub-bin, outside, reversed, on edges); "
        "every bin's items compared with a recount of the data; non-trivial = distinct data and slice")


def data(rng):
    k = int(rng.integers(0, 10))
    n = int(rng.choice([1, 2, 3, 7, 30, 200, 1500])) if rng.random() < 0.985 else int(rng.choice([5000, 30000, 70000, 400000]))
    if k == 0:
        a = rng.normal(rng.uniform(-3, 3), rng.uniform(0.01, 5), n)
    elif k == 1:
        a = rng.exponential(2.0, n) * rng.choice([-1, 1])
    elif k == 2:
        a = rng.integers(-6, 7, n) * 0.25
    elif k == 3:
        a = np.full(n, float(rng.choice([0.0, 1.0, -3.5, 0.1, 1e6])))
    elif k == 4:
        a = rng.integers(-100, 100, n)
    elif k == 5:
        a = np.concatenate([rng.normal(0, 1, n), [rng.choice([-40.0, 40.0, 1000.0])]])
    elif k == 6:
        a = np.tanh(rng.normal(0, 6, n))
    elif k == 7:
        a = rng.uniform(1e6, 1e6 + 10, n)
    elif k == 9 and rng.random() < 0.5:     # a few representable values apart
        b = float(rng.choice([1.0, -3.0, 0.1, 1e5, 1e-300]))
        a = b + rng.integers(0, int(rng.choice([2, 5, 40, 3000])), n) * np.spacing(b)
    else:
        a = rng.normal(0, 1, n) * 10.0 ** rng.uniform(-8, 8)
    if a.dtype.kind == "f" and k not in (7, 9) and rng.random() < 0.35:
        a = a.astype(np.float32)
    a = np.array(a)
    if len(a) % 2 == 0 and rng.random() < 0.5:
        a = a.reshape(2, -1) if len(a) % 4 or rng.random() < 0.5 else a.reshape(2, 2, -1)
    rng.shuffle(a)
    return a


def snapshot(D):
    return (list(D.get_histogram()), list(D.get_bin_edges()), D.get_min(), D.get_max(), len(D))


def items_of(ctx, D, what):
    """The distribution's elements bin by bin, with every bin checked."""
    E, H = np.asarray(D.get_bin_edges(), float), list(D.get_histogram())
    ctx.ok(len(E) == len(H) + 1 and len(D) == len(H), "lengths", "%s: %d edges, %d counts, len() %d" % (what, len(E), len(H), len(D)))
    ctx.ok(bool((np.diff(E) >= 0).all()), "edges-sorted", "%s: bin edges are not sorted" % what)
    out = []
    for i in range(len(H)):
        b = D.get_bin(i)
        it = np.asarray(b.items_in_bin, float)
        if H[i] != len(it) or b.items != H[i]:
            ctx.fail("bin-count", "%s: bin %d counts %d, reports items=%d and holds %d elements" % (what, i, H[i], b.items, len(it)))
        if len(it):
            if (np.diff(it) < 0).any():
                ctx.fail("bin-sorted", "%s: bin %d items not sorted" % (what, i))
            if it[0] < E[i] or it[-1] > E[i + 1]:
                ctx.fail("bin-content", "%s: bin %d [%r, %r] holds %r..%r" % (what, i, E[i], E[i + 1], it[0], it[-1]))
            if not (b.min <= it[0] and it[-1] <= b.max and E[i] <= b.min and b.max <= E[i + 1]):
                ctx.fail("bin-bounds", "%s: bin %d [%r, %r] reports bounds %r..%r for items %r..%r" % (what, i, E[i], E[i + 1], b.min, b.max, it[0], it[-1]))
        out.append(it)
    ctx.observe("bin", len(H))
    for i in (-1, -len(H)):
        a, b = D.get_bin(i), D.get_bin(len(H) + i)
        ctx.ok(a.items == b.items and a.min == b.min and a.max == b.max, "negative-index", "%s: bin %d is not bin %d" % (what, i, len(H) + i))
    return np.concatenate(out) if out else np.array([])


def bound(rng, D, flat, side):
    k = int(rng.integers(0, 7))
    lo, hi = float(flat.min()), float(flat.max())
    span = hi - lo or 1.0
    if k == 0:
        return None
    if k == 1:
        return float(rng.choice(flat))
    if k == 2:
        return float(rng.choice(D.get_bin_edges()))
    if k == 3:
        return 0
    if k == 4:
        return (lo - span * float(rng.uniform(0, 1))) if side == 0 else (hi + span * float(rng.uniform(0, 1)))
    return float(rng.uniform(lo, hi))


def run(ctx):
    rng = ctx.rng
    ctx.need("bin", 5000)
    ctx.need("slice", 400)
    ctx.need("indexed", 400)
    ctx.need("slice-subbin", 20)
    ctx.need("slice-bins", 100)
    ctx.need("slice-outside", 10)
    for i in ctx.loop(700, 12000):
        a = data(rng)
        if i % 120 == 7:     # many elements in one bin
            a = np.concatenate([np.full(int(rng.choice([40000, 150000])), 0.5), rng.normal(0, 1, 50)])
        flat = np.sort(a.flatten()).astype(float)
        kind = int(rng.integers(0, 4))
        if kind == 0:
            bins = None
        elif kind == 1:
            bins = int(rng.choice([1, 2, 3, 10, 64, 257, 700]))
        elif kind == 2:
            bins = int(rng.integers(1, 40))
        else:
            e = np.unique(np.concatenate([[flat[0] - rng.choice([0.0, 0.5])], rng.uniform(flat[0], flat[-1], 5), [flat[-1] + rng.choice([0.0, 0.5, 3.0])]]))
            bins = e.tolist() if len(e) > 1 else 4
        arg = a.tolist() if rng.random() < 0.2 else a
        with ctx.case("build", data=a, dtype=str(a.dtype), bins=bins if not isinstance(bins, list) else np.array(bins)):
            keep = a.copy()
            D = Distribution(arg) if bins is None else Distribution(arg, bins=bins)
            ctx.same(a, keep, "input-altered", "the constructor changed the caller's data")
            if isinstance(bins, int):
                ctx.ok(len(D) == bins, "bin-number", "%d bins for %d asked" % (len(D), bins))
            ctx.ok(int(np.sum(D.get_histogram())) == a.size, "conserved", "%d counted of %d elements" % (np.sum(D.get_histogram()), a.size))
            ctx.ok(D.get_min() == flat[0], "minimum", "minimum %r of data whose minimum is %r" % (D.get_min(), flat[0]))
            ctx.ok(D.get_max() == flat[-1], "maximum", "maximum %r of data whose maximum is %r" % (D.get_max(), flat[-1]))
            E = np.asarray(D.get_bin_edges(), float)
            distinct = bool((np.diff(E) > 0).all())
            if not distinct:
                ctx.observe("degenerate-edges")
                continue
            got = items_of(ctx, D, "built")
            ctx.ok(len(got) == len(flat) and bool((got == flat).all()), "elements", "the bins do not hold exactly the data")
            want = np.histogram(a, bins=E)[0] if isinstance(bins, list) else None
            if want is not None:
                ctx.ok(list(want) == list(D.get_histogram()), "recount", "counts %s, recount %s" % (D.get_histogram(), want))
            nrm = np.asarray(D.normalize(), float)
            ctx.close(nrm, np.asarray(D.get_histogram()) / a.size, 1e-12, "normalized", "normalised histogram")
            seen = []
            other = Distribution(flat, bins=D.get_bin_edges())
            r = D.compare(other, lambda p, q: seen.append((np.array(p), np.array(q))) or 4.5)
            ctx.ok(r == 4.5 and np.allclose(seen[0][0], nrm) and np.allclose(seen[0][1], other.normalize()), "compare", "comparison did not see both normalised histograms")
            r = D.compare(other, lambda p, q: seen.append((np.array(p), np.array(q))) or 4.5, norm=False)
            ctx.ok(np.allclose(seen[1][0], D.get_histogram()) and np.allclose(seen[1][1], other.get_histogram()), "compare-raw", "raw comparison did not see both histograms")
        with ctx.case("indexed", data=a, bins=bins if not isinstance(bins, list) else np.array(bins)):
            H = D.get_histogram()
            full = [j for j in range(len(H)) if H[j]]
            for j in rng.choice(full, 3):
                j = int(j)
                b, before = D.get_bin(j), snapshot(D)
                R, S = D[j], D[b.min:b.max]
                ctx.ok(snapshot(D) == before and R is not D, "original-altered", "taking a bin changed the distribution")
                ctx.ok(snapshot(R) == snapshot(S), "indexed-slice", "bin %d is another distribution than the slice between its bounds" % j)
                got = items_of(ctx, R, "bin %d" % j)
                u, c = np.unique(got, return_counts=True)
                v, n = np.unique(np.asarray(b.items_in_bin, float), return_counts=True)
                k = np.searchsorted(u, v)
                ctx.ok(bool(np.isin(v, u).all()) and bool((c[np.minimum(k, len(u) - 1)] >= n).all()), "indexed-lost", "bin %d lacks elements of the bin" % j)
                ctx.observe("indexed")
        cur, pool = D, flat
        for step in range(int(rng.integers(1, 4))):
            if not len(pool):
                break
            lo, hi = bound(rng, cur, pool, 0), bound(rng, cur, pool, 1)
            if rng.random() < 0.12:      # wholly outside
                w = (flat[-1] - flat[0]) or 1.0
                lo = flat[-1] + w * rng.uniform(0.01, 2)
                hi = lo + w * rng.uniform(0.1, 2)
                if rng.random() < 0.5:
                    lo, hi = flat[0] - (hi - flat[-1]), flat[0] - (lo - flat[-1])
                lo, hi = float(lo), float(hi)
            elif lo is not None and hi is not None and lo > hi and rng.random() < 0.9:
                lo, hi = hi, lo
            with ctx.case("slice", data=a, bins=bins if not isinstance(bins, list) else np.array(bins), step=step, lo=lo, hi=hi):
                before = snapshot(cur)
                R = cur[lo:hi]
                ctx.ok(snapshot(cur) == before, "original-altered", "slicing changed the sliced distribution")
                ctx.ok(R is not cur, "slice-new", "slicing returned the same object") if (lo is not None or hi is not None) else None
                a0 = pool[0] if lo is None else lo
                a1 = pool[-1] if hi is None else hi
                E, H = cur.get_bin_edges(), cur.get_histogram()
                RE, RH = R.get_bin_edges(), R.get_histogram()
                inside = pool[(pool >= a0) & (pool <= a1)]
                got = items_of(ctx, R, "sliced")
                wmax = float(np.max(np.diff(np.asarray(E, float))))
                lost = np.setdiff1d(inside, got)
                ctx.ok(len(lost) == 0 and len(got) >= len(inside), "slice-lost", "slice [%r, %r] lost %s (%d of %d kept)" % (a0, a1, lost[:4], len(got), len(inside)))
                u, c = np.unique(got, return_counts=True)
                pu, pc = np.unique(pool, return_counts=True)
                idx = np.searchsorted(pu, u)
                ctx.ok(bool(np.isin(u, pu).all()) and bool((c <= pc[np.minimum(idx, len(pu) - 1)]).all()), "slice-invented", "the slice holds elements the original does not")
                if len(got) and a0 <= a1:
                    eps = 1e-9 * max(1.0, abs(a0), abs(a1))
                    ctx.ok(got[0] >= a0 - wmax - eps and got[-1] <= a1 + wmax + eps, "slice-kept",
                           "slice [%r, %r] keeps %r..%r, bins at most %r wide" % (a0, a1, got[0], got[-1], wmax))
                if a0 > a1:
                    ctx.ok(len(got) == 0 or (got[0] >= a1 - wmax and got[-1] <= a0 + wmax), "slice-reversed", "reversed slice keeps data")
                ctx.ok(int(np.sum(RH)) == len(got), "slice-conserved", "%s counted, %d held" % (np.sum(RH), len(got)))
                eps = 1e-9 * max(1.0, abs(float(E[0])), abs(float(E[-1])))
                inner = sum(bool(x >= a0 + eps and y <= a1 - eps) for x, y in zip(E[:-1], E[1:]))     # bins inside the interval
                if len(RH) > 1 or inner > 1 and a1 - a0 > wmax + eps:
                    ctx.observe("slice-bins")
                    k = [j for j in range(len(E)) if E[j] == RE[0]]
                    ctx.ok(bool(k) and any(list(E[j:j + len(RE)]) == list(RE) and list(H[j:j + len(RH)]) == list(RH) for j in k), "slice-counts",
                           "kept bins are not a run of the original's bins with their counts")
                elif len(got):
                    ctx.observe("slice-subbin")
                if len(got):
                    ctx.ok(R.get_min() == got[0] and R.get_max() == got[-1], "slice-minmax", "slice reports %r..%r, holds %r..%r" % (R.get_min(), R.get_max(), got[0], got[-1]))
                else:
                    ctx.observe("slice-outside")
                ctx.observe("slice")
                cur, pool = R, got
            if cur is D:
                break
