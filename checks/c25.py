"""C25: discrete distributions.  DiscreteDist.tla (exact, trial by trial) and the masses of
Distributions.tla against Bernoulli, Binomial, Poisson and the discrete Uniform."""
import bisect, math
from fractions import Fraction
from lib import vp
from lib.expr import Dag, mpmath

PS = [(0, 1), (1, 1), (1, 2), (1, 3), (2, 3), (1, 4), (3, 4), (1, 5), (4, 5), (2, 5), (3, 5), (1, 6), (5, 6), (1, 7), (3, 7), (1, 10), (9, 10), (3, 10), (7, 10)]
TS = [0.0, 0.3, -0.7, 1.0, -2.1, 3.0]
PROBS = [0.0, 1e-11, 1e-9, 1e-6, 0.001, 0.01, 0.05, 0.1, 0.25, 0.37, 0.5, 0.63, 0.75, 0.9, 0.95, 0.99, 0.999, 0.999999, 1 - 1e-9, 1.0]
N_SAMPLE = 20000
DKW = math.sqrt(math.log(2e12) / (2 * N_SAMPLE))     # P(sup |F_n - F| > DKW) < 1e-12


def tla(p):
    return f"<<{p[0]}, {p[1]}>>"


class Dist:
    """what a discrete distribution is: its support and masses (mp numbers), everything else by definition"""

    def __init__(self, d, a, lo, w, mp, med=None, mode=None):
        self.d, self.a, self.lo, self.w, self.mp = d, a, lo, w, mp
        self.cum = []
        acc = mp.mpf(0)
        for x in w:
            acc += x
            self.cum.append(acc)
        self.med, self.mode = med, mode

    def ks(self):
        return range(self.lo, self.lo + len(self.w))

    def cdf(self, x):
        i = math.floor(x) - self.lo
        return self.mp.mpf(0) if i < 0 else self.mp.mpf(1) if i >= len(self.w) else self.cum[i]

    def pmf(self, k):
        i = k - self.lo
        return self.w[i] if 0 <= i < len(self.w) else self.mp.mpf(0)

    def is_quantile(self, k, q, tol=None):
        tol = 1e-9 * min(q, 1 - q) + 3e-13 if tol is None else tol
        if k != math.floor(k):
            return False
        return self.cdf(k) >= q - tol and self.cdf(k - 1) <= q + tol


def points(ds, rng):
    n = len(ds.w)
    ks = sorted({0, 1, n - 1, n // 2, *(rng.randrange(n) for _ in range(12)), *([bisect.bisect(ds.cum, ds.mp.mpf(q)) for q in (0.01, 0.3, 0.5, 0.7, 0.99)])})
    return [ds.lo + i for i in ks if 0 <= i < n]


def check(ctx, ds, c, r, Q, sampled):
    """c: case, r: what the code said, Q: mean, variance, skewness, kurtosis, entropy, {mgf}, {cf} by definition"""
    d, a = ds.d, ds.a
    who = f"{d}{tuple(a)}"

    def bad(what, key=None, **kw):
        ctx.violation(f"{who}: {what}", dict(case=c, result=r, **kw), key=key)

    def eq(name, exp, got, rel=1e-9, abs_=1e-12):
        ctx.evaluations += 1
        if not vp.close(float(exp), got, rel, abs_):
            bad(f"{name} = {got}, by definition {float(exp)!r}")

    if "skipped" in r:
        return None
    if "dead" in r or "panic" in r:
        return bad(f"crashed: {str(r)[:100]}")
    todo = lambda x: isinstance(x, dict) and "not yet implemented" in x.get("panic", "")
    eq("mean", Q["mean"], r["mean"], abs_=1e-9)
    eq("variance", Q["variance"], r["variance"])
    if Q["variance"] > 0:
        eq("skewness", Q["skewness"], r["skewness"], abs_=1e-9)
        eq("excess kurtosis", Q["kurtosis"], r["kurtosis"], abs_=1e-9)
    # entropy
    if not todo(r["entropy"]) and not vp.close(float(Q["entropy"]), r["entropy"], 1e-9, 1e-12):
        pinned = None
        if d == "binomial":
            v = float(Q["variance"])
            pinned = 0.5 * math.log(2 * math.pi * math.e * v) if v > 0 else "-inf"
        bad(f"entropy = {r['entropy']}, by definition {float(Q['entropy'])!r}",
            key="binomial-entropy" if d == "binomial" and (r["entropy"] == pinned or vp.close(pinned, r["entropy"], 1e-9, 1e-12)) else None)
    # median, mode
    m = r["median"]
    ok = isinstance(m, (int, float)) and (ds.is_quantile(m, 0.5) or
                                          (d == "uniform" and vp.close(float(Q["mean"]), m, 1e-12, 1e-9)))
    if ds.med is not None and isinstance(m, (int, float)) and d != "uniform":
        ok = m in ds.med
    if not ok:
        bad(f"median = {m}" + (f", medians {ds.med}" if ds.med else f", but F({m}) = {float(ds.cdf(m)):.6g}" if isinstance(m, float) else ""))
    m = r["mode"]
    if not todo(m):
        top = max(ds.w)
        if not isinstance(m, (int, float)) or m != math.floor(m) or (m not in ds.mode if ds.mode is not None else ds.pmf(int(m)) < top * (1 - ds.mp.mpf(10) ** -9)):
            bad(f"mode = {m}" + (f", modes {ds.mode}" if ds.mode else ""))
    # masses and distribution function
    for k, g, g2 in zip(c["pmf"], r["pmf"], r["pdf"]):
        e = ds.pmf(int(k))
        eq(f"pmf({k})", e, g, 1e-8, 1e-14)
        eq(f"pdf({k})", e, g2, 1e-8, 1e-14)
    for x, g in zip(c["cdf"], r["cdf"]):
        e = float(ds.cdf(x))
        ctx.evaluations += 1
        if not vp.close(e, g, 1e-9, 1e-11):
            key = None
            if d == "poisson":
                P = 1 - ds.mp.mpf(ds.cdf(x)) if x == math.floor(x) else ds.mp.gammainc(x + 1, 0, a[0], regularized=True)
                pinned = 1 - P / (1 - P) if P < 1 else None
                # the value the unit test fixes; it overflows where Gamma(x + 1) does
                if pinned is None or x > 160 or P > 1 - 1e-12 or vp.close(float(pinned), g, 1e-6, 1e-9):
                    key = "poisson-cdf"
            bad(f"cdf({x}) = {g}, by definition {e!r}", key=key)
    for q, g in zip(c["inv"], r["inv"]):
        ctx.evaluations += 1
        if todo(g):
            continue
        if d == "poisson" and q == 1.0:
            if g != "inf":
                bad(f"inv_cdf(1) = {g}")
        elif not isinstance(g, (int, float)) or not ds.is_quantile(g, q) or (q == 0.0 and d != "bernoulli" and g > ds.lo + bisect.bisect_right(ds.cum, 1e-10)):
            bad(f"inv_cdf({q}) = {g}" + (f": F there {float(ds.cdf(g))!r}, before {float(ds.cdf(g - 1))!r}" if isinstance(g, (int, float)) else ""))
    big = max(abs(ds.lo), abs(ds.lo + len(ds.w)))
    for t, g in zip(c["mgf"], r["mgf"]):
        rel = 1e-9
        if d == "uniform" and t:
            rel = 1e-12 * (1 + abs(t) * big) / min(1.0, abs(t))
        eq(f"mgf({t})", Q["mgf"][t], g, max(rel, 1e-9), 0)
    for t, re, im in zip(c["cf"], r["re"], r["im"]):
        er, ei = Q["cf"][t]
        ab = 1e-10
        if d == "uniform" and t:
            ab = max(ab, 1e-13 * (1 + abs(t) * big) / abs(math.sin(t / 2)))
        eq(f"Re cf({t})", er, re, 0, ab)
        eq(f"Im cf({t})", ei, im, 0, ab)
    # samples
    if sampled:
        v = r["sample"]
        ctx.traces += 1
        if not isinstance(v, list) or len(v) != c["sample"]:
            return bad(f"sample({c['sample']}) gave {str(v)[:80] if not isinstance(v, list) else len(v)}")
        r["sample"] = "(omitted)"
        off = [x for x in v if not isinstance(x, (int, float)) or x != math.floor(x) or ds.pmf(int(x)) <= 0]
        if off:
            return bad(f"a sample of {off[0]}, which has no mass")
        N = len(v)
        cnt = {}
        for x in v:
            cnt[int(x)] = cnt.get(int(x), 0) + 1
        run, worst = 0, (0, 0)
        for k in sorted(set(cnt) | {k for k in ds.ks() if ds.pmf(k) > 1e-3}):
            run += cnt.get(k, 0)
            worst = max(worst, (abs(run / N - float(ds.cdf(k))), k))
        if worst[0] > math.sqrt(math.log(2e12) / (2 * N)):
            bad(f"{N} samples: the share up to {worst[1]} differs from F by {worst[0]:.4f}")
        sd = math.sqrt(float(Q["variance"]))
        mean = sum(v) / N
        if abs(mean - float(Q["mean"])) > 8 * sd / math.sqrt(N) + 1e-9:
            bad(f"{N} samples: mean {mean}, expected {float(Q['mean'])} (sd {sd})")
        if sd > 0:
            var = sum((x - mean) ** 2 for x in v) / N
            se = sd * sd * math.sqrt(max(float(Q["kurtosis"]) + 2, 0.0) / N)
            if abs(var - sd * sd) > 9 * se + 100 * sd * sd / N:
                bad(f"{N} samples: variance {var}, expected {sd * sd}")


def definition(dag, roots, ds, mp, ts):
    """mean .. cf as sums of w(k) pmf(k), the weights from the specification"""

    def total(what, env):
        acc, small = mp.mpf(0), 0 if what == "mgf" else mp.mpf(10) ** -45
        for k, w in zip(ds.ks(), ds.w):
            if w > small:
                acc += dag.run(dict(env, k=k), [roots[what]], mp)[0] * w
        return acc
    Q = {}
    Q["mean"] = total("mean", {})
    c = {x: total(x, {"mean": Q["mean"]}) for x in ("c2", "c3", "c4")}
    for x in ("variance", "skewness", "kurtosis"):
        Q[x] = c["c2"] if x == "variance" else (dag.run(c, [roots[x]], mp)[0] if c["c2"] > 0 else None)
    Q["entropy"] = -mp.fsum(w * mp.log(w) for w in ds.w if w > 0)
    Q["mgf"] = {t: total("mgf", {"t": t}) for t in ts}
    Q["cf"] = {t: (total("re", {"t": t}), total("im", {"t": t})) for t in ts}
    return Q


def run(ctx):
    b = vp.Build(ctx, "dist", "mathx")
    top = ctx.pick(2_000_000, 4_000_000)
    sets = [(n, p) for p in PS for n in range(1, ctx.pick(9, 12)) if p[1] ** (n + 4) <= top]
    over = ("---- MODULE MCd ----\nEXTENDS DiscreteDist\nPrV == {" + ", ".join(map(tla, PS)) + "}\nSV == {"
            + ", ".join(f"<<{n}, {tla(p)}>>" for n, p in sets) + "}\nBV == {<<aa, ww>> : aa \\in (0 - " + str(ctx.pick(9, 20)) + ") .. 7, ww \\in 0 .. "
            + str(ctx.pick(10, 20)) + "}\n====\n")
    cfg = vp.cfg_text(invariants=("Sum1", "NonNeg", "Closed", "ClosedU", "MedianNearMean", "Emit")) + "\nCONSTANT Sets <- SV\nCONSTANT Probs <- PrV\nCONSTANT Bounds <- BV\n"
    ex, fo = vp.par(lambda: vp.tlc(ctx, "MCd", cfg, name="exact", overrides={"MCd.tla": over}).lines,
                    lambda: vp.tlc(ctx, "Distributions", vp.cfg_text(), name="formulas").lines)
    mp = mpmath(30)
    rng = ctx.rng
    dag = Dag()
    F = {x["d"]: x for x in fo if x["kind"] == "discrete"}
    roots = {k: dag.add(e) for k, e in F["poisson"]["w"].items()}
    roots.update({k: dag.add(e) for k, e in F["poisson"]["of"].items()})
    F = {d: {g: dag.add(x[g]) for g in ("pmf", "lo", "hi")} for d, x in F.items()}
    todo = []
    q = lambda x: mp.mpf(x[0]) / x[1]
    # exact machines
    ex.sort(key=lambda e: str(e["cfg"]))
    for e in ex:
        g = e["cfg"]
        if g["d"] == "uniform":
            a = [g["a"], g["b"]]
        elif g["d"] == "bernoulli":
            a = [g["p"][0] / g["p"][1]]
        else:
            a = [g["n"], g["p"][0] / g["p"][1]]
        ds = Dist(g["d"], a, e["lo"], [q(w) for w in e["w"]], mp, med=sorted(e["med"]), mode=sorted(e["mode"]))
        v = q(e["m2"])
        if g["d"] == "bernoulli" and g["p"] == [1, 2]:
            pass
        Q = {"mean": q(e["mean"]), "variance": v,
             "skewness": q(e["m3"]) / v ** mp.mpf(1.5) if v else None, "kurtosis": q(e["m4"]) / v ** 2 - 3 if v else None}
        todo.append((ds, Q))
    ctx.notes["exact_distributions"] = len(todo)
    # formulas over large parameters
    want = []
    for _ in range(ctx.pick(40, 300)):
        want.append(("bernoulli", [rng.choice([round(rng.random(), 6), 10 ** rng.uniform(-9, -1), 1 - 10 ** rng.uniform(-7, -1)])]))
        want.append(("binomial", [rng.choice([rng.randint(1, 30), rng.randint(10, 80), rng.randint(60, 400)]), rng.choice([0.5, 0.0, 1.0, round(rng.random(), 4), round(rng.random(), 4), 1e-3, 0.997])]))
        want.append(("poisson", [rng.choice([round(rng.uniform(0.01, 3), 3), round(rng.uniform(1, 40), 2), float(rng.randint(1, 30)), round(rng.uniform(30, 300), 1)])]))
    for _ in range(ctx.pick(10, 60)):
        lo = rng.randint(-1000, 1000)
        want.append(("uniform", [lo, lo + rng.choice([0, 1, 2, 17, rng.randint(3, 400)])]))
        want.append(("uniform", [lo + 0.3, lo + rng.randint(1, 30) - 0.4]))          # ends are rounded to integers
    for d, a in want:
        env = dict(zip({"bernoulli": "p", "binomial": "np", "poisson": ["lam"], "uniform": "ab"}[d], a))
        if d == "uniform":
            env = {x: float(math.floor(y + 0.5)) for x, y in env.items()}
        lo, hi = (int(x) for x in dag.run(env, [F[d]["lo"], F[d]["hi"]], mp))
        w = []
        for k in range(lo, hi + 1):
            x = dag.run(dict(env, k=k), [F[d]["pmf"]], mp)[0]
            w.append(mp.mpf(0) if x is None else x)
        if d == "binomial" and a[1] in (0.0, 1.0):               # 0 ^ 0
            w = [mp.mpf(0)] * (a[0] + 1)
            w[0 if a[1] == 0 else a[0]] = mp.mpf(1)
        ds = Dist(d, a, lo, w, mp)
        if abs(ds.cum[-1] - 1) > 1e-15:
            raise vp.ToolError(f"masses of {d}{a} sum to {ds.cum[-1]}")
        todo.append((ds, None))
    cases = []
    for i, (ds, Q) in enumerate(todo):
        ts = [t for t in TS if t] if len(ds.w) < 30 else [0.0, 0.05, -0.2, 1.3]
        if Q is None or i % 3 == 0:
            ts = ts + [round(rng.uniform(-1, 1), 3), round(rng.uniform(-3, 3), 3)]
        ts = [0.0] + [t for t in dict.fromkeys(ts) if t and abs(math.sin(t / 2)) > 0.005]
        full = definition(dag, roots, ds, mp, ts)
        if Q is not None:
            for x, y in Q.items():                                # the two routes of the specification agree
                if y is not None and abs(full[x] - y) > mp.mpf(10) ** -15 * (1 + abs(y)):
                    raise vp.ToolError(f"{ds.d}{ds.a} {x}: {full[x]} # {y}")
        pk = points(ds, rng)
        cd = sorted({float(k) for k in pk} | {k + 0.5 for k in pk[::3]} | {k - e * max(1, abs(k)) for k in pk[::2] if k > ds.lo for e in (1e-7, 1e-12)})
        if ds.d != "poisson":
            cd += [ds.lo - 0.25, ds.lo - 1.0, ds.lo - 17.5, ds.lo + len(ds.w) - 1 + 0.75, ds.lo + len(ds.w) + 3.0]
        inv = PROBS + [round(rng.random(), 5) for _ in range(4)] + [float(x) for x in ds.cum if 1e-9 < x < 1 - 1e-9][:4]
        smp = i % ctx.pick(4, 2) == 0 or (Q is None and i % 2 == 0)
        c = {"d": ds.d, "a": [float(x) for x in ds.a], "pmf": [float(k) for k in pk], "pdf": [float(k) for k in pk], "cdf": cd, "inv": inv,
             "mgf": [t for t in ts if 1e-250 < full["mgf"][t] < 1e250 and (ds.d != "poisson" or
                                                           (lambda m: m + 15 * math.sqrt(m) + 20 < len(ds.w))(ds.a[0] * math.exp(t)))], "cf": ts, "sample": N_SAMPLE if smp else 0}
        cases.append((ds, full, c, smp))
        ctx.nontriv((ds.d, tuple(ds.a)))
    ctx.sample({k: (v[:4] if isinstance(v, list) else v) for k, v in cases[0][2].items()})
    ctx.sample({k: (v[:4] if isinstance(v, list) else v) for k, v in cases[-1][2].items()})
    for lo in range(0, len(cases), 100):
        part = cases[lo:lo + 100]
        for (ds, Q, c, smp), r in zip(part, vp.run_harness(ctx, b.get(), [x[2] for x in part])):
            check(ctx, ds, c, r, Q, smp)
    ctx.assumptions += ["samples are drawn by thread_rng: each sampling check is wrong with probability below 1e-11",
                        "Poisson::entropy, the discrete Uniform's inv_cdf and mode are todo!() and not judged; cdf of Poisson below 0 and pmf of Bernoulli/Binomial off the support panic and are not judged"]
    return ctx.finish("a distribution's parameters; every quantity at its points, by the definition over exact masses", exhaustive=False)
