"""C26: continuous distributions.  The formulas of Distributions.tla (distribution function, density
as its derivative, cumulants from the moment-generating function) against Gaussian, Exponential,
Gamma, ChiSquared and the continuous Uniform."""
import math
from lib import vp
from lib.expr import Dag, mpmath

N_SAMPLE = 20000
NAMES = {"gaussian": ["mu", "v"], "exponential": ["lam"], "gamma": ["al", "be"], "chisquared": ["n"], "uniform": ["a", "b"]}
OPS = {"uniform": "uniformc"}


def r4(x):
    return float(f"{x:.4g}")


def params(rng, d):
    if d == "gaussian":
        return [rng.choice([0.0, r4(rng.uniform(-5, 5)), r4(rng.uniform(-1e3, 1e3))]), rng.choice([1.0, r4(10 ** rng.uniform(-4, 4)), r4(10 ** rng.uniform(-1, 1))])]
    if d == "exponential":
        return [rng.choice([1.0, r4(10 ** rng.uniform(-3, 3))])]
    if d == "gamma":
        return [rng.choice([1.0, 0.5, r4(rng.uniform(0.03, 0.4)), r4(rng.uniform(0.3, 5)), r4(rng.uniform(0.85, 1.15)), float(rng.randint(1, 12)), r4(10 ** rng.uniform(0, 2.7))]), rng.choice([1.0, r4(10 ** rng.uniform(-2, 2))])]
    if d == "chisquared":
        return [float(rng.choice([1, 2, 3, 4, rng.randint(1, 30), rng.randint(1, 30), rng.randint(30, 900)]))]
    a = rng.choice([0.0, r4(rng.uniform(-1, 1)), r4(rng.uniform(-500, 500))])
    return [a, round(a + rng.choice([1.0, r4(10 ** rng.uniform(-2, 2.5))]), 6)]


FIXED = {"gamma": [[0.95, 1.0], [0.999, 3.0], [0.05, 2.0], [1.0, 0.5], [1.0001, 4.0], [400.0, 0.25]], "chisquared": [[1.0], [2.0], [3.0], [4.0], [501.0]],
         "gaussian": [[0.0, 1.0], [1000.0, 1e-4], [-3.0, 1e4]], "exponential": [[1.0], [1e-3], [1e3]]}


class Cont:
    def __init__(self, d, a, F, dag, mp):
        self.d, self.a, self.F, self.dag, self.mp = d, a, F, dag, mp
        self.env = {n: mp.mpf(x) for n, x in zip(NAMES[d], a)}
        self.k = dag.run(dict(self.env, t=mp.mpf(0)), F["cum"], mp)
        if d == "uniform":
            self.lo, self.hi = a[0], a[1]
        else:
            self.lo, self.hi = (-math.inf if d == "gaussian" else 0.0), math.inf
        self.mean, self.sd = float(self.k[0]), float(mp.sqrt(self.k[1]))

    def at(self, what, x):
        return self.dag.run(dict(self.env, x=self.mp.mpf(x)), [self.F[what]], self.mp)[0]

    def cdf(self, x):
        if x <= self.lo:
            return self.mp.mpf(0)
        if x >= self.hi:
            return self.mp.mpf(1)
        return self.at("cdf", x)

    def mgf(self, t):
        if t == 0:
            return self.mp.mpf(1)
        return self.dag.run(dict(self.env, t=self.mp.mpmathify(t)), [self.F["mgf"]], self.mp, cplx=isinstance(t, complex))[0]

    def entropy(self):
        mp, m, s = self.mp, self.mean, self.sd
        f = lambda x: self.at("entropy", x) or mp.mpf(0)
        if self.d == "uniform":
            pts = [self.a[0], self.a[1]]
        elif self.d == "gaussian":
            pts = [m - 12 * s, m - 5 * s, m - 2 * s, m, m + 2 * s, m + 5 * s, m + 12 * s]
        else:
            pts = sorted({0, *(x for x in (m - 9 * s, m - 4 * s, m - 1.5 * s, m - 0.6 * s) if x > 0), m, m + 2 * s, m + 6 * s, m + 15 * s, m + 45 * s})
        return mp.quad(f, pts)


def xs(c, rng, n):
    out = []
    for _ in range(n):
        u = rng.random()
        if c.d == "uniform":
            x = rng.choice([c.lo, c.hi, c.lo + u * (c.hi - c.lo), c.lo + u * (c.hi - c.lo), c.lo - u * 3, c.hi + u * 3])
        elif c.d == "gaussian":
            x = c.mean + c.sd * rng.choice([0.0, rng.uniform(-3, 3), rng.uniform(-8, 8), rng.uniform(-1, 1), rng.uniform(-36, -5)])
        else:
            x = rng.choice([c.mean * 2 * u, c.mean + c.sd * rng.uniform(-2, 4), c.mean + c.sd * rng.uniform(0, 12), c.mean * 10 ** rng.uniform(-3, 0)])
            if x <= 0:
                x = c.mean * u
            if c.d in ("exponential", "chisquared") and u < 0.1:
                x = 0.0
        out.append(float(f"{x:.12g}"))
    return out


def check(ctx, c, case, r, ent):
    mp = c.mp
    who = f"{c.d}{tuple(c.a)}"

    def bad(what, key=None):
        ctx.violation(f"{who}: {what}", dict(case={k: v for k, v in case.items() if k != "sample"}, result={k: v for k, v in r.items() if k != "sample"}), key=key)

    def eq(name, exp, got, rel=1e-9, abs_=0.0):
        ctx.evaluations += 1
        if not vp.close(float(exp), got, rel, abs_):
            bad(f"{name} = {got}, by definition {float(exp)!r}")
    if "skipped" in r:
        return None
    if "dead" in r or "panic" in r:
        return bad(f"crashed: {str(r)[:100]}")
    todo = lambda x: isinstance(x, dict) and x.get("panic", "").startswith("not ")
    k1, k2, k3, k4 = c.k
    eq("mean", k1, r["mean"], abs_=1e-12 * (1 + abs(c.mean)))
    eq("variance", k2, r["variance"])
    eq("skewness", k3 / k2 ** mp.mpf(1.5), r["skewness"], abs_=1e-9)
    eq("excess kurtosis", k4 / k2 ** 2, r["kurtosis"], abs_=1e-9)
    if not todo(r["entropy"]):
        eq("entropy", ent, r["entropy"], 1e-7, 1e-7)
    m = r["median"]
    if not todo(m):
        ctx.evaluations += 1
        if not isinstance(m, (int, float)) or abs(c.cdf(m) - mp.mpf(0.5)) > 1e-9 * (1 + abs(c.mean) / c.sd):
            k = c.a[0]
            bad(f"median = {m}, where F is {float(c.cdf(m)) if isinstance(m, (int, float)) else None!r}",
                key="chi-squared-median" if c.d == "chisquared" and vp.close(k * (1 - 2 / (9 * k)) ** 3, m, 1e-12) else None)
    m = r["mode"]
    ctx.evaluations += 1
    if not isinstance(m, (int, float)) or not c.lo <= m <= c.hi:
        bad(f"mode = {m}")
    elif c.d != "uniform":
        probe = [c.mean + c.sd * z / 4 for z in range(-12, 13)] + [m + c.sd * z for z in (-0.1, -0.01, -1e-3, 1e-3, 0.01, 0.1)]
        unbounded = c.d == "gamma" and c.a[0] < 1 or c.d == "chisquared" and c.a[0] < 2
        if unbounded and m != 0:
            bad(f"mode = {m}, the density is unbounded at 0")
        elif not unbounded:
            top = c.at("pdf", m if m > c.lo else c.sd * 1e-9)
            for y in probe:
                if y > c.lo and c.at("pdf", y) > top * (1 + mp.mpf(10) ** -8):
                    bad(f"mode = {m}, but the density is higher at {y}")
                    break
    z = abs(c.mean) / c.sd if c.d in ("gaussian",) else 0.0
    for x, g, g2 in zip(case["pdf"], r["pdf"], r["pmf"]):
        e = mp.mpf(0) if x < c.lo or x > c.hi else c.at("pdf", x) if x > 0 or c.d != "chisquared" else \
            None if x < 0 or c.a[0] < 2 else mp.mpf(0.5 if c.a[0] == 2 else 0)
        if e is None:
            continue
        arg = ((x - c.mean) / c.sd) ** 2 if c.d == "gaussian" else abs(x - c.mean) / c.sd + abs(c.mean) / c.sd
        rel = 1e-10 * (1 + arg * (1 + z) ** 0.5)
        eq(f"pdf({x})", e, g, rel, 1e-300)
        eq(f"pmf({x})", e, g2, rel, 1e-300)
    for x, g in zip(case["cdf"], r["cdf"]):
        if c.d == "chisquared" and c.a[0] == 1 and x == 0:      # the assertion there leaves it out
            continue
        if c.d == "gaussian":
            eq(f"cdf({x})", c.cdf(x), g, 1e-13 * (1 + ((x - c.mean) / c.sd) ** 2) * (1 + z) + 1e-12, 1e-300)
            continue
        eq(f"cdf({x})", c.cdf(x), g, 1e-9 * (1 + z), 2e-15 * (1 + z) + (1e-13 if c.d in ("gamma", "chisquared") else 0))
    for p, g in zip(case["inv"], r["inv"]):
        if todo(g):
            continue
        ctx.evaluations += 1
        if p in (0.0, 1.0):
            e = (c.lo, c.hi)[int(p)]
            if not (g == ("inf" if e > 0 else "-inf") if math.isinf(e) else vp.close(e, g, 1e-12, 1e-12)):
                bad(f"inv_cdf({p}) = {g}, expected {e}")
        elif not isinstance(g, (int, float)) or abs(c.cdf(g) - mp.mpf(p)) > 1e-9 * (1 + z) * min(p, 1 - p) + 2e-15 * (1 + abs(c.mean) / c.sd) + \
                (5e-8 if c.d == "chisquared" and c.a[0] < 2 else 0):       # arguments below 1e-15 count as 0 in the incomplete gamma function
            bad(f"inv_cdf({p}) = {g}, where F is {float(c.cdf(g)) if isinstance(g, (int, float)) else None!r}")
    big = max(abs(x) for x in c.a)
    for t, g in zip(case["mgf"], r["mgf"]):
        rel = 1e-12 * (1 + abs(t) * (big if c.d != "gamma" else 1)) / (min(1.0, abs(t) * c.sd) if c.d == "uniform" and t else 1)
        if c.d in ("gamma", "chisquared", "exponential"):
            lim = c.a[-1] if c.d != "chisquared" else 0.5
            rel = 1e-13 * (1 + c.a[0]) / (1 - min(t / lim, 0.999999)) * 10
        eq(f"mgf({t})", c.mgf(t), g, max(rel, 1e-10), 0)
    for t, re, im in zip(case["cf"], r["re"], r["im"]):
        e = c.mgf(1j * t)
        e = mp.mpc(e)
        ab = 1e-10
        if c.d == "uniform" and t:
            ab = max(ab, 1e-13 * (1 + abs(t) * big) / min(1.0, abs(t) * c.sd))
        eq(f"Re cf({t})", e.real, re, 1e-9, ab)
        eq(f"Im cf({t})", e.imag, im, 1e-9, ab)
    if case["sample"]:
        ctx.traces += 1
        v = r["sample"]
        if not isinstance(v, list) or len(v) != case["sample"] or not all(isinstance(x, (int, float)) for x in v):
            return bad(f"sample({case['sample']}) gave {str(v)[:80]}")
        N = len(v)
        v = sorted(v)
        if v[0] < c.lo or v[-1] > c.hi:
            return bad(f"a sample outside the support: {v[0]} .. {v[-1]}")
        eps = math.sqrt(math.log(2e12) / (2 * N))                # Dvoretzky-Kiefer-Wolfowitz
        for i in range(0, N, N // 60):
            F = float(c.cdf(v[i]))
            if not (i / N - eps <= F <= (i + 1) / N + eps):
                bad(f"{N} samples: a share of {i / N:.4f} lies below {v[i]}, F is {F:.4f}")
                break
        mean = math.fsum(v) / N
        if abs(mean - c.mean) > 8 * c.sd / math.sqrt(N):
            bad(f"{N} samples: mean {mean}, expected {c.mean} (sd {c.sd})")
        var = math.fsum((x - mean) ** 2 for x in v) / N
        if abs(var - c.sd ** 2) > 9 * c.sd ** 2 * math.sqrt((float(c.k[3] / c.k[1] ** 2) + 2) / N) + 100 * c.sd ** 2 / N:
            bad(f"{N} samples: variance {var}, expected {c.sd ** 2}")
        if len(set(v)) < N // 2:
            bad(f"{N} samples take only {len(set(v))} values")


def run(ctx):
    b = vp.Build(ctx, "dist", "mathx")
    lines = vp.tlc(ctx, "Distributions", vp.cfg_text(), name="formulas").lines
    mp = mpmath(30)
    rng = ctx.rng
    dag = Dag()
    F = {x["d"]: dict({g: dag.add(x[g]) for g in ("cdf", "pdf", "mgf", "entropy")}, cum=[dag.add(e) for e in x["cum"]]) for x in lines if x["kind"] == "continuous"}
    cases = []
    for d in sorted(F):
        for i in range(ctx.pick(30, 250)):
            a = FIXED[d][i] if i < len(FIXED.get(d, [])) else params(rng, d)
            c = Cont(d, a, F[d], dag, mp)
            n = ctx.pick(14, 30)
            lim = {"exponential": a[0], "gamma": a[-1], "chisquared": 0.5}.get(d)
            ts = [0.0]
            for _ in range(6):
                t = rng.choice([rng.uniform(-2, 2), rng.uniform(-0.3, 0.3)]) / c.sd
                if lim is not None:
                    t = rng.choice([t if t < lim * 0.999 else lim * rng.uniform(0, 0.99), lim * rng.uniform(-3, 0.95)])
                if abs(t) * c.sd > 1e-3:
                    ts.append(float(f"{t:.10g}"))
            ts = [t for t in ts if c.mgf(t) is not None and mp.mpf(10) ** -250 < c.mgf(t) < mp.mpf(10) ** 250]
            cf = [0.0] + [float(f"{rng.choice([rng.uniform(-3, 3), rng.uniform(-30, 30) if d == 'uniform' else rng.uniform(-6, 6)]) / c.sd:.10g}") for _ in range(6)]
            inv = [0.0, 1.0, 0.5, 0.25, 0.975] + [float(f"{rng.choice([rng.random(), 10 ** rng.uniform(-12, -1), 1 - 10 ** rng.uniform(-9, -1)]):.12g}") for _ in range(6)]
            case = {"d": OPS.get(d, d), "a": a, "pdf": xs(c, rng, n), "cdf": xs(c, rng, n), "inv": inv, "mgf": ts, "cf": cf,
                    "sample": N_SAMPLE if i % 3 == 0 else 0}
            case["pmf"] = case["pdf"]
            cases.append((c, case))
            ctx.nontriv((d, tuple(a)))
    ctx.sample({k: (v[:4] if isinstance(v, list) else v) for k, v in cases[0][1].items()})
    ctx.sample({k: (v[:4] if isinstance(v, list) else v) for k, v in cases[-1][1].items()})
    for lo in range(0, len(cases), 200):
        part = cases[lo:lo + 200]
        for (c, case), r in zip(part, vp.run_harness(ctx, b.get(), [x[1] for x in part])):
            need = c.d != "gamma" or isinstance(r.get("entropy"), (int, float))
            check(ctx, c, case, r, c.entropy() if need else None)
    ctx.assumptions += ["samples are drawn by thread_rng: each sampling check is wrong with probability below 1e-11",
                        "Gamma::inv_cdf, median and entropy are unimplemented!() and not judged; density and distribution function are asked inside the support (the code asserts it) except for the uniform",
                        "the formulas are evaluated with mpmath at 30 digits"]
    return ctx.finish("a distribution's parameters; every quantity at its points")
