"""C16: Stats.tla against the Statistic trait."""
import math
from fractions import Fraction as F
from lib import vp

PS = [(0, 1), (1, 1), (1, 2), (1, 4), (3, 4), (1, 10), (9, 10), (1, 3), (2, 3), (95, 100), (99, 100), (1, 8), (5, 8), (1, 1000)]
fr = lambda v: F(v[0], v[1])


def one(w):
    """The definitions over exact fractions, agreeing with the specification where it is exact."""
    x, D, n = w["x"], w["D"], w["n"]
    m2 = F(sum(d * d for d in D), n * n)
    e = dict(mean=fr(w["mean"]), pvar=m2 / n, var=m2 / (n - 1) if n > 1 else None)
    e["harm"] = n / sum(F(1, v) for v in x) if min(x) > 0 else None
    for k in ("var", "pvar", "harm"):
        assert w[k] == [] or fr(w[k]) == e[k], (k, w)
    e["geo"] = math.exp(math.fsum(math.log(v) for v in x) / n) if min(x) > 0 else None
    assert w["prod"] == [] or math.isclose(w["prod"][0] ** (1 / n), e["geo"], rel_tol=1e-12)
    s = math.sqrt(e["var"]) if n > 1 else 0
    if n > 2 and s:
        e["skew"] = float(fr(w["c3"])) * sum((d / n / s) ** 3 for d in D)
    if n > 3 and s:
        e["kurt"] = float(fr(w["c4"])) * sum((d / n / s) ** 4 for d in D) - float(fr(w["e4"]))
    return e


def judge(w, r, a, b):
    """The sample given to the code is a*x + b."""
    n, e = w["n"], one(w)
    big = abs(b) + a * max(map(abs, w["x"]))
    loc = lambda v: (a * float(v) + b, 1e-12 * big)
    vt = lambda v: 1e-9 * a * a * float(v) + 1e-13 * a * big * (w["range"]) + (1e-13 * big) ** 2
    var = lambda v: (a * a * float(v), vt(v))
    want = {k: loc(e["mean"]) for k in ("mean", "arithmetic_mean")}
    if n > 1:
        want.update({k: var(e["var"]) for k in ("variance", "sample_variance")})
        sd = lambda v: (a * math.sqrt(v), 1e-12 * big + min(math.sqrt(vt(v)), vt(v) / (a * math.sqrt(v)) if v else math.inf))
        want.update({k: sd(e["var"]) for k in ("standard_deviation", "sample_standard_deviation")})
        want["population_standard_deviation"] = sd(e["pvar"])
    else:
        want.update({k: "panic" for k in ("standard_deviation", "sample_standard_deviation", "population_standard_deviation")})
    want["population_variance"] = var(e["pvar"])
    if b == 0 and e["geo"]:
        want["geometric_mean"] = (a * e["geo"], 1e-10 * a * e["geo"])
        want["harmonic_mean"] = (a * float(e["harm"]), 1e-10 * a * float(e["harm"]))
    for k, kk, m in (("skewness", "skew", 2), ("kurtosis", "kurt", 3)):
        if n <= m:
            want[k] = "panic"
        elif kk in e:
            want[k] = (e[kk], (1e-8 + 1e-13 * big / (a * math.sqrt(e["var"]))) * (1 + abs(e[kk])))
    for k in ("min", "max", "median"):
        want[k] = loc(fr(w[k]) if k == "median" else w[k])
    want["interquartile_range"] = (a * w["iqr"], 1e-12 * big)
    want["range"] = (a * w["range"], 1e-12 * big)
    for k, v in want.items():
        g = r[k]
        if v == "panic":
            if not isinstance(g, dict):
                return f"{k} of {n} values must be refused, got {g}"
        elif not isinstance(g, (int, float)) or abs(g - v[0]) > v[1]:
            return f"{k} must be {v[0]}, got {g}"
    for k in ("q", "pc"):
        for p, v, g in zip(PS, w["q"], r[k]):
            t = loc(fr(v))
            if not isinstance(g, (int, float)) or abs(g - t[0]) > t[1]:
                return f"{'quantile' if k == 'q' else 'percentile'}({p[0]/p[1]}) must be {t[0]}, got {g}"
        if not all(isinstance(g, dict) for g in r[k][len(PS):]):
            return f"{k} outside [0, 1] must be refused, got {r[k][len(PS):]}"
    return None


def run(ctx):
    b = vp.Build(ctx, "mathx")

    def go(name, vals, lo, hi, kind, exact, **k):
        o = {"STMC.tla": "---- MODULE STMC ----\nEXTENDS Stats\nVV == {" + ", ".join(map(str, vals)) + "}\nPP == <<" +
             ", ".join("<<%d, %d>>" % p for p in PS) + ">>\n====\n"}
        return vp.tlc(ctx, "STMC", vp.cfg_text(constants=dict(Vals="<- VV", Ps="<- PP", MinLen=lo, MaxLen=hi, Kind=f'"{kind}"',
                      Exact="TRUE" if exact else "FALSE"), invariants=("Emit", "Sane") if exact else ("Emit",)), overrides=o, name=name, **k).lines
    big = list(range(-30, 31))
    pos = list(range(1, 61))
    ones, twos = [], []
    a, t, p, *rest = vp.par(
        lambda: go("all", [-2, 0, 1, 3], 1, ctx.pick(5, 6), "one", True, workers=4),
        lambda: go("pairs", [-1, 0, 2], 2, ctx.pick(3, 4), "two", True, workers=4),
        lambda: go("positive", [1, 2, 5], 1, ctx.pick(4, 6), "one", True, workers=2),
        lambda: go("mid", list(range(-9, 10)), 5, 9, "simone", True, simulate=ctx.pick(150, 3000), depth=3),
        lambda: go("long", big, 10, 40, "simone", False, simulate=ctx.pick(150, 3000), depth=3),
        lambda: go("longpos", pos, 10, 40, "simone", False, simulate=ctx.pick(100, 2000), depth=3),
        lambda: go("huge", pos[20:], 180, 400, "simone", False, simulate=ctx.pick(12, 100), depth=3),
        lambda: go("longpairs", list(range(-12, 13)), 3, 25, "simtwo", True, simulate=ctx.pick(150, 3000), depth=3))
    ones, twos = a + p + [w for r in rest[:4] for w in r], t + rest[4]
    path = b.get()
    cases, exp = [], []
    for w in ones:
        for a_, b_ in ((1, 0), ctx.rng.choice([(0.5, 0), (1e-3, 0), (1e4, 0), (0.25, 7), (2.5, -11.5), (3, 100), (1, 2.0 ** 20), (0.25, -2.0 ** 24), (1e-9, 0), (1e9, 0)])):
            cases.append({"k": "stats", "x": [a_ * v + b_ for v in w["x"]], "p": [x / y for x, y in PS] + [-0.25, 1.5, "nan"]})
            exp.append((w, a_, b_))
    for w in twos:
        a_, b_, c_, d_ = ctx.rng.choice([(1, 0, 1, 0), (0.5, 3, -2, 1), (1e-2, 1, 100, 0), (-3, 0.5, 0.1, 0), (1, 2.0 ** 20, 0.5, 2.0 ** 20), (2, -2.0 ** 23, -1, 2.0 ** 22), (1e-8, 0, 1e-5, 0)])
        cases.append({"k": "stats", "x": [a_ * v + b_ for v in w["x"]], "y": [c_ * v + d_ for v in w["y"]]})
        exp.append((w, a_, c_))
    for x, y in (([], None), ([1, 2], [1]), ([1], [1]), ([], []), ([1, 2, 3], [1, 2, 3, 4]), ([1, 1], [2, 3]), ([1, 2, 3], [5, 5, 5])):
        cases.append({"k": "stats", "x": x, "p": [0.5]} if y is None else {"k": "stats", "x": x, "y": y})
        exp.append((None, len(set(x)) > 1 and len(set(y)) == 1 or len(set(x)) == 1 and len(x) > 1 and len(x) == len(y), y))
    for c, (w, a_, b_), r in zip(cases, exp, vp.run_harness(ctx, path, cases)):
        if "skipped" in r:
            continue
        if "dead" in r:
            ctx.violation(f"{c}: {r}", {"case": c, "got": r})
            continue
        ctx.traces += 1
        if w is None:
            miss = [k for k, v in r.items() if not isinstance(v[0] if isinstance(v, list) else v, dict) and not (a_ and k == "cov")]
            why = f"{c} must be refused by {miss}" if miss else None
        elif "y" in c:
            cov, vx, vy = (float(fr(w[k])) for k in ("cov", "vx", "vy"))
            ctx.nontriv("two" + str(len(w["x"])))
            sc = abs(a_ * b_) * math.sqrt(vx * vy)
            mx, my = max(map(abs, c["x"])), max(map(abs, c["y"]))
            tol = 1e-9 * sc + 1e-13 * (mx * (max(c["y"]) - min(c["y"])) + my * (max(c["x"]) - min(c["x"]))) + 1e-26 * mx * my
            why = None if isinstance(r["cov"], (int, float)) and abs(r["cov"] - a_ * b_ * cov) <= tol else \
                f"covariance must be {a_*b_*cov}, got {r['cov']}"
            if why is None and vx and vy:
                cor = (1 if a_ * b_ > 0 else -1) * cov / math.sqrt(vx * vy)
                if not isinstance(r["cor"], (int, float)) or abs(r["cor"] - cor) > 1e-7:
                    why = f"correlation must be {cor}, got {r['cor']}"
        else:
            ctx.nontriv("one" + str(min(w["n"], 12)) + (">" if min(w["x"]) > 0 else ""))
            why = judge(w, r, a_, b_)
        if why:
            ctx.violation(f"{why}; sample {c['x'][:40]}{c.get('y', '')}", {"case": c, "got": r})
    ctx.sample({"case": cases[-20]})
    return ctx.finish("Every sample of up to five values over {-2, 0, 1, 3} (every order), every pair of samples of up to three, random samples of up to 400 "
                      "values; each also rescaled and shifted; quantiles at 14 levels; refused inputs.")
