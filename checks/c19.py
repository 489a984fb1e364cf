"""C19: Regress.tla and Logit.tla against the regressions."""
import math
from fractions import Fraction as F
from lib import vp

LAM = [0.0, 0.25, 1.0, 7.5, 1000.0]


def solve(A, c):
    """exact solution of A b = c, None if singular"""
    n = len(A)
    M = [[F(v) for v in r] + [F(x)] for r, x in zip(A, c)]
    for i in range(n):
        p = next((r for r in range(i, n) if M[r][i]), None)
        if p is None:
            return None
        M[i], M[p] = M[p], M[i]
        M[i] = [v / M[i][i] for v in M[i]]
        for r in range(n):
            if r != i and M[r][i]:
                M[r] = [a - M[r][i] * b for a, b in zip(M[r], M[i])]
    return [r[n] for r in M]


def coef_err(o, want, q, what, units=None):
    """units: what each coefficient is multiplied by before comparing (other units of measurement)"""
    if "err" in o:
        return f"{what}: {o['err']}"
    units = units or [1.0] * len(want)
    sc = max(1.0, max(abs(float(v) * u) for v, u in zip(want, units)))
    tol = sc * (1e-7 + 1e-14 * (max(units) / min(units)) ** 2)
    if len(o["c"]) != len(want) or any(not isinstance(g, (int, float)) or abs(g - float(w)) * u > tol for g, w, u in zip(o["c"], want, units)):
        return f"{what}: the coefficients are {[float(v) for v in want]}, got {o['c']}"
    if o["i"] != o["c"][0]:
        return f"{what}: the intercept {o['i']} is not the first coefficient {o['c'][0]}"
    p = [o["c"][0] + sum(a * b for a, b in zip(o["c"][1:], r)) for r in q]
    big = max(map(abs, o["c"]))
    if len(p) != len(o["p"]) or any(not isinstance(g, (int, float)) or abs(g - w) > 1e-9 * max(min(1, big), abs(w), big) for g, w in zip(o["p"], p)):
        return f"{what}: predictions of {q} with {o['c']} are {p}, got {o['p']}"


def kkt(o, icept, A, c, n, lam, w, q, what):
    """subgradient conditions of lasso with gram A and moments c (over n)"""
    if "err" in o:
        return f"{what}: {o['err']}"
    b = o["c"][1:]
    if len(b) != len(A) or not all(isinstance(v, (int, float)) for v in o["c"]):
        return f"{what}: {o['c']}"
    sc = max(1.0, lam, max(abs(float(v)) for v in c))
    for j in range(len(A)):
        g = float(c[j]) - sum(float(A[j][k]) * b[k] for k in range(len(A)))
        if (b[j] == 0 and abs(g) > lam + 1e-7 * sc) or (b[j] != 0 and abs(g - math.copysign(lam, b[j])) > 1e-7 * sc):
            return f"{what}: coefficient {j+1} = {b[j]} has gradient {g} for lambda {lam}; coefficients {o['c']}"
    m = [sum(r[j] for r in w["X"]) / n for j in range(len(A))]
    i = sum(w["y"]) / n - sum(x * y for x, y in zip(m, b)) if icept else 0.0
    if abs(o["i"] - i) > 1e-8 * max(1, abs(i)) or o["i"] != o["c"][0]:
        return f"{what}: the intercept is {i}, got {o['i']}, {o['c']}"
    return coef_err(o, o["c"], q, what)


def judge(w, r, q):
    n, m = len(w["y"]), len(w["X"][0])
    b = solve(w["G"], w["R"])
    if w["det"]:
        assert (w["det"][0] == 0) == (b is None) and (b is None or [F(v, w["det"][0]) for v in w["num"]] == b), w
    un = [float(g / w["t"]) for g in w["units"]] if "units" in w else None
    if b is not None:
        for d in ("none", "qr", "svd"):
            e = coef_err(r[d], b, q, "linear regression by " + d, un)
            if e:
                return e
    if un:
        for k, l in enumerate(LAM):
            t = solve([[v + (F(l) if i == j and i > 0 else 0) for j, v in enumerate(row)] for i, row in enumerate(w["G"])], w["R"])
            e = t and coef_err(r[f"ridge1{k}"], t, q, f"ridge regression, lambda {l}", un)
            if e:
                return e
        return None
    G0 = [[w["G"][i + 1][j + 1] for j in range(m)] for i in range(m)]
    c0 = w["R"][1:]
    Cn = [[F(v, n * n) for v in row] for row in w["C"]]
    cn = [F(v, n) for v in w["c"]]                       # centred moments: sum (n x - sum) y = n sum (x - mean) y
    for k, l in enumerate(LAM):
        lf = F(l)
        t = solve([[v + (lf if i == j and i > 0 else 0) for j, v in enumerate(row)] for i, row in enumerate(w["G"])], w["R"])
        if t is not None:
            e = coef_err(r[f"ridge1{k}"], t, q, f"ridge regression, lambda {l}")
            if e:
                return e
        t = solve([[v + (lf if i == j else 0) for j, v in enumerate(row)] for i, row in enumerate(G0)], c0)
        if t is not None:
            e = coef_err(r[f"ridge0{k}"], [F(0)] + t, q, f"ridge regression without intercept, lambda {l}")
            if e:
                return e
        if b is not None:
            e = kkt(r[f"lasso1{k}"], True, [[v / n for v in row] for row in Cn], [v / n for v in cn], n, l, w, q, f"lasso, lambda {l}")
            if e:
                return e
        if solve(G0, c0) is not None:
            e = kkt(r[f"lasso0{k}"], False, [[F(v, n) for v in row] for row in G0], [F(v, n) for v in c0], n, l, w, q, f"lasso without intercept, lambda {l}")
            if e:
                return e
    return None


def sig(t):
    return 1 / (1 + math.exp(-t)) if t > -700 else 0.0


def score(x, y, b):
    mu = [sig(b[0] + sum(a * v for a, v in zip(b[1:], r))) for r in x]
    return [sum((yy - m) * (1 if j == 0 else r[j - 1]) for yy, m, r in zip(y, mu, x)) for j in range(len(b))]


def run(ctx):
    b = vp.Build(ctx, "ml")
    st = lambda xs: "{" + ", ".join(map(str, xs)) + "}"

    def go(name, xv, yv, nf, lo, hi, sim, **k):
        o = {"RGMC.tla": f"---- MODULE RGMC ----\nEXTENDS Regress\nXX == {st(xv)}\nYY == {st(yv)}\n====\n"}
        return vp.tlc(ctx, "RGMC", vp.cfg_text(constants=dict(XV="<- XX", YV="<- YY", NF=nf, MinN=lo, MaxN=hi, Sim="TRUE" if sim else "FALSE"),
                      invariants=("Emit", "Sane", "Solves") if nf <= 2 and not sim else ("Emit",)), overrides=o, name=name, **k).lines

    def lg(name, xv, lo, hi, sim, counts=(), **k):
        o = {"LGMC.tla": f"---- MODULE LGMC ----\nEXTENDS Logit\nXX == {st(xv)}\n====\n"}
        return vp.tlc(ctx, "LGMC", vp.cfg_text(constants=dict(XV="<- XX", MinN=lo, MaxN=hi, Counts=set(counts) or "{}", Sim="TRUE" if sim else "FALSE"),
                      invariants=("Emit", "Sane")), overrides=o, name=name, **k).lines
    big = list(range(-9, 10))
    *rg, l1, l2, l3 = vp.par(
        lambda: go("one", [-1, 0, 2], [0, 1, 3], 1, 2, ctx.pick(3, 4), False, workers=4),
        lambda: go("two", [-1, 2], [0, 3], 2, 3, ctx.pick(3, 4), False, workers=4),
        lambda: go("r1", big, big, 1, 3, 9, True, simulate=ctx.pick(60, 1500), depth=3),
        lambda: go("r2", big, big, 2, 4, 10, True, simulate=ctx.pick(120, 2500), depth=3),
        lambda: go("r3", big, list(range(-40, 41)), 3, 5, 14, True, simulate=ctx.pick(120, 2500), depth=3),
        lambda: go("r5", list(range(-4, 5)), big, 5, 7, 20, True, simulate=ctx.pick(60, 1200), depth=3),
        lambda: lg("logit", [-1, 0, 1, 3], 4, ctx.pick(5, 6), False, workers=4),
        lambda: lg("logitr", list(range(-10, 11)), 8, 40, True, simulate=ctx.pick(150, 3000), depth=3),
        lambda: lg("cells", [0], 1, 1, False, counts=(1, 2, 4), workers=2))
    path = b.get()
    cases, exp = [], []
    for w in [x for r in rg for x in r]:
        m = len(w["X"][0])
        q = [[ctx.rng.randrange(-20, 21) / 4 for _ in range(m)] for _ in range(ctx.rng.choice([0, 1, 2, 5]))] + [[0] * m]
        cases.append({"k": "regress", "nc": m, "x": w["X"], "y": w["y"], "q": q, "lam": LAM})
        exp.append(w)
        if ctx.rng.random() < 0.3:          # the same observations in other units
            e = ctx.rng.randrange(-9, 10)
            u = [F(2) ** (e + ctx.rng.randrange(-3, 4)) for _ in range(m)]
            t = F(2) ** ctx.rng.randrange(-9, 10)
            g = [F(1)] + u
            s = {"X": [[float(v * k) for v, k in zip(r, u)] for r in w["X"]], "y": [float(v * t) for v in w["y"]], "det": [], "units": g, "t": t,
                 "G": [[v * a * b for v, b in zip(row, g)] for row, a in zip(w["G"], g)], "R": [v * a * t for v, a in zip(w["R"], g)]}
            cases.append({"k": "regress", "nc": m, "x": s["X"], "y": s["y"], "q": q, "lam": LAM})
            exp.append(s)
    for w in l1 + l2:
        if w["overlap"]:
            o = list(w["obs"])
            ctx.rng.shuffle(o)
            sc = ctx.rng.choice([1, 1, 0.5, 0.1])
            cases.append({"k": "logit", "nc": 1, "x": [[x * sc] for x, _ in o], "y": [y for _, y in o], "b": None})
            exp.append("score")
    for w in l3:
        x = [c["x"] for c in w["cells"] for _ in range(c["n"] + c["m"])]
        y = [v for c in w["cells"] for v in [0] * c["n"] + [1] * c["m"]]
        cases.append({"k": "logit", "nc": 2, "x": x, "y": y, "b": None})
        exp.append([(c["x"], math.log(c["m"] / c["n"])) for c in w["cells"]])
    for _ in range(ctx.pick(200, 3000)):            # predictions and scores for given coefficients
        nf, n = ctx.rng.randrange(1, 5), ctx.rng.randrange(1, 12)
        cases.append({"k": "logit", "nc": nf, "x": [[ctx.rng.uniform(-3, 3) for _ in range(nf)] for _ in range(n)], "y": [ctx.rng.randrange(2) for _ in range(n)],
                      "b": [ctx.rng.choice([1, 1, 3]) * ctx.rng.uniform(-2, 2) for _ in range(nf + 1)]})
        exp.append("given")
    for n in (1, 2, 5):                               # even odds are not above one half
        cases.append({"k": "logit", "nc": 2, "x": [[0.5 * i, 1.0 - i] for i in range(n)], "y": [i % 2 for i in range(n)], "b": [0.0, 0.0, 0.0]})
        exp.append("given")
    for w in (l2[:40]):                               # a response that is neither 0 nor 1 among good ones
        o = list(w["obs"])
        y = [v for _, v in o]
        y[ctx.rng.randrange(len(y))] = ctx.rng.choice([-1, -1, 2, 0.5, 1 + 1e-6, 1e-6, "nan"])
        cases.append({"k": "logit", "nc": 1, "x": [[x] for x, _ in o], "y": y, "b": None})
        exp.append("refuse")
    for x, y in (([[1], [2], [3]], [0, 2, 1]), ([[1], [2], [3]], [0, 1, -1]), ([[1], [2], [3]], [0.5, 1, 0]), ([[1], ["nan"], [3]], [0, 1, 0]), ([[1], ["inf"], [3]], [0, 1, 0]),
                 ([[1], [2], [3]], [0, 1])):
        cases.append({"k": "logit", "nc": 1, "x": x, "y": y, "b": None})
        exp.append("refuse")
    for c, w, r in zip(cases, exp, vp.run_harness(ctx, path, cases)):
        if "skipped" in r:
            continue
        ctx.traces += 1
        if "dead" in r:
            why = str(r)
        elif c["k"] == "regress":
            ctx.nontriv(f"{c['nc']}/{min(len(c['y']), 9)}")
            why = judge(w, r, c["q"])
        elif w == "refuse":
            why = None if "err" in r else f"must be refused, got {r}"
        elif w == "given":
            eta = [c["b"][0] + sum(a * v for a, v in zip(c["b"][1:], x)) for x in c["x"]]
            p = [sig(t) for t in eta]
            l = [1.0 if t > 0.5 else 0.0 for t in p]
            mis = sum(a != v for a, v in zip(l, c["y"])) / len(p)
            ce = sum(v * math.log(t) + (1 - v) * math.log(1 - t) for v, t in zip(c["y"], p)) / len(p)
            good = isinstance(r["p"], list) and isinstance(r["l"], list) and all(abs(a - v) < 1e-12 for a, v in zip(r["p"], p)) and r["l"] == l and vp.close(r["mis"], mis) \
                and vp.close(r["ce"], ce, rel=1e-7, abs_=1e-12)
            ctx.nontriv("given")
            why = None if good else f"probabilities {p}, misclassification {mis}, cross-entropy {ce}; got {r}"
        elif "err" in r:
            why = r["err"]
        else:
            ctx.nontriv("logit" + str(c["nc"]))
            bb = r["b"]
            fin = all(isinstance(v, (int, float)) for v in bb) and len(bb) == c["nc"] + 1
            why = None
            if not fin or max(map(abs, score(c["x"], c["y"], bb))) > 1e-6 * sum(1 + abs(x[0]) for x in c["x"]):
                why = f"the score equations do not hold at the coefficients {bb}"
            elif w != "score":
                for x, lo in w:
                    if abs(bb[0] + sum(a * v for a, v in zip(bb[1:], x)) - lo) > 1e-5:
                        why = f"log odds at {x} are {lo}; coefficients {bb}"
        if why:
            ctx.violation(f"{c['k']} x={c['x'][:12]} y={c['y'][:12]}: {why}", {"case": c, "got": r})
    ctx.sample({"case": cases[-20]})
    return ctx.finish("All least squares problems of up to three integer observations with one or two features (exact rational solutions) and random ones with up to five features and "
                      "twenty observations; ridge and lasso at five penalties with and without intercept; logistic fits of all small overlapping samples, random ones and saturated designs.")
