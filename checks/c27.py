"""C27: Descent.tla (exact iterates) and DescentF.tla (general polynomials) against GradientDescent."""
import math
from lib import vp
from lib.expr import ev


def machine(ctx, name, coefs, starts, dims, rates, tols, maxes, **kw):
    T = lambda xs: "{" + ", ".join("<<" + ", ".join(map(str, x)) + ">>" for x in xs) + "}"
    o = {"MCGD.tla": "---- MODULE MCGD ----\nEXTENDS Descent\n" f"QQ == {T(coefs)}\nSS == {T(starts)}\nRR == {T(rates)}\nTT == {T(tols)}\n====\n"}
    return vp.tlc(ctx, "MCGD", vp.cfg_text(constants=dict(Coefs="<- QQ", Starts="<- SS", Rates="<- RR", Tols="<- TT", Maxes=set(maxes), Dims=set(dims)),
                  invariants=("Emit", "Descends", "Counts", "StopsStationary"), constraint="InRange"), overrides=o, name=name, **kw).lines


def run(ctx):
    b = vp.Build(ctx, "num", "mathx")
    rng = ctx.rng
    rates = [(1, 8), (1, 4), (1, 2), (1, 1)]
    tols = [(0, 1), (1, 2), (1, 1), (4, 1)]
    q1 = [(a, 0, 0, d, 0, g) for a in (-1, 0, 1, 2, 3) for d in (-2, 0, 1) for g in (0, 5)]
    s1 = [(v, 0) for v in (-3, 0, 1, 4)]
    q2 = rng.sample([(a, b_, c, d, e, g) for a in (0, 1, 2, 3) for b_ in (-2, 0, 1) for c in (-1, 1, 2) for d in (-3, 0, 2) for e in (0, 1) for g in (0, -7)], ctx.pick(40, 200))
    s2 = [(2, -1), (0, 0), (-3, 4), (0, 1)]
    one, two, fam = vp.par(
        lambda: machine(ctx, "one variable", q1, s1, [1], rates, tols, [0, 1, 2, 5], workers=2),
        lambda: machine(ctx, "two variables", q2, s2, [2], rates[:3], tols, ctx.pick([0, 1, 3], [0, 1, 2, 4]), workers=4),
        lambda: vp.tlc(ctx, "DescentF", vp.cfg_text(), name="objectives").lines)
    path = b.get()
    cases, want = [], []
    for d in one + two:
        c = d["cfg"]
        k = c["dim"]
        mon = [(c["q"][0], [2, 0]), (c["q"][1], [1, 1]), (c["q"][2], [0, 2]), (c["q"][3], [1, 0]), (c["q"][4], [0, 1]), (c["q"][5], [0, 0])]
        poly = [[a, p[:k]] for a, p in mon if a and (k == 2 or p[1] == 0)]
        cases.append({"k": "gd", "poly": poly, "lr": c["lr"], "tol": None if c["tol"][0] == 0 else c["tol"], "max": c["max"], "x0": c["s"][:k]})
        want.append(([p / q for p, q in d["x"][:k]], d["f"][0] / d["f"][1], d["n"], 0.0))
        ctx.nontriv((k, d["stopped"], d["n"]))
    # general polynomials: the k-th iterate is what a run of at most k passes returns
    for d in fam:
        env = lambda p: {f"x{i+1}": v for i, v in enumerate(p)}
        for _ in range(ctx.pick(12, 80)):
            big = rng.choice([1, 1, 1e5, 1e-3]) if d["bowl"] else 1
            x0 = [big * rng.uniform(-1.5, 1.5) for _ in range(d["dim"])]
            lr = rng.choice([0.01, 0.1, 0.125, 0.2, 0.23, -0.05] if d["bowl"] else [0.001, 0.01, 0.02])
            tol = rng.choice([None, None, 1e-3, 0.5, 3.0] + ([1e-6, 1e-10, 1e-12, 1e-20] if d["bowl"] else []))
            t = tol or 2.0 ** -26
            x, n = list(x0), 0
            stops = sorted(rng.sample(range(0, 200), 3) + [1, 2] + ([rng.choice([400, 900])] if d["bowl"] and lr > 0 else []))
            top = 1e3 if not d["bowl"] else 1e30
            at = {}
            close = False
            for it in range(max(stops) + 1):
                at[it] = (list(x), it)
                g = [ev(e, env(x)) for e in d["g"]]
                nn = math.sqrt(sum(v * v for v in g))
                close |= abs(nn - t) < 1e-9 * t + (1e-14 if d["name"] in ("bowl1b", "bowl2b", "bowl40") else 0)
                if nn < t or close or not all(abs(v) < top for v in x):
                    for j in stops:
                        if j > it:
                            at[j] = (list(x), it + 1)
                    break
                x = [a - lr * b_ for a, b_ in zip(x, g)]
            if close or not all(abs(v) < top for v in x):
                continue
            for j in stops:
                cases.append({"k": "gd", "poly": d["poly"], "lr": lr, "tol": tol, "max": j, "x0": x0})
                want.append((at[j][0], ev(d["f"], env(at[j][0])), at[j][1], 1e-9))
                ctx.nontriv((d["name"], at[j][1] < j))
    for c, (x, fx, n, rel), r in zip(cases, want, vp.run_harness(ctx, path, cases)):
        if "skipped" in r:
            continue
        if "dead" in r or "panic" in r:
            ctx.violation(f"gradient descent {r}", {"case": c})
            continue
        ctx.traces += 1
        bad = []
        if len(r["x"]) != len(x) or any(not isinstance(a, (int, float)) or abs(a - w) > rel * (1 + abs(w)) for a, w in zip(r["x"], x)):
            bad.append(f"minimizer {r['x']} instead of {x}")
        if not isinstance(r["f"], (int, float)) or abs(r["f"] - fx) > max(rel, 1e-13) * (1 + abs(fx)):
            bad.append(f"minimum {r['f']} instead of {fx}, the value at the minimizer {x}")
        if r["n"] != n:
            bad.append(f"{r['n']} iterations instead of {n}")
        if bad:
            ctx.violation(f"from {c['x0']}, rate {c['lr']}, tolerance {c['tol']}, at most {c['max']} iterations: {'; '.join(bad)}", {"case": c})
    ctx.sample({"run": one[0]})
    return ctx.finish("Every run of the exact machine over the enumerated quadratics, starts, rates, tolerances and limits; iterates of four general polynomials from random starts.")
