"""C31: the finite-difference scheme (FiniteDiff.tla: checked over the rationals by FdRat, emitted as
formulas by FdEmit) against FiniteDifferencePricer; fine grids against the limits."""
import math
from lib import vp
from lib.expr import ev, numpy, Domain


def run(ctx):
    b = vp.Build(ctx, "opt")
    sizes = [3, 4, 5, 6, 7, 8, 9, 11, 12, 16, 21, 30]
    inv = ("Solved", "InRange", "American", "Parity", "Monotone")
    _, _, lines = vp.par(
        lambda: vp.tlc(ctx, "FdRat", vp.cfg_text(spec="FSpec", constants={"Grid": 3, "Strikes": "{5, 6, 9}", "Steps": 2}, invariants=inv), name="fd-rat3"),
        lambda: vp.tlc(ctx, "FdRat", vp.cfg_text(spec="FSpec", constants={"Grid": 4, "Strikes": "{5, 9, 11}", "Steps": 1}, invariants=inv), name="fd-rat4"),
        lambda: vp.tlc(ctx, "FdEmit", vp.cfg_text(spec="ESpec", constants={"Sizes": "{%s}" % ", ".join(map(str, sizes))}, invariants=("Emit", "EmitLimits")), name="fd-emit").lines)
    schemes = {(d["n"], d["method"], d["side"], d["style"]): d for d in lines if "n" in d}
    limits = next(d["limits"] for d in lines if "limits" in d)
    np, rng = numpy(), ctx.rng

    def march(d, e, m):
        """the value of the scheme after m steps, and the largest number met on the way"""
        n = d["n"]
        e = dict(e, m=m)
        e["X"], e["Y"] = ev(d["X"], e), ev(d["Y"], e)
        lo, c, hi = ev(d["below"], e), ev(d["centre"], e), ev(d["above"], e)
        A = np.diag([c] * (n - 1)) + np.diag([lo] * (n - 2), -1) + np.diag([hi] * (n - 2), 1)
        o = [ev(x, e) for x in d["start"]]
        big = max(map(abs, o))
        for t in range(1, m + 1):
            e["tau"] = e["T"] * t / m
            e["lo"], e["hi"] = ev(d["lo"], e), ev(d["hi"], e)
            for i, x in enumerate(o, 1):
                e[f"o{i}"] = x
            u = np.linalg.solve(A, np.array([ev(x, e) for x in d["rhs"]]))
            for i, x in enumerate(u, 1):
                e[f"u{i}"] = float(x)
            o = [ev(x, e) for x in d["after"]]
            big = max(big, max(map(abs, o)))
        for i, x in enumerate(o, 1):
            e[f"o{i}"] = x
        return ev(d["price"], e), big

    def contract():
        days = rng.choice([1, 7, 30, 91, 182, 365, 366, 731, rng.randint(2, 3000)])
        T, v = days / 365.25, round(10 ** rng.uniform(-1.3, 0), 4)
        s = round(10 ** rng.uniform(-1, 3.5), 3)
        k = round(s * math.exp(rng.choice([0, 1, 1, 1]) * rng.uniform(-2, 2) * v * math.sqrt(T)), 4)
        return dict(s=s, k=k, r=round(10 ** rng.uniform(-2.3, -0.6), 4), v=v), days, T

    def style(c, st):
        c["style"] = st
        c["window"] = rng.choice(["life", "all", "wide"])
        c["early"] = rng.randint(1, 400)
        return c

    cases = []
    for key, d in schemes.items():
        n, mt, z, st = key
        for _ in range(ctx.pick(9, 60)):
            a, days, T = contract()
            m = rng.choice([1, 2, 3, 5, 8, 13, rng.randint(1, 40)])
            if mt == "explicit" and rng.random() < 0.85:
                m = max(m, math.ceil(n * n / 100))
            c = style({"k": "fd", "a": a, "days": days, "n": n, "m": m, "method": mt, "side": z, "today": rng.random() < 0.2}, st)
            cases.append((c, d, dict(a, T=T)))
    ctx.sample(cases[0][0])
    res = vp.run_harness(ctx, b.get(), [c for c, *_ in cases])
    for (c, d, e), r in zip(cases, res):
        if "skipped" in r:
            continue
        try:
            want, big = march(d, e, c["m"])
        except (Domain, OverflowError):
            continue
        ctx.traces += 1
        ctx.nontriv(f"{c['n']}{c['method']}{c['side']}{c['style']}{want:.3g}")
        y = r.get("v")
        if not isinstance(y, (int, float)) or not abs(y - want) <= 1e-9 * big + 1e-10 * e["s"]:
            ctx.violation(f"{c['style']} {c['side']} by {c['method']} is {y if 'v' in r else r}, the scheme's value is {want!r}; {c}", {"case": c, "want": want})

    def tame():
        """a contract whose drift keeps the asset well inside the grid"""
        while True:
            a, days, T = contract()
            if abs(a["r"] - a["v"] ** 2 / 2) * math.sqrt(T) / a["v"] <= 1.5 and a["r"] * T <= 0.5:
                return a, days, T

    # fine grids: the Black-Scholes price, and where an American option must lie
    fine = []
    for _ in range(ctx.pick(60, 400)):
        a, days, T = tame()
        n = rng.choice([100, 150, 151, 200, 250, 301])
        for z in ("call", "put"):
            mt = rng.choice(["explicit", "implicit", "crank_nicolson"])
            m = max(200, math.ceil(n * n / 90)) if mt == "explicit" else rng.choice([200, 300])
            for st in ("european", "american"):
                fine.append((style({"k": "fd", "a": a, "days": days, "n": n, "m": m, "method": mt, "side": z, "today": False}, st), dict(a, T=T)))
    for z in ("call", "put"):                    # as fine as a price grid gets
        for mt in ("implicit", "crank_nicolson"):
            (a, days, T), n = tame(), rng.choice([600, 1001])
            for st in ("european", "american"):
                fine.append((style({"k": "fd", "a": a, "days": days, "n": n, "m": 60, "method": mt, "side": z, "today": False}, st), dict(a, T=T)))
    res = vp.run_harness(ctx, b.get(), [c for c, _ in fine])
    worst = 0.0
    for j in range(0, len(fine), 2):
        (c, e), eu, am = fine[j], res[j], res[j + 1]
        if "skipped" in eu or "skipped" in am:
            continue
        L = {g: ev(x, e) for g, x in limits[c["side"]].items()}
        scale = e["s"] * e["v"] * math.sqrt(e["T"])
        x, y = eu.get("v"), am.get("v")
        ctx.traces += 2
        if not all(isinstance(w, (int, float)) for w in (x, y)):
            ctx.violation(f"{c['side']} by {c['method']} on a fine grid: {eu} {am}; {c}", {"case": c})
            continue
        err = abs(x - L["european"]) / scale
        worst = max(worst, err)
        tol = FINE * scale
        if err > FINE:
            ctx.violation(f"european {c['side']} by {c['method']} is {x}, Black-Scholes {L['european']}; {c}", {"case": c, "want": L["european"]})
        if y < x - 1e-7 * scale or y < L["intrinsic"] - tol or y > L["perpetual"] + tol or (c["side"] == "call" and abs(y - x) > tol):
            ctx.violation(f"american {c['side']} by {c['method']} is {y}, european {x}, {L}; {c}", {"case": fine[j + 1][0], "limits": L})
    ctx.notes["fine"] = f"largest distance from Black-Scholes {worst:.2g} standard deviations of the asset price (asked: {FINE})"
    ctx.assumptions += ["grids of at least 3 price steps; maturities in 365.25-day years; exercise windows that cover the option's life",
                        "the middle node of a grid with an odd number of price steps is the mean of its two middle nodes"]
    return ctx.finish("a contract, grid, method, side and style")


FINE = 5e-3
