"""C24: RootSearch.tla / RootTrace.tla against the root finders, Quadrature.tla against integrate."""
import json, math
from lib import vp
from lib.expr import ev, Domain, Dag, mpmath

EPS = 2.0 ** -52


def search_cases(ctx, fams):
    rng = ctx.rng
    cases, meta = [], []
    for fam in fams:
        for m in ("bisection", "brent", "newton"):
            for _ in range(ctx.pick(24, 240)):
                pos = fam["dom"] == "pos"
                rho = rng.choice([0.01, 0.5, 1.0, 2.0, 3.75, 12.5]) if pos else rng.choice([-7.5, -1.0, -0.3, 0.0, 0.25, 1.0, 4.0, 9.0])
                if rng.random() < 0.5:
                    rho = rng.uniform(0.02, 15) if pos else rng.uniform(-8, 9)
                if fam["G"][0] == "mul" and rho == 0.0 or fam["G"] == ["mul", ["x", "x"], ["mul", ["x", "x"], ["x", "x"]]] and abs(rho) < 0.2:
                    rho = 1.25                    # a multiple root has no well-conditioned place
                sgn = rng.choice([1, -1])
                acc = rng.choice([1e-3, 1e-6, 1e-9, 1e-12, 1e-15])
                if pos and m == "newton":         # it stops on small steps: they must be small against the distance to the singularity
                    acc = min(acc, 10.0 ** math.floor(math.log10(1e-3 * rho)))
                step = rng.choice([1e-8, 1e-5, 1e-2, 0.5, 3.0])
                enf = True if pos else rng.random() < 0.7
                far = [3e3, 5e4] if "exp" not in json.dumps(fam["G"]) and "sinh" not in json.dumps(fam["G"]) else []
                L, U = rng.choice([0.0, 0.01, 1.0, 8.0, 40.0] + far), rng.choice([0.0, 0.01, 1.0, 8.0, 40.0] + far)
                lb, ub = rho - L, rho + U
                if pos:
                    lb = max(lb, rng.choice([1e-3, 1e-2]) * rho)
                if ub - lb < 1e-3:
                    ub = lb + 1.0
                if lb > rho or ub < rho:
                    continue
                rho, lb, ub = round(rho, 8), round(lb, 8), round(ub, 8)
                if not lb <= rho <= ub:
                    continue
                guess = rng.choice([lb, ub, rho, lb + rng.random() * (ub - lb), lb + rng.random() * (ub - lb), lb + rng.random() * (ub - lb)])
                guess = min(max(round(guess, 8), lb), ub)
                data = [acc, step, lb, ub, enf]
                if not pos and rng.random() < 0.15:
                    data, acc, enf = None, math.sqrt(EPS), True
                    lb, ub = -1.7976931348623157e308, 1.7976931348623157e308
                if fam["G"][0] == "exp" and abs(guess) > 300:
                    continue
                cases.append({"k": "root", "g": fam["G"], "d": fam["d"], "rho": rho, "sgn": sgn, "guess": guess, "data": data, "m": m})
                meta.append((fam, rho, acc, lb, ub, enf))
    return cases, meta


def searches(ctx, fams, path):
    cases, meta = search_cases(ctx, fams)
    rows, where = [], []
    for c, (fam, rho, acc, lb, ub, enf), r in zip(cases, meta, vp.run_harness(ctx, path, cases)):
        if "skipped" in r:
            continue
        name = f"{c['m']} on {'-' if c['sgn'] < 0 else ''}(G(x) - G({rho})), G = {fam['G']}, from {c['guess']} with {c['data']}"
        if "dead" in r or not isinstance(r["r"], (int, float)):
            ctx.violation(f"{name}: {str(r)[:200]}", {"case": c})
            continue
        if r["again"] != r["r"]:
            ctx.violation(f"{name}: solving again gives {r['again']} instead of {r['r']}", {"case": c})
            continue
        if any(not isinstance(v, (int, float)) for e in r["t"] for v in e):
            if any(not isinstance(e[0], (int, float)) for e in r["t"]):
                ctx.violation(f"{name}: evaluates {[e for e in r['t'] if not isinstance(e[0], (int, float))][:2]}", {"case": c})
                continue
        g = ev(fam["G"], {"x": rho})
        d = ev(fam["d"], {"x": rho})
        cond = 8 * EPS * (abs(rho) + abs(g) / d) + 1e-28 / d
        tol = acc * (1 + 1e-9) + cond
        sig = lambda v: {"inf": 1, "-inf": -1}.get(v, 0) if isinstance(v, str) else (v > 0) - (v < 0)
        pts = sorted({e[0] for e in r["t"]} | {rho, r["r"], r["r"] - tol, r["r"] + tol, lb, ub, c["guess"]})
        rk = {v: i for i, v in enumerate(pts)}
        rows.append({"e": [[rk[e[0]], 0 if isinstance(e[1], (int, float)) and abs(e[1]) < 1e-28 else sig(e[1])] for e in r["t"]],
                     "lb": rk[lb], "ub": rk[ub], "enf": enf, "root": rk[rho], "ans": rk[r["r"]],
                     "near": rk[r["r"] - tol], "far": rk[r["r"] + tol], "guess": rk[c["guess"]], "cap": 1010})
        where.append((name, c, r))
        ctx.nontriv((c["m"], c["sgn"], enf, r["t"][0][1] > 0 if isinstance(r["t"][0][1], float) else 0))
    t = vp.tlc(ctx, "RootTrace", vp.cfg_text(invariants=("Report", "Stuck")), name="recorded searches",
               overrides={"traces.ndjson": "\n".join(map(json.dumps, rows)) + "\n"}, workers=4)
    done = {x["done"] for x in t.lines if "done" in x}
    stuck = {x["stuck"]: x for x in t.lines if "stuck" in x}
    for i, (name, c, r) in enumerate(where, 1):
        if i in done:
            ctx.traces += 1
            continue
        s = stuck.get(i, {})
        at, ph = s.get("at", 1), s.get("phase")
        if at <= len(r["t"]):
            ctx.violation(f"{name}: evaluation {at} at {r['t'][at-1][0]} is not one a safeguarded search makes (state {ph})", {"case": c})
        else:
            ctx.violation(f"{name}: answers {r['r']} after {len(r['t'])} evaluations (state {ph})", {"case": c})


def integrals(ctx, fams, path):
    rng = ctx.rng
    mp = mpmath(40)
    cases, meta = [], []
    for d in fams:
        dag = Dag()
        A = dag.add(d["A"])
        dom = d["dom"]
        iv = {"line": [(-1, 1), (0, 1), (-2, 0.5), (1, 3), (0, 0), (0.7, 0.7001), (-1.5, 2.5), (-0.25, 0.25), (1e4, 1e4 + 1.5), (-3e4, -3e4 + 1), (7e4, 7e4 + 0.125)],
              "pos": [(1, 2), (0.5, 3), (2, 2.01), (1, 4), (2e4, 2.1e4), (1e5, 100000.5)], "half": [(0, 1), (0, 0.3), (0, 2.5), (1, 2), (0.25, 1.5)],
              "unit": [(-1, 1), (0, 1), (-1, 0), (-0.5, 0.25)]}[dom]
        iv = list(iv)
        for _ in range(ctx.pick(6, 60)):
            a, b = sorted((rng.uniform(-2, 3), rng.uniform(-2, 3)))
            if dom == "pos":
                a, b = abs(a) + 0.3, abs(a) + 0.3 + (b - a)
            elif dom == "half":
                a, b = rng.choice([0, 0, abs(a)]), abs(a) + (b - a)
            elif dom == "unit":
                a, b = sorted((rng.uniform(-0.95, 0.95), rng.choice([-1, 1, rng.uniform(-0.9, 0.9)])))
            iv.append((a, b))
        for a, b in iv:
            for lo, hi in ((a, b), (b, a)):
                try:
                    v = dag.run({"x": mp.mpf(hi)}, [A], mp)[0]
                    u = dag.run({"x": mp.mpf(lo)}, [A], mp)[0]
                    if u is None or v is None:           # x ln x at 0 and the like
                        if dom != "half":
                            continue
                        z = lambda w: w if w is not None else mp.mpf(0)
                        u, v = z(u), z(v)
                except Domain:
                    continue
                if abs(v - u) > 1e250 or abs(lo) > 1e3 and "exp" in json.dumps(d["A"]) and abs(v - u) > 1e100:
                    continue
                cases.append({"k": "int", "f": d["f"], "a": lo, "b": hi})
                meta.append((d, float(v - u)))
    for c, (d, want), r in zip(cases, meta, vp.run_harness(ctx, path, cases)):
        if "skipped" in r:
            continue
        ctx.traces += 1
        a, b = c["a"], c["b"]
        tol = {"line": 1e-9 if abs(b - a) <= 2 else 1e-4, "pos": 1e-10, "half": 1e-7, "unit": 1e-6}[d["dom"]] * max(1.0, abs(want))
        g = r.get("r")
        if d["dom"] == "line" and not any(w in json.dumps(d["f"]) for w in ('"div"', '"tanh"', '"atan"')):      # no singularity anywhere near
            tol = (2e-13 if abs(b - a) <= 1.5 else 1e-6) * (1 + 0.1 * max(abs(a), abs(b))) * max(1.0, abs(want))
        ctx.nontriv((d["dom"], (a > b) - (a < b)))
        if not isinstance(g, (int, float)) or abs(g - want) > tol:
            ctx.violation(f"the integral of {d['f']} from {a} to {b} is {want}, got {r}", {"case": c})
        elif a != b and not (min(a, b) <= r["lo"] <= r["hi"] <= max(a, b)):
            if max(min(a, b) - r["lo"], r["hi"] - max(a, b)) > 4 * EPS * max(abs(a), abs(b)):
                ctx.violation(f"integrating over [{a}, {b}] evaluates outside: [{r['lo']}, {r['hi']}]", {"case": c})


def run(ctx):
    b = vp.Build(ctx, "num", "mathx")
    mc = lambda n, acc: vp.tlc(ctx, "RootSearch", vp.cfg_text(constants=dict(N=n, Acc=acc), invariants=("Bracketed", "HasRoot", "Right"),
                               properties=("Narrows", "Terminates")), name=f"search {n} {acc}", workers=2).lines
    fams, *_ = vp.par(lambda: vp.tlc(ctx, "Quadrature", vp.cfg_text(), name="formulas").lines,
                      lambda: mc(ctx.pick(5, 7), 1), lambda: mc(ctx.pick(5, 7), 2))
    path = b.get()
    searches(ctx, [d for d in fams if "G" in d], path)
    integrals(ctx, [d for d in fams if "A" in d], path)
    ctx.sample({"formula": fams[0]})
    return ctx.finish("Searches of three solvers over thirteen increasing and decreasing functions, starts on either side and at the bounds, five accuracies and steps; "
                      "integrals of some forty integrands over ordinary, reversed, empty and singular intervals.")
