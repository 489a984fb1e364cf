"""C21: Process.tla against the path generators."""
import math
from lib import vp
from lib.expr import ev, Domain

BIG = (1 << 64) - 1


def model(ctx):
    run = lambda name, m, s, w, inv, **k: vp.tlc(ctx, "Process", vp.cfg_text(constants=dict(M=m, Steps=s, Workers="{%s}" % ", ".join(map(str, range(1, w + 1))), Shared="FALSE"),
                                                 invariants=inv, properties=("Finishes",)), name=name, **k).lines
    law = ("ScheduleFree", "Fresh", "EmitPlan")
    jobs = [lambda: run("formulas", 1, 1, 1, law + ("Emit",)), lambda: run("seq", 3, 3, 1, law), lambda: run("par2", 3, 3, 2, law), lambda: run("par3", ctx.pick(3, 4), 3, 3, law)]
    f, *plans = vp.par(*jobs)
    got = {str(d["plan"]) for lines in plans for d in lines if "plan" in d and len(d["plan"]) == 3}
    assert len(got) == 1, "the plan depends on the schedule"
    plan = next(d["plan"] for lines in plans for d in lines if "plan" in d)
    return [d for d in f if "step" in d], plan


def env_of(proc, d, extra):
    env = dict(extra)
    for i, a in enumerate(proc.get("a") or []):
        if i < d["f"]:
            c = (a if isinstance(a, list) else [a]) + [0.0, 0.0]
            for j in range(3):
                env[f"c{i}{j}"] = c[j]
        elif not isinstance(a, str):
            env[f"e{i}"] = a
    return env


def gen_proc(rng, p, horizon):
    r = lambda lo, hi: round(rng.uniform(lo, hi), 4)
    fn = lambda lo, hi, slope=True: (r(lo, hi) if rng.random() < 0.4 else [r(lo, hi), r(0.0, 0.3 * hi) if slope else 0.0, r(0.0, 0.1 * hi) if rng.random() < 0.5 else 0.0])
    sg = lambda: fn(0.1, 0.5)
    A = {"bm": lambda: [], "abm": lambda: [fn(-0.5, 0.5), sg()], "gbm": lambda: [fn(-0.2, 0.4), sg()],
         "ou": lambda: [fn(0.1, 3), sg(), fn(0.1, 2)], "cir": lambda: [fn(0.5, 3), sg(), fn(0.2, 2)],
         "cev": lambda: [fn(-0.2, 0.4), sg(), r(0.0, 1.0) if rng.random() < 0.5 else [0.3, 0.02, 0.0]],
         "ev": lambda: [fn(0.1, 1.5), sg(), fn(-1, 1)], "hw": lambda: [fn(0.1, 1.5), sg(), fn(-1, 1)], "hl": lambda: [sg(), fn(0.05, 1)],
         "bdt": lambda: [fn(0.1, 0.5), fn(-0.5, 1)], "gbb": lambda: [fn(-0.2, 0.3), sg(), r(0.5, 4), round(horizon + rng.choice([0.0, 0.0, 0.7, 3.0]), 4)],
         "mjd": lambda: [fn(-0.2, 0.4), sg(), 1e-12, 1.0, 0.01],
         "fbm": lambda: [rng.choice([0.1, 0.3, 0.5, 0.7, 0.9]), None], "fou": lambda: [fn(0.1, 3), sg(), fn(0.1, 2), rng.choice([0.2, 0.5, 0.75]), None],
         "fcir": lambda: [fn(0.5, 3), sg(), fn(0.2, 2), rng.choice([0.3, 0.5, 0.75]), None]}
    a = A[p]()
    if p in ("fbm", "fou", "fcir"):
        a[-1] = rng.choice(["cholesky", "fft"])
    return {"p": p, "a": a}


def run(ctx):
    b = vp.Build(ctx, "proc", "stoch")
    defs, plan = model(ctx)
    D = {(d["p"], d["scheme"]): d for d in defs}
    names = sorted({d["p"] for d in defs})
    frac = {"fbm", "fou", "fcir"}
    path = b.get()
    rng = ctx.rng
    # what the plan says a path consumes: stream i, draw t
    assert all(plan[i][t] == [i + 1, t + 1] for i in range(len(plan)) for t in range(len(plan[i])))

    # ---------------------------------------------------------- coefficients
    cases = []
    for _ in range(ctx.pick(12, 120)):
        for p in names:
            pr = gen_proc(rng, p, 3.0)
            at = [[round(rng.uniform(0.05, 5), 4), round(rng.uniform(0, 2.9), 4)] for _ in range(8)] + [[1.0, 0.0], [2.0, 1.0]]
            cases.append({"k": "coef", "proc": pr, "at": at})
    for c, r in zip(cases, vp.run_harness(ctx, path, cases)):
        d = D[(c["proc"]["p"], "euler")]
        if "at" not in r:
            ctx.violation(f"{c['proc']}: {r}", {"case": c})
            continue
        e0 = env_of(c["proc"], d, {})
        want = [ev(e, e0) for e in d["params"]]
        if len(want) != len(r["params"]) or not all(vp.close(x, y, rel=1e-12, abs_=0) for x, y in zip(r["params"], want)):
            ctx.violation(f"parameters of {c['proc']} are {want} at time zero, got {r['params']}", {"case": c})
        for (x, t), (ga, gb) in zip(c["at"], r["at"]):
            env = {**e0, "x": x, "t": t}
            ctx.traces += 1
            for what, f, g in (("drift", "a", ga), ("diffusion", "b", gb)):
                try:
                    w = ev(d[f], env)
                except Domain:
                    continue
                ctx.nontriv((c["proc"]["p"], what, w > 0))
                if not isinstance(g, (int, float)) or abs(g - w) > (1e-7 if c["proc"]["p"] == "bdt" else 1e-11) * max(1.0, abs(w)):
                    ctx.violation(f"{what} of {c['proc']} at x={x}, t={t} is {w}, got {g}", {"case": c, "x": x, "t": t})
                    break

    refusals(ctx, path, rng, D, names)

    # ---------------------------------------------------------------- paths
    groups = []                                    # (seed, noise run, [runs])
    cases = []

    def add(c):
        cases.append(c)
        return len(cases) - 1
    shapes = [(1, 1), (1, 3), (5, 1), (4, 2), (7, 3), (12, 5), (30, 8), (3, 40), (2, 130), (130, 2)]
    for g in range(ctx.pick(26, 260)):
        seed = rng.choice([0, 1, 42, 1337, BIG, BIG - 1, (1 << 63) - 1, rng.randrange(1 << 64), rng.randrange(1 << 20)])
        n, m = rng.choice(shapes) if g > 3 else [(60, 300), (1500, 3), (4, 900), (300, 20)][g]
        noise = add({"k": "gen", "proc": {"p": "bm", "a": []}, "cfg": {"x0": 0.0, "t0": 0.0, "tn": float(n), "n": n, "scheme": "euler", "m": m, "par": False, "seed": seed}})
        runs = []
        for p in (rng.sample(names, 3) if n * m > 3000 else names):
            t0 = rng.choice([0.0, 0.0, 0.25, 1.0, -0.5 if p not in ("bdt", "hl") else 0.5])
            tn = t0 + rng.choice([0.1, 0.5, 1.0, 2.0])
            pr = gen_proc(rng, p, tn)
            x0 = round(rng.uniform(0.5, 4), 3)
            base = {"x0": x0, "t0": t0, "tn": tn, "n": n, "m": m, "seed": seed}
            for sc in (["euler", "milstein", "strang"] if p not in frac else ["euler", "strang"]):
                i1 = add({"k": "gen", "proc": pr, "cfg": {**base, "scheme": sc, "par": rng.random() < 0.5}})
                other = {**base, "scheme": sc, "par": not cases[i1]["cfg"]["par"], "m": rng.choice([1, m, max(1, m // 2), m + 2, m + 17])}
                i2 = add({"k": "gen", "proc": pr, "cfg": other})
                j = None
                if p in frac:                      # the noise of the same stream, on its own
                    H, me = (pr["a"][0], pr["a"][1]) if p == "fbm" else (pr["a"][3], pr["a"][4])
                    j = add({"k": "gen", "proc": {"p": "fbm", "a": [H, me]}, "cfg": {**base, "x0": 0.0, "scheme": "euler", "par": False}})
                runs.append((p, pr, sc, i1, i2, j))
        groups.append((seed, n, m, noise, runs))
    res = vp.run_harness(ctx, path, cases)

    def broken(i, what):
        r = res[i]
        if "dead" in r or "panic" in r or "skipped" in r:
            if "skipped" not in r:
                ctx.violation(f"{what}: {r}", {"case": cases[i]})
            return True
        return False

    def grid(i):
        c, r = cases[i]["cfg"], res[i]
        dt = (c["tn"] - c["t0"]) / c["n"]
        want = [c["t0"] + dt * k for k in range(c["n"] + 1)]
        if len(r["t"]) != len(want) or not all(vp.close(a, w, rel=1e-12, abs_=1e-12 * (abs(c["t0"]) + abs(c["tn"]))) for a, w in zip(r["t"], want)):
            return f"times must be uniform from {c['t0']} to {c['tn']} in {c['n']} steps, got {r['t'][:4]}..{r['t'][-2:]}"
        if len(r["p"]) != c["m"] or any(len(q) != c["n"] + 1 for q in r["p"]):
            return f"{c['m']} paths of {c['n'] + 1} values expected, got {len(r['p'])} of {sorted({len(q) for q in r['p']})}"
        if any(q[0] != c["x0"] for q in r["p"]):
            return f"every path starts at {c['x0']}"
        return None

    zs = []
    for seed, n, m, noise, runs in groups:
        if broken(noise, "Brownian motion"):
            continue
        g = grid(noise)
        if g:
            ctx.violation(f"Brownian motion: {g}", {"case": cases[noise]})
            continue
        z = [[q[k + 1] - q[k] for k in range(n)] for q in res[noise]["p"]]      # dt = 1
        zs.append(z)
        for p, pr, sc, i1, i2, j in runs:
            what = f"{pr} with {cases[i1]['cfg']}"
            if broken(i1, what) or broken(i2, what) or (j is not None and broken(j, what)):
                continue
            bad = grid(i1) or grid(i2)
            if bad:
                ctx.violation(f"{what}: {bad}", {"case": cases[i1], "other": cases[i2]})
                continue
            a, c = res[i1]["p"], res[i2]["p"]
            k = min(len(a), len(c))
            if a[:k] != c[:k]:
                q = next(q for q in range(k) if a[q] != c[q])
                ctx.violation(f"{what}: path {q} differs when {cases[i2]['cfg']['m']} paths are generated with parallel={cases[i2]['cfg']['par']}",
                              {"case": cases[i1], "other": cases[i2]})
                continue
            d = D[(p, sc)]
            cfg = cases[i1]["cfg"]
            dt = (cfg["tn"] - cfg["t0"]) / n
            e0 = env_of(pr, d, {"dt": dt})
            if j is not None and any(isinstance(y, str) for q in res[j]["p"] for y in q):
                ctx.violation(f"{cases[j]['proc']} with {cases[j]['cfg']}: not a number", {"case": cases[j]}, key="fbm")
                continue
            if j is not None:
                inc = [[q[s + 1] - q[s] for s in range(n)] for q in res[j]["p"]]
            else:
                inc = [[v * math.sqrt(dt) for v in q] for q in z]
            rel = 1e-6 if sc == "milstein" else 1e-7 if p == "bdt" else 1e-9
            stop = False
            for q in range(len(a)):
                for s in range(n):
                    x0, x1, t = a[q][s], a[q][s + 1], cfg["t0"] + dt * s
                    if isinstance(x0, str):
                        break
                    env = {**e0, "x": x0, "t": t, "dw": inc[q][s]}
                    try:
                        w = ev(d["step"], env)
                        sig = abs(ev(d["b"], env) * inc[q][s])
                    except (Domain, ArithmeticError):
                        break
                    if p in ("cir", "fcir", "cev") and (x0 < 0.02 or (sc == "milstein" and x0 < 0.2)):
                        break                        # the square root's edge: not differentiable, or undefined
                    ctx.traces += 1
                    tol = rel * (1 + abs(x0) + abs(w) + sig)
                    if not isinstance(x1, (int, float)) or abs(x1 - w) > tol:
                        ctx.violation(f"{what}: step {s} of path {q} from {x0} at t={t} with increment {inc[q][s]} must lead to {w}, got {x1}",
                                      {"case": cases[i1], "path": q, "step": s, "want": w, "got": x1}, key=f"{p}:{sc}")
                        stop = True
                        break
                if stop:
                    break
            ctx.nontriv((p, sc, m > 1))

    # ------------------------------------------ the noise is standard normal
    def check(name, vals, mean, sd, k=6.0):
        n = len(vals)
        if n < 200:
            return
        mu = sum(vals) / n
        if abs(mu - mean) > k * sd / math.sqrt(n):
            ctx.violation(f"{name}: mean {mu} over {n} draws, expected {mean} (+- {k * sd / math.sqrt(n):.4g})", {"stat": name, "n": n, "mean": mu})
    flat = [v for z in zs for q in z for v in q]
    # seeds repeat or are adjacent between groups; judge each group on its own where it is large
    for z in sorted(zs, key=lambda z: -len(z) * len(z[0]))[:4]:
        f = [v for q in z for v in q]
        check("normal increments", f, 0, 1)
        check("squared increments", [v * v for v in f], 1, math.sqrt(2))
        check("cubed increments", [v ** 3 for v in f], 0, math.sqrt(15))
        check("fourth powers", [v ** 4 for v in f], 3, math.sqrt(96))
        check("successive steps", [q[i] * q[i + 1] for q in z for i in range(len(q) - 1)], 0, 1)
        check("successive paths", [z[i][s] * z[i + 1][s] for i in range(len(z) - 1) for s in range(len(z[0]))], 0, 1)
        check("shifted paths", [z[i][s] * z[i + 1][s + 1] for i in range(len(z) - 1) for s in range(len(z[0]) - 1)], 0, 1)
        ctx.nontriv("noise")
    if len(set(flat)) < 0.5 * len(flat):
        ctx.violation("the noise repeats itself", {"draws": len(flat), "distinct": len(set(flat))})

    extra(ctx, path, rng, check)
    ctx.sample({"formula": defs[0]})
    return ctx.finish("Every process with constant and time-dependent parameters, three schemes, start times other than zero, seeds at the edges, 1-900 paths, 1-1500 steps; "
                      "every step against the spec's formula with the noise the spec's plan assigns to it; sequential against parallel and small against large runs.")


def refusals(ctx, path, rng, D, names):
    """Parameters out of their range, at some times or always, and horizons that do not move forward."""
    cases = []
    for _ in range(ctx.pick(60, 400)):
        for p in names:
            pr = gen_proc(rng, p, 3.0)
            for i in range(D[(p, "euler")]["f"]):
                if rng.random() < 0.5:               # crosses zero (or one) somewhere on the way
                    pr["a"][i] = rng.choice([round(rng.uniform(-1, -0.01), 4), -1e-9, [round(rng.uniform(-0.5, 1.3), 4), round(rng.uniform(-1, 1), 4), 0.0],
                                             [round(rng.uniform(-0.5, 1.3), 4), 0.0, round(rng.uniform(-0.5, 0.5), 4)], 1.0, 1.0 + 1e-9, 0.0, round(rng.uniform(1.01, 2), 4)])
            h = {"fbm": 0, "fou": 3, "fcir": 3}.get(p)
            if h is not None and rng.random() < 0.6:
                pr["a"][h] = rng.choice([-1e-9, -0.3, -1.0, 1 + 1e-9, 1.01, 1.5, 2.0, 7.0, 1.0, 0.0, 0.999])
            cases.append({"k": "coef", "proc": pr, "at": [[round(rng.uniform(0.3, 3), 4), round(rng.uniform(0, 2.9), 4)] for _ in range(6)] + [[1.0, 0.0]]})
    word = lambda g: "value" if isinstance(g, (int, float, str)) else "refused" if "panic" in g else str(g)
    for c, r in zip(cases, vp.run_harness(ctx, path, cases)):
        d = D[(c["proc"]["p"], "euler")]
        e0 = env_of(c["proc"], d, {})
        new = [ev(g, e0) for g in d["gnew"]]
        bad = any(v < 0 for v in new)
        ctx.traces += 1
        if bad or "at" not in r:
            ctx.nontriv(("new", c["proc"]["p"], bad))
            if ("panic" in r) != bad:
                ctx.violation(f"{c['proc']} must be {'refused' if bad else 'accepted'}, got {str(r)[:200]}", {"case": c})
            continue
        for (x, t), (ga, gb) in zip(c["at"], r["at"]):
            env = {**e0, "x": x, "t": t}
            for what, gs, f, g in (("drift", "ga", "a", ga), ("diffusion", "gb", "b", gb)):
                vals = [ev(e, env) for e in d[gs]]
                if any(0 < abs(v) < 1e-10 for v in vals):
                    continue                         # on the edge: rounding decides
                want = "refused" if any(v < 0 for v in vals) else "value"
                ctx.traces += 1
                if vals:
                    ctx.nontriv((what, c["proc"]["p"], want))
                if word(g) != want:
                    ctx.violation(f"{what} of {c['proc']} at x={x}, t={t} must be {'refused' if want == 'refused' else 'given'}, got {str(g)[:150]}", {"case": c, "x": x, "t": t})
                    continue
                if want == "value":
                    try:
                        w = ev(d[f], env)
                    except (Domain, ArithmeticError):
                        continue
                    if not isinstance(g, (int, float)) or abs(g - w) > (1e-6 if c["proc"]["p"] == "bdt" else 1e-11) * max(1.0, abs(w)):
                        if c["proc"]["p"] == "bdt" and abs(ev(d["b"], env)) < 0.05:
                            continue                 # the drift divides by the volatility
                        ctx.violation(f"{what} of {c['proc']} at x={x}, t={t} is {w}, got {g}", {"case": c, "x": x, "t": t})

    cases = []
    for p in names:
        for t0, tn in ((0.0, 1.0), (1.0, 1.0), (0.0, 0.0), (1.0, 0.5), (2.0, 0.0), (-1.0, -2.0), (-1.0, -0.5), (0.5, 0.5 + 1e-9), (3.0, 3.0 - 1e-9)):
            if p == "bdt" and t0 < 0:
                continue
            flat = gen_proc(rng, p, max(t0, tn) + 1.0)   # constant parameters: in range at every time
            flat["a"] = [a[0] if isinstance(a, list) else a for a in flat["a"]]
            for sc in ("euler", "milstein", "strang") if p not in ("fbm", "fou", "fcir") else ("euler", "strang"):
                cases.append({"k": "gen", "proc": flat, "cfg": {"x0": 1.0, "t0": t0, "tn": tn, "n": 3, "m": 2, "scheme": sc, "par": rng.random() < 0.5, "seed": 3}})
    for t0, tn in ((0.0, 1.0), (1.0, 1.0), (2.0, 0.5), (0.0, -1.0), (1.0, 1.0 - 1e-9)):
        for par in (False, True):
            cases.append({"k": "sv", "a1": [[0.1, 1, 0]], "b1": [[0.2, 0, 0]], "a2": [[0.1, 1, 0]], "b2": [[0.2, 0, 0]], "x0": 1.0, "y0": 1.0, "t0": t0, "tn": tn, "n": 4, "m": 3, "par": par})
    gt = D[("bm", "euler")]["gt"]
    for c, r in zip(cases, vp.run_harness(ctx, path, cases)):
        g = c.get("cfg", c)
        bad = ev(gt, {"t0": g["t0"], "tn": g["tn"]}) <= 0
        ctx.traces += 1
        ctx.nontriv(("horizon", c["k"], bad))
        if ("panic" in r) != bad or ("p" in r) == bad:
            ctx.violation(f"{c.get('proc', 'two-factor process')}: a horizon from {g['t0']} to {g['tn']} must be {'refused' if bad else 'accepted'}, got {str(r)[:200]}", {"case": c})


def extra(ctx, path, rng, check):
    """Jumps, fractional noise, unseeded runs, two-factor runs."""
    cases = []
    # jump sizes of negligible variance: increments minus diffusion are multiples of the size
    N, Mp = 40, ctx.pick(60, 400)
    for lam, size in ((0.0, 0.5), (0.8, 0.5), (5.0, -3.0), (40.0, 0.125)):
        cases.append({"k": "gen", "proc": {"p": "mjd", "a": [0.1, 0.0, lam, size, 1e-20]}, "cfg": {"x0": 2.0, "t0": 0.5, "tn": 2.5, "n": N, "scheme": "euler", "m": Mp, "par": True, "seed": 77}})
    for par in (False, True):
        cases.append({"k": "gen", "proc": {"p": "mjd", "a": [0.1, 0.2, 3.0, 0.3, 0.04]}, "cfg": {"x0": 2.0, "t0": 0.5, "tn": 2.5, "n": N, "scheme": "euler", "m": Mp, "par": par, "seed": 78}})
    cases.append({"k": "gen", "proc": {"p": "mjd", "a": [0.0, 0.0, 0.5, 0.3, 0.04]}, "cfg": {"x0": 2.0, "t0": 0.0, "tn": 1.0, "n": 100, "scheme": "euler", "m": Mp * 4, "par": True, "seed": 79}})
    cases.append({"k": "gen", "proc": {"p": "mjd", "a": [0.0, 0.0, 0.5, -2.0, 0.04]}, "cfg": {"x0": 2.0, "t0": 0.0, "tn": 1.0, "n": 100, "scheme": "euler", "m": Mp * 4, "par": False, "seed": 80}})
    # many short paths: each has jumps of its own
    for par in (False, True):
        cases.append({"k": "gen", "proc": {"p": "mjd", "a": [0.0, 0.0, 60.0, 0.3, 0.04]}, "cfg": {"x0": 2.0, "t0": 0.0, "tn": 1.0, "n": 3, "scheme": "euler", "m": ctx.pick(2300, 9000), "par": par, "seed": BIG - 5}})
    rs = vp.run_harness(ctx, path, cases)
    for c, r in zip(cases, rs):
        if "p" not in r:
            ctx.violation(f"jump diffusion {c['proc']}: {r}", {"case": c}, key="jump")
            return
    for c, r in zip(cases[:4], rs[:4]):
        lam, size, dt = c["proc"]["a"][2], c["proc"]["a"][3], 2.0 / N
        ks, per = [], []
        for q in r["p"]:
            row = []
            for s in range(N):
                k = (q[s + 1] - q[s] - 0.1 * q[s] * dt) / size
                row.append(k)
            per.append(row)
            ks += row
        ctx.traces += len(ks)
        ctx.nontriv(("jump", lam))
        if any(abs(k - round(k)) > 1e-6 or round(k) < 0 for k in ks):
            ctx.violation(f"jump diffusion {c['proc']}: an increment without diffusion is not a whole number of jumps of size {size}", {"case": c}, key="jump")
            continue
        if lam == 0.0:
            if any(round(k) for k in ks):
                ctx.violation("jumps at intensity zero", {"case": c}, key="jump")
            continue
        mu = lam * dt
        check(f"number of jumps per step at intensity {lam}", [round(k) for k in ks], mu, math.sqrt(mu))
        check(f"variance of the number of jumps at intensity {lam}", [(round(k) - mu) ** 2 for k in ks], mu, math.sqrt(mu + 2 * mu * mu))
        check(f"jumps of successive paths at intensity {lam}", [(round(per[i][s]) - mu) * (round(per[i + 1][s]) - mu) for i in range(len(per) - 1) for s in range(N)], 0, mu)
    if rs[4]["p"] != rs[5]["p"]:
        ctx.violation("jump diffusion: the same seed gives different paths", {"case": cases[4], "other": cases[5]}, key="jump-seed")
    sizes = [q[s + 1] - q[s] for q in rs[6]["p"] for s in range(100) if abs(q[s + 1] - q[s]) > 1e-12]
    check("jump sizes", sizes, 0.3, 0.2)
    # at intensity 0.005 a step, one jump in 400 is double: allow for it
    check("squared deviations of the jump sizes", [(v - 0.3) ** 2 for v in sizes if abs(v - 0.3) < 0.8], 0.04, 0.04 * math.sqrt(2), 7.0)

    sizes = [q[s + 1] - q[s] for q in rs[7]["p"] for s in range(100) if abs(q[s + 1] - q[s]) > 1e-12]
    check("negative jump sizes", [v for v in sizes if v > -3.2], -2.0, 0.2, 7.0)
    for r, c in zip(rs[8:], cases[8:]):
        if len({q[-1] for q in r["p"]}) < 0.99 * len(r["p"]):
            ctx.violation(f"{len(r['p'])} paths with 60 jumps a year, only {len({q[-1] for q in r['p']})} differ", {"case": c}, key="jump")
    if rs[8]["p"] != rs[9]["p"]:
        ctx.violation("jump diffusion: sequential and parallel paths differ", {"case": cases[8], "other": cases[9]}, key="jump-seed")

    # fractional noise: covariance of the increments
    cases, meta = [], []
    R = ctx.pick(2500, 20000)
    for me in ("cholesky", "fft"):
        for H in (0.2, 0.5, 0.8):
            n, t0, tn = 6, rng.choice([0.0, 1.0]), None
            tn = t0 + 1.5
            cases.append({"k": "gen", "proc": {"p": "fbm", "a": [H, me]}, "cfg": {"x0": 1.0, "t0": t0, "tn": tn, "n": n, "scheme": "euler", "m": R, "par": True, "seed": 5}})
            meta.append((me, H, n, 1.5 / n))
    for me, (c, r) in zip(meta, zip(cases, vp.run_harness(ctx, path, cases))):
        if "p" not in r:
            ctx.violation(f"fractional Brownian motion: {r}", {"case": c}, key="fbm")
            continue
        name, H, n, dt = me
        inc = [[q[s + 1] - q[s] for s in range(n)] for q in r["p"]]
        g = lambda k: 0.5 * (abs(k + 1) ** (2 * H) - 2 * abs(k) ** (2 * H) + abs(k - 1) ** (2 * H)) * dt ** (2 * H)
        for i in range(n):
            for k in range(i, n):
                sd = math.sqrt(g(0) ** 2 + g(k - i) ** 2)
                check(f"covariance of fractional increments {i},{k} (H={H}, {name})", [q[i] * q[k] for q in inc], g(k - i), sd)
        check(f"fractional noise of successive paths (H={H}, {name})", [inc[i][s] * inc[i + 1][s] for i in range(R - 1) for s in range(1)], 0, g(0))
        ctx.nontriv(("fgn", name, H))

    # the exported generators of fractional noise
    cases = [{"k": "fgn", "method": me, "h": H, "n": n, "T": 2.0, "seeds": list(range(1, ctx.pick(400, 3000))) + [1, 2]}
             for me in ("cholesky", "fft") for H, n in ((0.3, 4), (0.7, 9))]
    for c, r in zip(cases, vp.run_harness(ctx, path, cases)):
        if "v" not in r or any(not isinstance(q, list) or len(q) != c["n"] for q in r["v"]):
            ctx.violation(f"fractional noise: {str(r)[:300]}", {"case": {**c, 'seeds': c['seeds'][:3]}}, key="fgn")
            continue
        if r["v"][-2:] != r["v"][:2]:
            ctx.violation(f"fractional noise ({c['method']}): the same seed gives different noise", {"case": {**c, 'seeds': [1, 1]}}, key="fgn")
        dt, H = 2.0 / c["n"], c["h"]
        check(f"variance of fractional noise ({c['method']}, H={H})", [v * v for q in r["v"][:-2] for v in q[:1]], dt ** (2 * H), math.sqrt(2) * dt ** (2 * H))
        g1 = 0.5 * (2 ** (2 * H) - 2) * dt ** (2 * H)
        check(f"covariance of fractional noise ({c['method']}, H={H})", [q[0] * q[1] for q in r["v"][:-2]], g1, math.sqrt(dt ** (4 * H) + g1 * g1))

    # long and rough or smooth: single increments and the whole horizon, on their own and as a process
    R = ctx.pick(250, 1200)
    cases = [{"k": "fgn", "method": me, "h": H, "n": n, "T": T, "seeds": list(range(1, R + 1))}
             for me in ("cholesky", "fft") for H, n, T in ((0.9, 240, 2.0), (0.15, 150, 0.5))]
    cases += [{"k": "gen", "proc": {"p": "fbm", "a": [H, me]}, "cfg": {"x0": 0.0, "t0": 0.0, "tn": T, "n": n, "scheme": "euler", "m": R, "par": True, "seed": 9}}
              for me in ("cholesky", "fft") for H, n, T in ((0.85, 130, 3.0), (0.25, 100, 0.25))]
    for c, r in zip(cases, vp.run_harness(ctx, path, cases)):
        rows = r.get("v") or r.get("p")
        n = c.get("n") or c["cfg"]["n"]
        if c["k"] == "gen" and rows:
            rows = [[q[s + 1] - q[s] for s in range(n)] for q in rows] if all(isinstance(y, (int, float)) for q in rows for y in q) else None
        if not rows or any(not isinstance(q, list) or len(q) != n or any(isinstance(y, str) for y in q) for q in rows):
            ctx.violation(f"fractional noise of {n} steps: {str(r)[:300]}", {"case": {k: v for k, v in c.items() if k != "seeds"}}, key="fgn")
            continue
        H, T = (c["h"], c["T"]) if c["k"] == "fgn" else (c["proc"]["a"][0], c["cfg"]["tn"])
        me = c.get("method") or c["proc"]["a"][1]
        dt = T / n
        for i in (0, n // 3, n - 1):
            check(f"variance of increment {i} of {n} ({me}, H={H})", [q[i] ** 2 for q in rows], dt ** (2 * H), math.sqrt(2) * dt ** (2 * H))
        check(f"variance at the horizon {T} of {n} steps ({me}, H={H})", [sum(q) ** 2 for q in rows], T ** (2 * H), math.sqrt(2) * T ** (2 * H), 7.0)
        ctx.nontriv(("long fgn", me, H))

    # no seed: still the requested shape, and different noise each time
    cases = [{"k": "gen", "proc": {"p": "bm", "a": []}, "cfg": {"x0": 0.0, "t0": 0.0, "tn": 1.0, "n": 5, "scheme": "euler", "m": 40, "par": p, "seed": None}} for p in (False, True)]
    r = vp.run_harness(ctx, path, cases)
    if not all("p" in x and len(x["p"]) == 40 and len({str(q) for q in x["p"]}) == 40 for x in r) or r[0]["p"] == r[1]["p"]:
        ctx.violation("runs without a seed", {"case": cases[0]}, key="unseeded")

    # two-factor processes: the first factor's scheme
    cases = []
    for par in (False, True):
        for a1, b1 in (([[0.3, 1, 0], [0.2, 0, 1]], [[0.0, 0, 0]]), ([[0.0, 0, 0]], [[0.7, 0, 0]]), ([[0.1, 0, 0]], [[0.4, 0, 0], [0.2, 0, 1]])):
            cases.append({"k": "sv", "a1": a1, "b1": b1, "a2": [[5.0, 0, 0]], "b2": [[0.9, 0, 0]], "x0": 2.0, "y0": 7.0, "t0": 0.5, "tn": 2.5, "n": 20, "m": ctx.pick(1300 if par and len(a1) > 1 else 200, 5000), "par": par})
    for c, r in zip(cases, vp.run_harness(ctx, path, cases)):
        if "p" not in r or len(r["p"]) != c["m"] or any(len(q) != 21 or q[0] != 2.0 for q in r["p"]) or len(r["t"]) != 21:
            ctx.violation(f"two-factor process: {str(r)[:300]}", {"case": c}, key="sv")
            continue
        dt = 0.1
        f = lambda co, x, t: sum(k * x ** i * t ** j for k, i, j in co)
        z = []
        for q in r["p"]:
            for s in range(20):
                t = 0.5 + dt * s
                w, bb = q[s] + f(c["a1"], q[s], t) * dt, f(c["b1"], q[s], t)
                if bb == 0:
                    if abs(q[s + 1] - w) > 1e-10 * (1 + abs(w)):
                        ctx.violation(f"two-factor process: step from {q[s]} at {t} must lead to {w}, got {q[s+1]}", {"case": c}, key="sv")
                        break
                else:
                    z.append((q[s + 1] - w) / bb / math.sqrt(dt))
        # unseeded: generous bounds (a false alarm needs a deviation of 7.5 standard errors)
        check("two-factor increments", z, 0, 1, 7.5)
        check("two-factor squared increments", [v * v for v in z], 1, math.sqrt(2), 8.5)
        ctx.nontriv("sv")
