"""C22: MonteCarlo.tla against price_monte_carlo of every instrument."""
import math
from lib import vp
from lib.expr import ev, Domain
from checks.c20 import q

LENS = [2, 3, 5, 8]
COUNTS = [1, 2, 3, 7, 20, 50, 333]


def run(ctx):
    b = vp.Build(ctx, "opt")
    S = lambda xs: "{" + ", ".join(map(str, xs)) + "}"
    o = {"MCM.tla": "---- MODULE MCM ----\nEXTENDS MonteCarlo\n"
         f"VV == {{1, 2, 3}}\nLL == {S(LENS)}\nCC == {S(COUNTS)}\nKK == {{<<1, 1>>, <<2, 1>>, <<5, 2>>}}\n====\n"}
    lines = vp.tlc(ctx, "MCM", vp.cfg_text(spec="SpecMC", constants=dict(Vals="<- VV", MaxLen=0, Lens="<- LL", SymLens={1}, Strikes="<- KK", PathLen=2, MaxPaths=ctx.pick(2, 3),
                   Counts="<- CC"), invariants=("OrderFree", "Batches", "InOutMC", "ParityMC", "EmitMC")), overrides=o, name="mc").lines
    price = {d["m"]: d["price"] for d in lines if "m" in d and "price" in d}
    pays = [d for d in lines if "pay" in d]
    indep = [d for d in pays if d["n"] == 1]
    by = {n: indep + [d for d in pays if d["n"] == n] for n in LENS}
    path = b.get()
    rng = ctx.rng
    procs = [
        ("gbm", lambda: [round(rng.uniform(-0.1, 0.3), 3), round(rng.uniform(0.05, 0.6), 3)]),
        ("gbm", lambda: [[0.05, 0.1], [0.5, 0.3]]),
        ("cir", lambda: [2.0, 0.3, round(rng.uniform(0.1, 2), 2)]),
        ("abm", lambda: [0.1, 0.2]), ("ou", lambda: [2.0, 0.3, 1.1]), ("cev", lambda: [0.1, 0.3, 0.5]),
        ("hw", lambda: [0.3, 0.2, 0.5]), ("ev", lambda: [0.3, 0.2, 0.5]), ("hl", lambda: [0.3, 0.2]), ("gbb", lambda: [0.1, 0.2, 2.0, 9.0]), ("bdt", lambda: [0.2, 0.1]),
        ("fixed", None), ("fixed", None), ("fixed", None), ("fixed", None),
    ]
    cases = []
    for rep in range(ctx.pick(6, 40)):
        for p, mk in procs:
            n, m = rng.choice(LENS), rng.choice(COUNTS)
            t0 = rng.choice([0.0, 0.0, 0.5, -1.0, 2.25])
            tn = t0 + rng.choice([0.25, 0.5, 1.0, 2.0, 5.0])
            pr = {"p": p, "a": mk() if mk else None}
            if p == "fixed":
                neg = rng.choice([[], [], [0.0, -0.5, -2.0, -7.25]])
                pr["paths"] = [[rng.choice([0.5, 1.0, 1.5, 2.0, 2.5, 3.0, round(rng.uniform(0.3, 5), 2)] + neg) for _ in range(n)] for _ in range(m)]
            cs = rng.sample(by[n], min(len(by[n]), ctx.pick(60, 150)))
            cs += [d for d in by[n] if d["c"]["f"] == "asian" and d not in cs][:12]
            cases.append(({"k": "mc", "c": [d["c"] for d in cs], "proc": pr, "r": [0.0, 0.07, round(rng.uniform(-0.05, 0.6), 3), round(rng.uniform(-1.5, 0.0), 3)],
                           "cfg": {"x0": 2.0, "t0": t0, "tn": tn, "n": n - 1, "scheme": rng.choice(["euler", "milstein", "strang"]), "m": m,
                                   "par": rng.random() < 0.5, "seed": rng.randrange(1, 1 << 40)}}, cs))
    for (case, cs), r in zip(cases, vp.run_harness(ctx, path, [c for c, _ in cases])):
        if "dead" in r or "skipped" in r:
            if "dead" in r:
                ctx.violation(f"{case['proc']}: {r}", {"case": case})
            continue
        g, cfg = r["t"], case["cfg"]
        if "panic" in g:
            ctx.violation(f"generating {case['proc']} panicked: {g['panic']}", {"case": case})
            continue
        paths = g["p"]
        if len(paths) != cfg["m"] or any(isinstance(x, str) for p in paths for x in p):
            if len(paths) != cfg["m"]:
                ctx.violation(f"{cfg['m']} paths requested, {len(paths)} generated", {"case": case})
            continue
        below = any(x <= 0 for p in paths for x in p)
        for d, vs in zip(cs, r["v"]):
            if below and not (d["c"]["f"] in ("vanilla", "binary", "barrier", "lookback") or d["c"]["f"] == "asian" and d["c"]["avg"] == "arith"):
                continue                              # power and log contracts are undefined there
            env = {}
            try:
                mags = 0.0
                for i, p in enumerate(paths):
                    sel = p[-1:] if d["n"] == 1 else p
                    x = ev(d["pay"], {f"p{j+1}": y for j, y in enumerate(sel)})
                    env[f"v{i+1}"] = x
                    mags = max(mags, abs(x), max(map(abs, sel)))
                for rate, got in zip(case["r"], vs):
                    want = ev(price[len(paths)], {**env, "r": rate, "t0": cfg["t0"], "tn": cfg["tn"]})
                    ctx.traces += 1
                    ctx.nontriv((d["c"]["f"], case["proc"]["p"], want != 0))
                    if not isinstance(got, (int, float)) or abs(got - want) > 1e-10 * max(abs(want), mags * max(1.0, math.exp(-rate * (cfg["tn"] - cfg["t0"])))):
                        ctx.violation(f"{d['c']} under {case['proc']['p']} with {cfg} at rate {rate}: the discounted mean payoff is {want}, got {got}",
                                      {"case": {**case, "c": [d["c"]], "r": [rate]}, "want": want, "got": got})
                        raise StopIteration
            except Domain:
                continue
            except StopIteration:
                break
    ctx.sample({"price": price[2]})
    return ctx.finish("Every Monte Carlo priced contract over eleven processes and given path sets, random horizons (start not zero), rates of both signs, "
                      "1 to 50 paths of 2 to 8 observations, both execution modes, all schemes; paths regenerated with the same seed.")
