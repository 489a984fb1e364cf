"""C33: NelsonSiegel.tla against NelsonSiegelSvensson."""
from lib import vp
from lib.expr import Dag, mpmath


def run(ctx):
    b = vp.Build(ctx, "proc", "stoch")
    d = vp.tlc(ctx, "NelsonSiegel", vp.cfg_text(spec="NSpec", invariants=("Emit",)), name="nss").lines[0]
    dag, mp, rng = Dag(), mpmath(30), ctx.rng
    roots = [dag.add(d[x]) for x in ("spot", "forward", "discount")]
    cases = []
    for _ in range(ctx.pick(600, 8000)):
        pc = rng.choice([1.0, 1.0, 1.0, 0.01, 0.01, 40.0])
        a = {f"b{i}": round(rng.choice([0, 1, 1, 1]) * rng.uniform(-8, 8) * pc, 5) for i in range(4)}
        a["l1"], a["l2"] = (round(10 ** (rng.uniform(-1.3, 1.3) if rng.random() < 0.6 else rng.uniform(-3.3, 3.3)), 6) for _ in "12")
        cases.append({"k": "nss", "a": a, "days": [rng.choice([1, 2, 30, 365, 366, 36525, rng.randint(1, 40000)]) for _ in range(8)]})
    ctx.sample(cases[0])
    for c, r in zip(cases, vp.run_harness(ctx, b.get(), cases)):
        if "skipped" in r:
            continue
        ctx.traces += 1
        if "v" not in r:
            ctx.violation(f"curve: {r}; {c}", {"case": c})
            continue
        sc = sum(abs(c["a"][f"b{i}"]) for i in range(4))
        for n, got in zip(c["days"], r["v"]):
            want = [float(x) for x in dag.run(dict(c["a"], tau=n / mp.mpf("365.25")), roots, mp)]
            ctx.nontriv(f"{want[0]:.3g}")
            # (1 - exp(-x))/x loses digits for short maturities: by the ratio of maturity and time scale
            lost = 1e-15 * (1 + max(c["a"]["l1"], c["a"]["l2"]) * 365.25 / n)
            for what, w, g, tol in zip(("spot rate", "forward rate", "discount factor"), want, got, (sc * (1e-12 + 20 * lost), sc * 1e-12, want[2] * (1 + sc * n / 36525) * (1e-12 + 20 * lost))):
                if not isinstance(g, (int, float)) or not abs(g - w) <= tol:
                    ctx.violation(f"{what} {n} days ahead is {g}, the curve's is {w!r}; {c['a']}", {"case": dict(c, days=[n]), "want": w})
        if r["past"] != ["panic", "panic"]:
            ctx.violation(f"rates of dates that are not in the future: {r['past']}; {c['a']}", {"case": c})
    ctx.assumptions += ["time scales are positive; maturities are in 365.25-day years from today; rates are percentages (the discount factor divides by 100)"]
    return ctx.finish("a parameter set and a date")
