"""C30: Heston.tla (the price as Fourier integrals of the affine characteristic functions, the greeks
as its derivatives) against Heston93 and its pricer."""
import math
from lib import vp
from lib.expr import Dag, mpmath, numpy, panels, vec

WHAT = ("price", "delta", "gamma", "rho")


def params(rng):
    a = dict(s=round(10 ** rng.uniform(0.3, 3.3), 3), v=round(10 ** rng.uniform(-2.3, -0.5), 4), r=rng.choice([0.0, round(rng.uniform(-0.02, 0.12), 4)]),
             q=rng.choice([0.0, round(rng.uniform(-0.05, 0.12), 4)]), rho=rng.choice([0.0, round(rng.uniform(-0.95, 0.95), 3)]),
             kappa=round(10 ** rng.choice([rng.uniform(-0.7, 1), rng.uniform(-1.7, -0.7)]), 3), theta=round(10 ** rng.uniform(-2.3, -0.5), 4), sigma=round(10 ** rng.uniform(-1.2, 0.2), 3))
    return a


def run(ctx):
    b = vp.Build(ctx, "opt")
    lines = vp.tlc(ctx, "Heston", vp.cfg_text(spec="HSpec", invariants=("EmitHeston",)), name="heston").lines
    np, rng = numpy(), ctx.rng
    dag = Dag()
    F, laws, shift, limit = {}, {}, None, {}
    for d in lines:
        if d["g"] == "laws":
            laws[d["j"]] = {x: dag.add(d[x]) for x in ("riccati", "drift", "c", "d", "cf")}
        elif d["g"] == "shift":
            shift = dag.add(d["shift"])
        elif d["g"] == "limit":
            limit[d["side"]] = dag.add(d["bs"])
        else:
            F[d["side"], d["g"]] = dag.add(d["e"])
    ctx.notes["formulas"] = f"{len(F)} integrals, {len(dag.nodes)} distinct subterms"
    cf = [laws[1]["cf"], laws[2]["cf"]]

    def env_of(a, k, t):
        return dict(a, k=k, t=t, i=1j)

    def domain(a, k, t):
        """the frequency at which the characteristic functions have died out, or None outside the domain"""
        if a["rho"] * a["sigma"] >= a["kappa"]:
            return None
        e, u = env_of(a, k, t), 0.25
        L = abs(math.log(a["s"] / k) + (a["r"] - a["q"]) * t)
        while u * L < 100 and u < 1e5:
            if max(abs(complex(x)) for x in vec(dag, dict(e, p=u), cf)) < 1e-14:
                return u, L
            u *= 1.4
        return None

    def value(e, U, L, roots):
        edges = [0.0]
        for g in range(24, -1, -1):
            hi = U * 2.0 ** -g
            n = 1 + int((hi - edges[-1]) * (L + 1) / 8)
            lo = edges[-1]
            edges += [lo + (hi - lo) * m / n for m in range(1, n + 1)]
        x, w = panels(edges)
        return [float(np.real(z)) for z in vec(dag, dict(e, p=x), roots, w)]

    # the formulas' own laws
    worst = 0.0
    mp = mpmath(30)
    for _ in range(ctx.pick(300, 3000)):
        a, t = params(rng), rng.choice([0.05, 0.25, 1.0, 5.0, 20.0])
        k = a["s"] * math.exp(rng.uniform(-0.5, 0.5))
        e = dict(env_of(a, k, t), p=np.array([rng.uniform(0.1, 1), rng.uniform(1, 10), rng.uniform(10, 40)]))
        for j in (1, 2):
            ric, dr, d = vec(dag, e, [laws[j]["riccati"], laws[j]["drift"], laws[j]["d"]])
            sc = 1 + abs(e["p"]) ** 2 + abs(d) ** 2
            worst = max(worst, float(np.max(abs(ric) / sc)), float(np.max(abs(dr) / sc)))
        sh, f1 = vec(dag, e, [shift, cf[0]])
        worst = max(worst, float(np.max(abs(sh))) / a["s"] / math.exp((a["r"] - a["q"]) * t))
        ctx.nontriv(("laws", t, a["kappa"]))
    for z in ("call", "put"):                        # sigma -> 0 at v = theta is Black-Scholes
        for _ in range(20):
            a = dict(params(rng), sigma=2e-3, kappa=1.0)
            a["theta"] = a["v"]
            k, t = a["s"] * math.exp(rng.uniform(-0.1, 0.1)), rng.choice([0.5, 1.0, 2.0])
            dm = domain(a, k, t)
            if dm:
                h = value(env_of(a, k, t), *dm, [F[z, "price"]])[0]
                bs = float(dag.run(dict(a, v=math.sqrt(a["v"]), k=k, t=t), [limit[z]], mp)[0])
                if abs(h - bs) > 1e-3 * a["s"]:
                    raise AssertionError(f"Heston.tla does not tend to Black-Scholes: {h} {bs} {a}")
    ctx.notes["laws"] = f"largest residual of the defining equations {worst:.2g}"
    if not worst < 1e-6:
        raise AssertionError(f"Heston.tla: C and D do not solve the model's equations ({worst})")

    cases = []
    tries = 0
    while len(cases) < ctx.pick(1200, 12000) and tries < 200000:
        tries += 1
        a = params(rng)
        how = rng.choice(["model", "model", "model", "pricer"])
        days = rng.choice([30, 91, 182, 365, 731, 1826, 3653, rng.randint(20, 7000)])
        t = days / 365.25 if how == "pricer" else rng.choice([0.0625, 0.125, 0.25, 0.5, 1.0, 2.0, 5.0, 10.0, 30.0, round(10 ** rng.uniform(-1.2, 1.3), 3)])
        sd = math.sqrt(max(a["theta"] * t + (a["v"] - a["theta"]) * (1 - math.exp(-a["kappa"] * t)) / a["kappa"], 1e-12))
        k = round(a["s"] * math.exp((a["r"] - a["q"]) * t + rng.choice([0, 1]) * rng.gauss(0, 1) * sd), 4)
        if k <= 0:
            continue
        dm = domain(a, k, t)
        if dm is None:
            continue
        for side in ("call", "put"):
            c = {"k": "greeks", "m": "heston", "side": side, "kk": k, "a": a}
            c["days" if how == "pricer" else "t"] = days if how == "pricer" else t
            cases.append((c, env_of(a, k, t), dm))
    ctx.sample(cases[0][0])
    ctx.sample(cases[-1][0])
    for (c, e, dm), r in zip(cases, vp.run_harness(ctx, b.get(), [c for c, *_ in cases])):
        if "dead" in r or "skipped" in r or "panic" in r:
            if "skipped" not in r:
                ctx.violation(f"Heston {c}: {r}", {"case": c})
            continue
        ctx.traces += 1
        exp = value(e, *dm, [F[c["side"], g] for g in WHAT])
        s, t, k = e["s"], e["t"], e["k"]
        tol = 1e-4 if t > 5 else 2e-6
        ctx.nontriv(f"{c['side']}{exp[0]:.4g}")
        for g, x, unit in zip(WHAT, exp, (s, 1.0, 1 / s, max(s, k) * t)):
            y = r.get(g)
            if not isinstance(y, float) and not isinstance(y, int) or not abs(y - x) <= tol * unit:
                ctx.violation(f"Heston {c['side']} {g} is {y}, the model's is {x!r}; {c}", {"case": c, "greek": g, "want": x})
    ctx.assumptions += ["domain: kappa > rho*sigma (the stock-measure variance reverts) and a characteristic function that dies out before p |ln(F/K)| reaches 100; "
                        "outside it the fixed quadrature of the code (and of the oracle) loses accuracy",
                        "the integrals are evaluated by composite Gauss-Legendre quadrature in double precision; agreement is asked to 2e-6 of the spot (1e-4 beyond five years)"]
    return ctx.finish("a parameter set, strike, maturity and side")
