"""C29: ImpliedVol.tla against the implied volatilities and the SABR volatility."""
import math
from lib import vp
from lib.expr import Dag, mpmath
from checks.c23 import point, strike


def run(ctx):
    b = vp.Build(ctx, "opt")
    lines = vp.tlc(ctx, "ImpliedVol", vp.cfg_text(spec="IVSpec", constants=dict(Levels=6), invariants=("EmitIV",), properties=("Monotone",)), name="iv").lines
    mp = mpmath(60)
    dag = Dag()
    F = {(d["m"], d["side"]): {g: dag.add(e) for g, e in d.items() if g not in ("m", "side")} for d in lines}
    path = b.get()
    rng = ctx.rng

    def val(m, side, what, env):
        return dag.run(env, [F[m, side][g] for g in what], mp)

    cases = []
    for m in ("bs", "gbsm", "bachelier"):
        for j in range(ctx.pick(120, 1500)):
            e, t, days, z = point(rng, m)
            if m == "bachelier":
                z = rng.choice([0.0, rng.uniform(-1, 1), rng.uniform(-3, 3), rng.uniform(-4.5, 4.5)])
            elif rng.random() < 0.3:
                z = rng.uniform(-20, 20)
            if m == "bs":
                e["b"] = e["r"]
            how = rng.choice(["dates", "today"]) if m == "gbsm" else "model" if m == "bs" else rng.choice(["model", "pricer"])
            k = strike(m, e, t, z)
            if m == "bs" and rng.random() < 0.15:
                e["s"], e["r"], k = 100.0, 0.0, 100.0               # x = 0 exactly
            if m != "bachelier" and rng.random() < 0.1:
                k = e["s"] * math.exp(rng.uniform(-300, 300))       # so far away that vega is below machine epsilon
            if m == "bachelier" and z == 0:
                k = e["f"]
            if m == "bachelier" and abs(k - e["f"]) < 1e-12 * abs(k):
                k = e["f"]
            for side in ("call", "put"):
                env = dict(e, k=k, t=t)
                env.pop("y", None)
                what = ["price", "vega", "lo"] + (["hi"] if m != "bachelier" else ["atm"])
                p, vega, lo, hi = val(m, side, what, env)
                ps = [(float(p), "vol")]
                if m != "bachelier":
                    gap = float(hi - lo)
                    ps += [(float(lo) - 1e-6 * float(hi), "-inf"), (float(hi) * (1 + 1e-6), "inf"), (float(lo) * 0.5 - 1e-300 if lo > 0 else -1e-3, "-inf"), (float(hi) * 7, "inf")]
                    ps = [(x, kk) for x, kk in ps if kk != "-inf" or x < float(lo) - 1e-12 * float(hi) or x < 0]
                    if gap > 1e-3 * float(hi):
                        ps += [(float(lo) + gap * u, "vol") for u in (rng.random(), 10 ** rng.uniform(-9, 0) * 0.99, 1 - 10 ** rng.uniform(-6, 0) * 0.99)]
                c = {"k": "iv", "m": m, "side": side, "kk": k, "p": [x for x, _ in ps],
                     "a": {x: float(e[x]) for x in {"bs": "sr", "gbsm": "srbv", "bachelier": "frv"}[m]}}
                if how == "model":
                    c["t"] = t
                else:
                    c["days"], c["today"] = days, how == "today"
                cases.append((c, env, [x for _, x in ps], (float(lo), float(hi))))
    sabr = []
    for j in range(ctx.pick(400, 6000)):
        a = {"f": rng.choice([100.0, 0.03, round(10 ** rng.uniform(-3, 3), 5)]), "beta": rng.choice([0.0, 0.5, 1.0, round(rng.uniform(0, 1), 3)]),
             "rho": rng.choice([0.0, -0.3, round(rng.uniform(-0.98, 0.98), 3)]), "nu": rng.choice([0.4, round(10 ** rng.uniform(-3, 0.5), 4)])}
        a["alpha"] = round(10 ** rng.uniform(-2, 0), 4) * a["f"] ** (1 - a["beta"])
        t = rng.choice([1.0, round(10 ** rng.uniform(-2, 1.3), 3)])
        k = a["f"] * (1 if rng.random() < 0.15 else 1 + rng.choice([-1, 1]) * 10 ** rng.uniform(-9, -3) if rng.random() < 0.25 else math.exp(rng.uniform(-1.5, 1.5)))
        sabr.append(({"k": "iv", "m": "sabr", "kk": k, "a": a, "t": t, "p": []}, dict(a, k=k, t=t), None, None))
    cases += sabr
    for (c, env, kinds, lohi), r in zip(cases, vp.run_harness(ctx, path, [c for c, *_ in cases])):
        m = c["m"]
        if "dead" in r or "skipped" in r or "panic" in r:
            if "skipped" not in r:
                ctx.violation(f"{m} {c}: {r}", {"case": c})
            continue
        ctx.traces += 1
        if m == "sabr":
            at = env["f"] == env["k"]
            x = val(m, "", ["atm" if at else "away"], env)[0]
            if x is None:
                x = val(m, "", ["atm"], env)[0]
            if not vp.close(float(x), r["vol"], 1e-8, 0):
                ctx.violation(f"SABR volatility {r['vol']}, Hagan's expansion is {float(x)!r}; {c}", {"case": c})
            ctx.nontriv(f"sabr{float(x):.3g}")
            continue
        side = c["side"]
        for p, kind, iv in zip(c["p"], kinds, r["iv"]):
            if kind != "vol":
                ok = iv == kind or (isinstance(iv, float) and iv == float(kind))
                if not ok:
                    ctx.violation(f"{m} {side}: a price of {p} {'below' if kind == '-inf' else 'above'} every model price must give {kind}, got {iv}; {c}", {"case": c})
                continue
            if p <= 0:
                continue
            if not isinstance(iv, (int, float)) or iv <= 0:
                # at the rounding error of the bounds either answer is possible
                if m != "bachelier" and (p - lohi[0] < 1e-12 * (p + lohi[1]) or lohi[1] - p < 1e-12 * lohi[1]):
                    continue
                if m == "bachelier" and p - lohi[0] < 1e-12 * (p + abs(env["k"]) + abs(env["f"])):
                    continue
                ctx.violation(f"{m} {side}: implied volatility of {p} is {iv}; {c}", {"case": c})
                continue
            env2 = dict(env, v=iv)
            q, vega = val(m, side, ["price", "vega"], env2)
            # rounding: of the forward and of the price where an intrinsic value is taken off, of the volatility itself
            if m == "bachelier":
                tol = 1e-14 * (abs(env["k"]) + abs(env["f"]) + p) * math.exp(max(0.0, -env["r"] * env["t"])) + 1e-6 * iv * float(vega)
            else:
                legs = val(m, side, ["legs"], env2)[0]
                if legs is None or q is None or vega is None:
                    ctx.violation(f"{m} {side}: there is no price at the implied volatility {iv} of {p}; {c}", {"case": c})
                    continue
                legs = float(legs)
                tol = 4e-15 * (1 + abs(env["r"] * env["t"]) + max(0, abs(math.log(env["s"] / env["k"])) - 20) / 4) * (legs + (lohi[1] if lohi[0] > 0 else 0)) + 1e-14 * iv * float(vega)
            if abs(float(q) - p) > tol:
                ctx.violation(f"{m} {side}: the price at the implied volatility {iv} is {float(q)!r}, not {p}; {c}", {"case": c})
            ctx.nontriv(f"{m}{side}{iv:.3g}")
        if m == "bs":
            if r["iv"] != r["iv2"]:
                ctx.violation(f"iv and implied_volatility differ: {r}; {c}", {"case": c})
        if m == "bachelier":
            x = float(val(m, side, ["atm"], env)[0])
            if not vp.close(x, r["atm_price"], 1e-12, 0):
                ctx.violation(f"Bachelier at-the-money price {r['atm_price']}, not {x!r}; {c}", {"case": c})
            for p, w in zip(c["p"], r["atm"]):
                if p > 0 and not vp.close(p / x * env["v"], w, 1e-12, 0):
                    ctx.violation(f"Bachelier at-the-money volatility of {p} is {w}, not {p / x * env['v']!r}; {c}", {"case": c})
    return ctx.finish("the model's price at the implied volatility is the quote, and quotes outside the model's range are told apart", exhaustive=False)
