"""C23: Greeks.tla against the closed-form option models."""
import math
from lib import vp
from lib.expr import Dag, mpmath

ARGS = {"bs": "srv", "merton": "srqv", "black": "srv", "asay": "sv", "gk": ["s", "r", "rf", "v"], "gbsm": "srbv", "gyield": "srbv", "bachelier": "frv"}


def point(rng, m):
    """parameters, strike, days"""
    days = rng.choice([1, 2, 7, 30, 91, 182, 365, 400, 731, 1826, 3653, 10958, rng.randint(1, 7000)])
    t = days / 365.25
    e = {"r": rng.choice([0.0, 0.05, round(rng.uniform(-0.05, 0.3), 4), round(rng.uniform(-0.2, 0.6), 4)]),
         "q": rng.choice([0.0, round(rng.uniform(-0.03, 0.2), 4), round(rng.uniform(-0.3, 0.5), 4)]),
         "rf": rng.choice([0.0, round(rng.uniform(-0.05, 0.2), 4), round(rng.uniform(-0.3, 0.5), 4)]),
         "b": rng.choice([0.0, round(rng.uniform(-0.2, 0.25), 4), round(rng.uniform(-0.6, 0.6), 4)]),
         "v": rng.choice([0.2, 0.25, round(10 ** rng.uniform(-2, 0.3), 4)]), "s": rng.choice([100.0, round(10 ** rng.uniform(-2, 4), 4)])}
    e["f"] = e["s"] * rng.choice([1, 1, 1, -1])
    if m == "bachelier":
        e["v"] = round(10 ** rng.uniform(-2.5, 0.5) * e["s"], 6)
    z = rng.choice([0.0, 0.0, rng.uniform(-1, 1), rng.uniform(-3, 3), rng.uniform(-6, 6)])
    return e, t, days, z


def carry(m, e):
    return {"bs": e["r"], "merton": e["r"] - e["q"], "black": 0.0, "asay": 0.0, "gk": e["r"] - e["rf"], "gbsm": e["b"], "gyield": e["b"]}[m]


def strike(m, e, t, z):
    if m == "bachelier":
        return e["f"] + z * e["v"] * math.sqrt(t)
    return e["s"] * math.exp(carry(m, e) * t + z * e["v"] * math.sqrt(t))


def run(ctx):
    b = vp.Build(ctx, "opt")
    lines = vp.tlc(ctx, "Greeks", vp.cfg_text(spec="Spec", invariants=("Emit",)), name="greeks").lines
    mp = mpmath(40)
    dag = Dag()
    want = {}
    for d in lines:
        want.setdefault((d["m"], d["side"]), {})[d["g"]] = dag.add(d["e"])
        if "fwd" in d:
            want[d["m"], d["side"]].update(fwd=dag.add(d["fwd"]), str=dag.add(d["str"]))
    ctx.notes["formulas"] = f"{sum(map(len, want.values()))} formulas, {len(dag.nodes)} distinct subterms"
    path = b.get()
    rng = ctx.rng
    cases = []
    for m in ARGS:
        for j in range(ctx.pick(250, 1500)):
            e, t, days, z = point(rng, m)
            how = rng.choice(["model", "model", "pricer"]) if m not in ("gbsm", "gyield") else rng.choice(["dates", "dates", "today"])
            k = strike(m, e, t, z)
            if j < 6 and m != "bachelier":      # d1 or d2 exactly zero
                e = dict(e, s=100.0, v=0.25, r=0.03125, q=0.0, rf=0.0, b=(0.03125, -0.03125)[j % 2])
                if m in ("merton", "gk") and j % 2:
                    e["q"] = e["rf"] = 0.0625
                k, how, t = 100.0, "model" if m not in ("gbsm", "gyield") else "dates", (1.0, 0.25, 4.0)[j // 2]
                if m in ("gbsm", "gyield"):
                    t = days / 365.25
            if rng.random() < 0.5:
                k = round(k, 3) or 1.0
            if m in ("gyield", "gbsm"):
                e["y"] = mp.mpf(e["r"]) - mp.mpf(e["b"])
            if how == "model":
                t = round(t, 6) if rng.random() < 0.5 else t
                if t <= 0:
                    continue
            for side in ("call", "put"):
                c = {"k": "greeks", "m": m, "side": side, "kk": k, "a": {x: float(e[x]) for x in ARGS[m]}}
                if how == "model":
                    c["t"] = t
                else:
                    c["days"] = days
                    c["today"] = how == "today"
                cases.append((c, dict(e, k=k, t=t), j))
    memo = {}
    for (c, env, j), r in zip(cases, vp.run_harness(ctx, path, [c for c, _, _ in cases])):
        m, side = c["m"], c["side"]
        if "dead" in r or "skipped" in r or "panic" in r:
            if "skipped" not in r:
                ctx.violation(f"{m} {side} {c}: {r}", {"case": c})
            continue
        w = want[m, side]
        gs = list(w)
        key = (m, str(c["a"]), c["kk"], env["t"])
        if key not in memo:
            memo.clear()
            both = [(s2, g) for s2 in ("call", "put") for g in want[m, s2]]
            roots = [want[m, s2][g] for s2, g in both]
            # how big each greek gets around the forward
            unit = {}
            for z in (-1.0, -0.3, 0.0, 1.0):
                for k, x in zip(both, dag.run(dict(env, k=strike(m, env, env["t"], z), y=float(env.get("y", 0))), roots)):
                    if x is not None:
                        unit[k] = max(unit.get(k, 0.0), abs(x))
            memo[key] = dict(zip(both, dag.run(env, roots, mp))), unit
            v = memo[key][0]
            if "fwd" in w and "price" in w and abs(v["call", "price"] - v["put", "price"] - v["call", "fwd"] + v["call", "str"]) > 1e-30 * (v["call", "fwd"] + v["call", "str"]):
                ctx.violation(f"specification: parity fails at {c}", {"case": c})
        v, unit = memo[key]
        for g in gs:
            if g in ("fwd", "str") or g not in r:
                continue
            x = v[side, g]
            if x is None:
                continue
            x = float(x)
            tol = 1e-9 * abs(x) + 1e-11 * unit.get((side, g), 1.0)
            if g in ("d1", "d2"):
                tol = 1e-10 * (1 + abs(x))
            elif g == "lambda":
                p, F, K = (float(v[side, n]) for n in ("price", "fwd", "str"))
                if p < 1e-11 * K:
                    continue
                tol = 1e-9 * abs(x) + (abs(x) * 1e-13 * (F + K) + 1e-13 * F) / p
            elif g == "price":
                tol = 1e-9 * abs(x) + 1e-13 * (float(v[side, "fwd"] + v[side, "str"]) if "fwd" in w else abs(c["kk"]) + abs(c["a"]["f"]))
            if not vp.close(x, r[g], 0, tol):
                ctx.violation(f"{m} {side} {g}: {r[g]} where the price's formula gives {x!r}; {c}", {"case": c})
            ctx.nontriv(f"{m}.{g}.{side}.{x:.2g}")
        if "npv" in r and r["npv"] != r["price"]:
            ctx.violation(f"{m} {side}: Instrument::price {r['npv']} and price() {r['price']}; {c}", {"case": c})
        if r.get("vd", 0) != 0:
            ctx.violation(f"{m}: valued {r['vd']} days from the evaluation date; {c}", {"case": c})
        if "t" in r and not vp.close(c["days"] / 365.25, r["t"], 1e-14, 0):
            ctx.violation(f"{m}: {c['days']} days are {r['t']} years", {"case": c})
        ctx.traces += 1
        if j < 3:
            ctx.sample(f"{c} -> delta {r['delta']}")
    return ctx.finish("every greek, of every model and through every pricer, is the derivative its name says of the model's own price, at every point tried",
                      exhaustive=False)
