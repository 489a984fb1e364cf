"""C28: Activation.tla against the activation functions of floats, vectors and differentiable variables."""
import math
from lib import vp
from lib.expr import ev, Domain


def run(ctx):
    b = vp.Build(ctx, "ml")
    defs = vp.tlc(ctx, "Activation", vp.cfg_text(invariants=("Emit",)), name="formulas").lines
    path = b.get()
    xs = [s * v for s in (1, -1) for v in [0.0, 1e-300, 1e-9, 1e-3, 0.1, 0.25, 0.5, 0.7, 0.999, 1, 1.5, 2, 2.5, 3.3, 5, 7, 10, 15, 20, 25, 30, 50, 100, 300, 600]]
    xs += [ctx.rng.uniform(-6, 6) for _ in range(ctx.pick(300, 5000))] + [ctx.rng.uniform(-500, 500) for _ in range(ctx.pick(100, 2000))]
    cases = [{"k": "act", "f": d["f"], "x": xs} for d in defs] + [{"k": "act", "f": d["f"], "x": []} for d in defs]
    for c, d, r in zip(cases, defs + defs, vp.run_harness(ctx, path, cases)):
        if "dead" in r or "skipped" in r:
            if "dead" in r:
                ctx.violation(f"{d['f']}: {r}", {"case": c, "got": r})
            continue
        if not isinstance(r["v"], list) or len(r["v"]) != len(c["x"]):
            ctx.violation(f"{d['f']} of a vector of {len(c['x'])} values: {r['v']}", {"case": {**c, 'x': c['x'][:5]}})
            continue
        for x, g, v, a in zip(c["x"], r["f"], r["v"], r["ad"]):
            ctx.traces += 1
            try:
                want = ev(d["v"], {"x": x})
            except Domain:       # exp out of range inside the formula: the limit
                want = 0.0
            big = max(1.0, abs(want))
            tol = 1e-11 * big + (1e-9 * abs(x) if d["f"] == "gelu" else 0)      # erf is approximate to about 1e-9 at worst
            if d["f"] in ("sigmoid", "logistic", "gaussian", "identity", "tanh"):   # to full relative accuracy, however small
                tol = min(tol, 1e-12 * (1 + (x * x if d["f"] == "gaussian" else abs(x))) * abs(want) + 1e-300)
            ok = lambda t, w=want, tt=tol: isinstance(t, (int, float)) and abs(t - w) <= tt
            ctx.nontriv(d["f"] + ("+" if x > 0 else "-"))
            if not ok(g) or not ok(v) or not isinstance(a, list) or not ok(a[0]):
                ctx.violation(f"{d['f']}({x}) = {want}; float {g}, vector {v}, variable {a}", {"f": d["f"], "x": x})
                break
            try:
                dv = ev(d["d"], {"x": x})
            except Domain:
                continue
            if not isinstance(a[1], (int, float)) or abs(a[1] - dv) > 1e-8 * max(1.0, abs(dv)):
                ctx.violation(f"derivative of {d['f']} at {x} is {dv}, got {a[1]}", {"f": d["f"], "x": x})
                break
    ctx.sample({"formulas": defs[0]})
    return ctx.finish("Every activation function at a grid and random points in [-600, 600], over the three types; derivatives against the symbolic derivative.")
