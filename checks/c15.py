"""C15: Interp.tla and BSpline.tla against the three interpolators."""
import math
from lib import vp
from checks.c10 import sets, q

AXES = ("f64", "f32", "date", "time", "prim", "offset", "dec")


def expected(x, m):
    """(value, scale) of an answer of the specification"""
    if x["k"] == "node":
        return q(x["v"]), abs(q(x["v"]))
    l, r, t = q(x["l"]), q(x["r"]), q(x["t"])
    if m == "lin":
        return q(x["lin"]), max(abs(l), abs(r))
    return (v := math.exp(t * math.log(r) + (1 - t) * math.log(l))), v


def judge(h, r, m, ax):
    tol = 3e-6 if ax == "f32" else 1e-12
    for n, (ev, o) in enumerate(zip(h, r)):
        e, x = ev["e"], ev["x"]
        if "panic" in o:
            return f"event {n+1} {e[0]}: panicked: {o['panic']}"
        if e[0] == "new" and not o["short"]:
            return "nodes of unequal length must be refused"
        if e[0] != "ask":
            continue
        if [o["lo"], o["hi"]] != [x["lo"], x["hi"]]:
            return f"event {n+1}: range {o['lo']}..{o['hi']}, the nodes span {x['lo']}..{x['hi']}"
        for p, w, g in zip(e[1], x["a"], o["a"]):
            if w["k"] == "outside":
                if g != "OutsideOfRange":
                    return f"event {n+1}: at {p}, outside the range: {g}"
                continue
            v, sc = expected(w, m)
            if not isinstance(g, list) or isinstance(g[0], str) or abs(g[0] - v) > (tol * sc if w["k"] == "between" or ax == "f32" else 1e-15 * sc):
                return f"event {n+1}: at {p} expected {v}, got {g} ({w})"
    return None


def judge_spline(h, r, ax):
    tol = 1e-4 if ax == "f32" else 1e-9
    for n, (x, o) in enumerate(zip(h, r)):
        if "panic" in o:
            return f"event {n+1}: panicked: {o['panic']}"
        if x["e"][0] == "bad":
            return None if o.get("err") == "BSplineInvalidParameters" and str(x["n"]) in o["msg"] else f"must be refused naming {x['n']} knots: {o}"
        if "err" in o:
            return f"event {n+1}: refused: {o['err']}"
        if [o["lo"], o["hi"]] != [2 * x["lo"], 2 * x["hi"]]:
            return f"event {n+1}: range {o['lo']}..{o['hi']}, the knots span {2*x['lo']}..{2*x['hi']}"
        for p, w, g in zip(x["q"], x["a"], o["a"]):
            if w == []:
                if g != "BSplineOutsideOfRange":
                    return f"event {n+1}: at {p}/2, outside the range: {g}"
            elif not isinstance(g, list) or not vp.close(g[0], q(w[0]), rel=tol, abs_=tol):
                return f"event {n+1}: at {p}/2 expected {q(w[0])}, got {g}"
    return None


def num(e):
    f = lambda v: v[0] / v[1]
    return [e[0], [[p, v] for p, v in e[1]]] if e[0] == "new" else e


def run(ctx):
    b = vp.Build(ctx, "mathx")
    rng = lambda a, z, st=1: "{" + ", ".join(map(str, range(a, z, st))) + "}"

    def go(name, xs, asks, ys, ln, sim, mi, **k):
        o = {"IPMC.tla": "---- MODULE IPMC ----\nEXTENDS Interp\n" + sets(YY=ys) + f"XX == {xs}\nQQ == {asks}\n====\n"}
        return vp.tlc(ctx, "IPMC", vp.cfg_text(constants=dict(Xs="<- XX", Asks="<- QQ", Ys="<- YY", MaxLen=ln, MaxInit=mi,
                      Sim="TRUE" if sim else "FALSE"), invariants=("Emit", "Sane")), overrides=o, name=name, **k).lines
    pos = [(1, 1), (1, 4), (7, 2), (50, 1)]
    neg = [(-3, 1), (0, 1), (5, 3)]
    jobs = [("lin", lambda: go("lin-all", rng(-2, 6, 2), rng(-3, 6), neg[:2] + pos[:1], 3, False, 3, workers=4)), ("exp", lambda: go("exp-all", rng(-2, 6, 2), rng(-3, 6), pos[:2] + [(3, 1)], 3, False, 2, workers=4))]
    for sp, step, ln, n in ((12, 2, 8, ctx.pick(40, 1000)), (40, 2, 24, ctx.pick(25, 600)), (90, 6, 16, ctx.pick(20, 500))):
        for m, ys in (("lin", pos + neg + [(1000003, 1), (-1, 3)]), ("exp", pos + [(1, 1000), (98, 100), (2000, 3)])):
            jobs.append((m, lambda m=m, sp=sp, step=step, ys=ys, ln=ln, n=n: go(f"{m}-{sp}", rng(-sp, sp + 1, step), rng(-sp - 1, sp + 2), ys, ln, True, 9, simulate=n, depth=ln + 1)))

    def spl(name, kv, cv, dg, ncp, sim, adds, **k):
        o = {"BSMC.tla": f"---- MODULE BSMC ----\nEXTENDS BSpline\nKK == {kv}\nCC == {cv}\n====\n"}
        return vp.tlc(ctx, "BSMC", vp.cfg_text(constants=dict(KnotVals="<- KK", CVals="<- CC", Degrees=dg, NCps=ncp, Adds=adds,
                      Sim="TRUE" if sim else "FALSE"), invariants=("Emit", "Unity")), overrides=o, name=name, **k).lines
    jobs.append(("s", lambda: spl("spline-all", rng(0, 4), "{1}", "{0, 1, 2}", 4, False, 0, workers=4)))
    for kv, cv, dg, ncp, adds, n in ((rng(-2, 4), "{-5, -1, 0, 2, 3}", "{0, 1, 2, 3}", 4, 2, ctx.pick(90, 1500)),
                                     (rng(0, 4, 1), "{-7, 0, 1, 4}", "{2, 3, 4}", 6, 1, ctx.pick(30, 500))):
        jobs.append(("s", lambda kv=kv, cv=cv, dg=dg, ncp=ncp, adds=adds, n=n: spl(f"spline-{ncp}", kv, cv, dg, ncp, True, adds, simulate=n, depth=adds + 2)))
    res = vp.par(*[j for _, j in jobs])
    hs = [(h, m) for (m, _), r in zip(jobs, res) if m != "s" for h in r]
    ss = [h for (m, _), r in zip(jobs, res) if m == "s" for h in r]
    path = b.get()
    cases = []
    for n, (h, m) in enumerate(hs):
        axes = AXES if len(h) > 3 else (AXES[n % 7], "f64")
        for ax in axes:
            if not (m == "exp" and ax == "dec"):
                cases.append((h, m, ax, {"k": "interp", "m": m, "t": ax, "h": [e["e"] for e in h]}))
    for n, h in enumerate(ss):
        for ax in ("f64", "f32", "date", "offset") if len(h) > 1 else (("f64", "f32", "date", "offset")[n % 4],):
            hh = [x["e"] + ([x["q"]] if "q" in x else [[]]) for x in h]
            cases.append((h, "spline", ax, {"k": "spline", "t": ax, "fit": n % 2 == 0, "h": hh}))
    for (h, m, ax, c), r in zip(cases, vp.run_harness(ctx, path, [c[3] for c in cases])):
        if isinstance(r, dict):
            if not r.get("skipped"):
                ctx.violation(f"{m}/{ax}: {r}", {"case": c, "got": r})
            continue
        ctx.traces += 1
        ctx.nontriv(m + ax)
        w = judge_spline(h, r, ax) if m == "spline" else judge(h, r, m, ax)
        if w:
            ctx.violation(f"{m} over {ax}: {w}", {"case": c, "got": r})
    ctx.sample({"case": cases[-1][3]})
    return ctx.finish("All interpolators of up to three nodes in any order with one node added or fitted, all sorted knot vectors over four values "
                      "with degree up to 2, and random histories with up to 90 nodes, degree up to 4; every half step is asked, over all real-valued axes.")
