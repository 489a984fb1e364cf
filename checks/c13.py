"""C13: Portfolio.tla against RustQuant_portfolios."""
from lib import vp
from checks.c10 import sets, q


def num(e, K=1, U=1.0):
    """An event with quantities in units of K and prices in units of U."""
    f = lambda v: [v[0] * K, q(v[1]) * U, q(v[2]) * U]
    if e[0] == "make":
        return ["make", {k: f(v) for k, v in e[1].items()} if isinstance(e[1], dict) else {}]
    if e[0] == "insert":
        return e[:2] + [f(e[2])]
    return e[:2] + [q(e[2]) * U] if e[0] == "price" else e[:2] + [e[2] * K] if e[0] == "qty" else e


def judge(h, r, K, U):
    near = lambda v, o, scale: vp.close(o, q(v) * K * U, rel=1e-12, abs_=1e-12 * scale)
    for n, (ev, o) in enumerate(zip(h, r)):
        x = ev["x"]
        bad = lambda w: f"event {n+1} {num(ev['e'], K, U)}: {w}; observed {o}"
        if o["ok"] != ev["ok"]:
            return bad("an unknown name must be refused" if not ev["ok"] else "refused")
        P = x["pos"] if isinstance(x["pos"], dict) else {}
        if set(P) != set(o["pos"]):
            return bad(f"the positions are {sorted(P)}")
        for k, (qt, pp, cp) in P.items():
            y = o["pos"][k]
            if y[0] != qt * K or y[1] != q(pp) * U or y[2] != q(cp) * U:
                return bad(f"position {k} is {[qt * K, q(pp) * U, q(cp) * U]}")
            if not vp.close(y[3], qt * q(cp) * K * U, rel=1e-12) or not vp.close(y[4], qt * (q(cp) - q(pp)) * K * U, rel=1e-12, abs_=1e-12 * K * U * qt * (abs(q(cp)) + abs(q(pp)))):
                return bad(f"value and profit of position {k}")
        sc = K * U * (1e-9 + sum(abs(qt * q(cp)) + abs(qt * q(pp)) for qt, pp, cp in P.values()))
        for k, w in (("v", "value"), ("c", "cost"), ("p", "profit")):
            if not near(x[k], o[k], sc):
                return bad(f"{w} is {q(x[k]) * K * U}")
        if set(o["w"]) != set(P):
            return bad("one weight per position")
        if x["nz"]:
            W = {k: q(x["w"][k]) / q(x["v"]) for k in P}
            amp = 1 + sc / abs(q(x["v"]) * K * U)
            if any(not vp.close(o["w"][k], W[k], rel=1e-6 * amp, abs_=1e-7 * amp) for k in P):
                return bad(f"weights are {W}")
            if P and not vp.close(sum(o["w"].values()), 1.0, abs_=1e-6 * amp * (1 + len(P))):
                return bad("weights add up to one")
    return None


def run(ctx):
    b = vp.Build(ctx, "biz")

    def go(name, sim, ln, names, qs, ps, mi, **k):
        o = {"PFMC.tla": "---- MODULE PFMC ----\nEXTENDS Portfolio\n" + sets(PP=ps) + f"QQ == {{{', '.join(map(str, qs))}}}\n"
             + "NN == {" + ", ".join(f'"{n}"' for n in names) + "}\n====\n"}
        return vp.tlc(ctx, "PFMC", vp.cfg_text(constants=dict(Names="<- NN", Qties="<- QQ", Prices="<- PP", MaxLen=ln, MaxInit=mi,
                      Sim="TRUE" if sim else "FALSE"), invariants=("Emit", "Balanced"), properties=() if sim else ("OnlyNamed",)),
                      overrides=o, name=name, **k).lines
    hs = go("exhaustive", False, ctx.pick(3, 4), ["A", "AAPL"], [0, 1], [(5, 2), (-2, 1)], 2, workers=vp.NCPU)
    names = ["A", "B", "AAPL", "", "a", "MSFT", "EUR/USD", "x y", "Ö"]
    ps = [(0, 1), (5, 2), (100, 1), (-2, 1), (1, 3), (123, 4), (-11, 6), (999, 1)]
    for ln, n in ((6, ctx.pick(300, 6000)), (30, ctx.pick(60, 1500)), (120, ctx.pick(8, 150))):
        hs += go(f"random{ln}", True, ln, names, [0, 1, 2, 10, 37, 1000], ps, 6, simulate=n, depth=ln + 1)
    path = b.get()
    units = [ctx.rng.choice([(1, 1.0), (1, 1.0), (3, 0.01), (2 ** 32, 1.0), (10 ** 7 + 1, 1e-4), (2 ** 40 + 1, 1e-9), (1, 1e12), (7, 2.0 ** -60)]) for _ in hs]
    cases = [{"k": "pf", "h": [num(e["e"], *u) for e in h]} for h, u in zip(hs, units)]
    for c, h, u, r in zip(cases, hs, units, vp.run_harness(ctx, path, cases)):
        if isinstance(r, dict):
            if not r.get("skipped"):
                ctx.violation(f"{c}: {r}", {"case": c, "got": r})
            continue
        ctx.traces += 1
        ctx.nontriv(str(len(h[-1]["x"]["pos"])) + ("" if all(e["ok"] for e in h) else "refused"))
        w = judge(h, r, *u)
        if w:
            ctx.violation(w, {"case": c, "got": r})
    ctx.sample({"history": cases[-1]["h"][:6]})
    return ctx.finish("All short update histories of portfolios of up to two positions, random histories with inserts, removals and "
                      "unknown names over up to nine names.")
