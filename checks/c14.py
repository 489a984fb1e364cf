"""C14: Curve.tla against Curve."""
from lib import vp
from checks.c10 import sets, q

BASE = 1.5


def judge(h, r, lin, scale):
    val = (lambda c: q(c) * scale) if lin else (lambda c: scale * BASE ** q(c))
    tol = 1e-12 * scale * 60 if lin else 0
    same = lambda w, g: (g == []) if w == [] else (g != [] and vp.close(g[0], val(w[0]), rel=1e-11, abs_=tol))
    for n, (ev, o) in enumerate(zip(h, r)):
        bad = lambda w: f"event {n+1} {ev['e']}: {w}; history {[x['e'] for x in h[:n+1]]}"
        if "panic" in o:
            return bad("panicked: " + o["panic"])
        e, x, N = ev["e"], ev["x"], ev["n"]
        if e[0] in ("get", "gets", "ins", "inss") and (len(o["x"]) != len(x) or not all(map(same, x, o["x"]))):
            return bad(f"must answer {[val(v[0]) if v else None for v in x]}, got {o['x']}")
        for v in (o["v"], o["c"]):
            if v["d"] != N["d"] or len(v["r"]) != len(N["c"]) or not all(vp.close(g, val(c), rel=1e-11, abs_=tol) for g, c in zip(v["r"], N["c"])):
                return bad(f"nodes must be {list(zip(N['d'], map(val, N['c'])))}, got {list(zip(v['d'], v['r']))}")
            if [v["len"], v["empty"], v["fd"], v["ld"]] != [len(N["d"]), False, N["d"][0], N["d"][-1]] or [v["fr"], v["lr"]] != [v["r"][:1], v["r"][-1:]]:
                return bad(f"length, first or last node: {v}")
            if v["m"] != ("lin" if lin else "exp"):
                return bad("interpolation method")
            for p, w, b, g1, g2, gb in zip(ev["a"]["q"], ev["a"]["r"], ev["a"]["b"], v["one"], v["many"], v["b"]):
                if not same(w, g1) or g2 != g1:
                    return bad(f"at day {p} the rate is {val(w[0]) if w else None}, got {g1} and {g2}")
                if b != gb:
                    return bad(f"day {p} lies between the nodes {b}, got {gb}")
    return None


def run(ctx):
    b = vp.Build(ctx, "curve")
    rng = lambda xs: "{" + ", ".join(map(str, xs)) + "}"

    def go(name, days, asks, cs, sh, ln, lin, sim, **k):
        o = {"CVMC.tla": "---- MODULE CVMC ----\nEXTENDS Curve\n" + sets(CC=cs, SS=sh) + f"DD == {rng(days)}\nQQ == {rng(asks)}\n====\n"}
        return vp.tlc(ctx, "CVMC", vp.cfg_text(constants=dict(Days="<- DD", Asks="<- QQ", Cs="<- CC", Shifts="<- SS", MaxLen=ln,
                      Sim="TRUE" if sim else "FALSE", Linear="TRUE" if lin else "FALSE"), invariants=("Emit", "BracketsAdjacent"),
                      properties=("InsertNeutral",)), overrides=o, name=name, **k).lines
    cs = [(0, 1), (3, 1), (-2, 1), (1, 2), (5, 1), (-7, 4), (9, 2)]
    sh = [(1, 1), (-2, 1), (1, 2)]
    jobs = []
    for lin in (True, False):
        m = "lin" if lin else "exp"
        jobs.append((lin, lambda lin=lin, m=m: go(f"{m}-all", [0, 2, 5], range(-1, 7), cs[:2], sh[:1], ctx.pick(3, 4), lin, False, workers=4)))
        for j, (days, asks, ln, n) in enumerate((([0, 1, 3, 4, 8], range(-2, 11), 8, ctx.pick(60, 1500)),
                                                 ([-40, -10, 0, 20, 30, 60], range(-60, 81, 10), 14, ctx.pick(50, 1000)),
                                                 ([-400, 0, 31, 366, 800], [-420, -400, -200, 0, 1, 31, 60, 366, 700, 800, 801], 9, ctx.pick(50, 1000)),
                                                 (list(range(0, 420, 3)), list(range(-5, 430, 17)), 6, ctx.pick(12, 200)),
                                                 (list(range(-6000, 12000, 97)), list(range(-7000, 13000, 700)), 10, ctx.pick(6, 100)))):
            jobs.append((lin, lambda lin=lin, m=m, j=j, days=days, asks=asks, ln=ln, n=n:
                         go(f"{m}-{j}", days, asks, cs, sh, ln, lin, True, simulate=n, depth=ln + 1)))
    res = vp.par(*[j for _, j in jobs])
    path = b.get()
    cases, hs = [], []
    for (lin, _), lines in zip(jobs, res):
        for h in lines:
            scale = ctx.rng.choice([1.0, 0.01, 0.037, 0.01, 1e-7, 1e-12, 1e6])
            val = (lambda c: q(c) * scale) if lin else (lambda c: scale * BASE ** q(c))
            ev = []
            for x in h:
                e = x["e"]
                ev.append([e[0], e[1], [[d, val(c)] for d, c in e[2]]] if e[0] == "make" else
                          [e[0], e[1], val(e[2])] if e[0] == "set" else [e[0], [[d, val(c)] for d, c in e[1]]] if e[0] == "sets" else
                          [e[0], val(e[1])] if e[0] == "shift" else e)
            hs.append((h, lin, scale))
            cases.append({"k": "curve", "m": "lin" if lin else "exp", "t": ctx.rng.randrange(4), "q": h[0]["a"]["q"], "h": ev})
    for c, (h, lin, sc), r in zip(cases, hs, vp.run_harness(ctx, path, cases)):
        if isinstance(r, dict):
            if not r.get("skipped"):
                ctx.violation(f"{c}: {r}", {"case": c, "got": r})
            continue
        ctx.traces += 1
        for e in h:
            ctx.nontriv(c["m"] + e["e"][0])
        w = judge(h, r, lin, sc)
        if w:
            ctx.violation(w, {"case": c, "got": r})
    ctx.sample({"case": cases[-1]})
    return ctx.finish("All short histories of two-node curves over three dates, and random histories of setting, inserting, shifting and asking; "
                      "after every event every date of a grid is asked, on the curve and on a copy of it.")
