"""C18: KNN.tla against KNearestClassifier."""
from lib import vp


def run(ctx):
    b = vp.Build(ctx, "ml")
    grid = lambda xs, d: "{" + ", ".join("<<%s>>" % ", ".join(map(str, p)) for p in __import__("itertools").product(xs, repeat=d)) + "}"

    def go(name, pts, qs, labels, lo, hi, ps, sim, **k):
        o = {"KNMC.tla": f"---- MODULE KNMC ----\nEXTENDS KNN\nPP == {pts}\nQQ == {qs}\nLL == {{{', '.join(map(str, labels))}}}\n====\n"}
        return vp.tlc(ctx, "KNMC", vp.cfg_text(constants=dict(Points="<- PP", Queries="<- QQ", Labels="<- LL", MinN=lo, MaxN=hi, Ps=ps,
                      Sim="TRUE" if sim else "FALSE"), invariants=("Emit",) if sim else ("Emit", "Sane")), overrides=o, name=name, **k).lines
    jobs = [lambda: go("all1", "{<<0>>, <<1>>, <<3>>}", "{<<1>>, <<-2>>}", [0, 1], 1, ctx.pick(4, 5), {1, 2}, False, workers=4),
            lambda: go("all2", "{<<0, 0>>, <<2, 2>>, <<0, 3>>, <<3, 1>>}", "{<<0, 0>>, <<2, -1>>}", [0, 2], 1, 3, {1, 2, 3}, False, workers=4),
            lambda: go("three", grid(range(-5, 6), 2), grid((-6, -2, 0, 1, 4), 2), [0, 1, 2, 5], 3, 12, {1, 2, 3, 4}, True, simulate=ctx.pick(400, 8000), depth=3),
            lambda: go("wide", grid((-9, -4, -1, 0, 2, 7, 11), 3), grid((-3, 0, 5), 3), [0, 1, 2], 5, 25, {1, 2, 3, 5}, True, simulate=ctx.pick(300, 6000), depth=3),
            lambda: go("many", grid(range(0, 12), 2), grid((0, 3, 11), 2), [0, 1, 2], 60, 130, {1, 2, 3}, True, simulate=ctx.pick(40, 600), depth=3),
            lambda: go("high", grid(range(0, 5), 2), grid((0, 2, 4), 2), [0, 1, 2], 3, 12, {7, 8, 9, 10, 12}, True, simulate=ctx.pick(150, 3000), depth=3),
            # where neighbouring orders of the metric rank points differently: many small coordinates against few larger ones
            lambda: go("orders", "{" + ", ".join("<<%s>>" % ", ".join(["4"] * i + ["5"] * j + ["0"] * (8 - i - j)) for i in range(9) for j in range(3) if i + j <= 8) + "}",
                       "{<<0, 0, 0, 0, 0, 0, 0, 0>>}", [0, 1], 3, 8, {7, 8, 9, 10, 11, 12}, True, simulate=ctx.pick(300, 3000), depth=3),
            lambda: go("neg", grid(range(-20, 21), 2), grid((-7, 0, 13), 2), [-1, 1, 7], 2, 9, {1, 2, 4}, True, simulate=ctx.pick(300, 6000), depth=3)]
    lines = [w for r in vp.par(*jobs) for w in r]
    path = b.get()
    cases, exp = [], []
    for w in lines:
        ms = {1: ["manhattan", "minkowski"], 2: ["euclidean", "minkowski"]}.get(w["p"], ["minkowski"])
        sc = ctx.rng.choice([1, 1, 0.5, 0.1, 100])
        for m in ms:
            d = list(w["d"])
            if len(d) > 1 and ctx.rng.random() < 0.5:
                ctx.rng.shuffle(d)
            # labels are any distinct integers: also ones that agree in their low bytes or are far apart
            base = ctx.rng.choice([None, None, 256, 65536, 2 ** 32, 1000, -77, 2 ** 48, -2 ** 40])
            off = ctx.rng.choice([0, 0, 1, -3, 250])
            lab = (lambda l: l) if base is None else (lambda l, b=base, o=off: b * l + o)
            cases.append({"k": "knn", "nc": len(w["q"]), "m": m, "p": w["p"], "n": w["k"], "x": [[v * sc for v in p] for p, _ in d], "y": [lab(l) for _, l in d],
                          "q": [[v * sc for v in q] for q in (w["q"], w["q2"], w["q"])]})
            exp.append((w, [[lab(l) for l in a] for a in (w["a"], w["a2"], w["a"])]))
    for x, y, q, nc, nq in (([[1, 2], [3, 4]], [0], [[1, 2]], 2, 2), ([[1, 2]], [0, 1], [[1, 2]], 2, 2)):
        cases.append({"k": "knn", "nc": nc, "m": "euclidean", "p": 2, "n": 1, "x": x, "y": y, "q": q})
        exp.append(None)
    for c, w, r in zip(cases, exp, vp.run_harness(ctx, path, cases)):
        if "skipped" in r:
            continue
        ctx.traces += 1
        l = r.get("l")
        if w is None:
            if not isinstance(l, dict):
                ctx.violation(f"unequal numbers of points and labels must be refused: {c}: {r}", {"case": c, "got": r})
            continue
        w, a = w
        ctx.nontriv(c["m"] + ("unique" if len(w["a"]) == 1 else "tied") + str(w["k"]))
        if not isinstance(l, list) or len(l) != 3 or any(v not in s for v, s in zip(l, a)) or l[2] != l[0]:
            ctx.violation(f"{c['m']}({w['p']}), {w['k']} nearest of {w['d']} (labels {c['y']}) to {w['q']}, {w['q2']}: the labels must be in {a}, got {r}", {"case": c, "got": r})
    ctx.sample({"case": cases[-5]})
    return ctx.finish("Every training set of up to four points on a line and three in the plane with every query and k, random ones of up to 25 points in three dimensions and 130 in the plane; "
                      "orders of the Minkowski metric 1 to 12; the allowed labels cover every way of breaking ties.")
