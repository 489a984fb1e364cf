"""C37: CurveLoss.tla (on the histories of Curve.tla) against the cost function of Curve."""
from lib import vp
from lib.expr import Dag, mpmath
from checks.c10 import sets, q

TYPES = ["flat", "spot", "forward", "discount"]


def run(ctx):
    b = vp.Build(ctx, "curve")
    rng = ctx.rng
    cs = [(0, 1), (3, 1), (-2, 1), (1, 2), (5, 1), (-7, 4), (9, 2)]

    def go(name, days, n, ln):
        o = {"CVMC.tla": "---- MODULE CVMC ----\nEXTENDS Curve\n" + sets(CC=cs, SS=[(1, 1), (-2, 1)]) +
             "DD == {%s}\nQQ == {%s}\n====\n" % ((", ".join(map(str, days)),) * 2)}
        return vp.tlc(ctx, "CVMC", vp.cfg_text(constants=dict(Days="<- DD", Asks="<- QQ", Cs="<- CC", Shifts="<- SS", MaxLen=ln, Sim="TRUE", Linear="TRUE"),
                      invariants=("Emit",)), overrides=o, name=name, simulate=n, depth=ln + 1).lines
    n = ctx.pick(150, 1500)
    jobs = [lambda: go("near", [1, 2, 30, 31, 365, 366], n, 8), lambda: go("far", [90, 180, 400, 731, 1826, 3652, 10957, 20000], n, 14),
            lambda: go("past", [-1, 0, 1, 30, 800], n // 3, 6),
            lambda: vp.tlc(ctx, "CurveLoss", vp.cfg_text(constants=dict(MaxNodes=10), invariants=("EmitLoss",)), name="loss").lines]
    *hist, forms = vp.par(*jobs)
    forms = [f for f in forms if "kinds" in f]   # TLC evaluates the constant Emit of the instance too
    mp, kd = mpmath(30), Dag()
    roots = {k: kd.add(e) for k, e in forms[0]["kinds"].items()}
    loss = {}
    for f in forms:
        d = Dag()
        loss[f["n"]] = (d, d.add(f["loss"]))
    cases = []
    for h in [h for hs in hist for h in hs]:
        kind = rng.choice(TYPES + TYPES[1:] * 3)
        scale = rng.choice([1.0, 1.0, 0.01, 0.1, 8.0])
        val = lambda c: q(c) * scale
        ev = []
        for x in h:
            e = x["e"]
            ev.append([e[0], e[1], [[d, val(c)] for d, c in e[2]]] if e[0] == "make" else
                      [e[0], e[1], val(e[2])] if e[0] == "set" else [e[0], [[d, val(c)] for d, c in e[1]]] if e[0] == "sets" else
                      [e[0], val(e[1])] if e[0] == "shift" else e)
        pc = rng.choice([1.0, 1.0, 0.01])
        ps = [[round(rng.choice([0, 1, 1]) * rng.uniform(-6, 6) * pc, 5) for _ in range(4)] + [round(10 ** rng.uniform(-1.0, 1.2), 4) for _ in "12"] for _ in range(3)]
        cases.append(({"k": "curve", "m": "lin", "t": TYPES.index(kind), "q": [], "h": ev, "loss": ps}, kind, scale, h))
    ctx.sample(cases[0][0])
    for (c, kind, scale, h), r in zip(cases, vp.run_harness(ctx, b.get(), [c[0] for c in cases])):
        if isinstance(r, dict):
            if not r.get("skipped"):
                ctx.violation(f"{c}: {r}", {"case": c, "got": r})
            continue
        ctx.traces += 1
        for x, o in zip(h, r):
            N = x["n"]
            if isinstance(o, dict):
                ctx.violation(f"{x['e']} panicked: {o}", {"case": c})
                break
            for p, g in zip(c["loss"], o):
                if kind == "flat" or min(N["d"]) <= 0:
                    ctx.nontriv("refused")
                    if g != "panic":
                        ctx.violation(f"a {kind} curve with nodes {N['d']} days from today cannot be fitted; its cost is {g}", {"case": c})
                    continue
                env = dict(zip(("b0", "b1", "b2", "b3", "l1", "l2"), p))
                e2, sens = {}, 0
                for i, (day, co) in enumerate(zip(N["d"], N["c"]), 1):
                    m = kd.run(dict(env, tau=day / mp.mpf("365.25")), [roots[kind]], mp)[0]
                    e2[f"r{i}"], e2[f"m{i}"] = mp.mpf(q(co) * scale), m
                    # what the model's value can be off by, as in C33
                    sc = sum(abs(v) for v in p[:4])
                    lost = 1e-12 + 20e-15 * (1 + max(p[4:]) * 365.25 / day)
                    sens += (sc if kind != "discount" else abs(float(m)) * (1 + sc * day)) * lost + 1e-15 * abs(q(co) * scale)
                k = len(N["d"])
                d, root = loss[k]
                if any(abs(e2[f"r{i}"] - e2[f"m{i}"]) > 600 for i in range(1, k + 1)):
                    continue                      # cosh is beyond the number range
                w = float(d.run(e2, [root], mp)[0])
                ctx.nontriv(f"{kind}{k}{w:.2g}")
                if not isinstance(g, (int, float)) or not abs(g - w) <= sens / k + 1e-12 * w + 4e-16:
                    ctx.violation(f"{kind} curve with nodes {list(zip(N['d'], [q(v) * scale for v in N['c']]))} (days from today): the loss of {p} is {g}, must be {w!r}",
                                  {"case": c, "want": w})
    ctx.assumptions += ["model values within 600 of the nodes (the loss is a hyperbolic cosine)"]
    return ctx.finish("a history of a curve, a kind of rates and a parameter vector; the loss after every event")
