"""C08: ADPrograms.tla (formulas and chain rule of Expr.tla) against RustQuant_autodiff."""
import json
from lib import vp
from lib.expr import ev, Domain, Dag, mpmath

GRID = [0.3, 0.5, 0.75, 1.3, 1.7, 2.2, 3.1, -0.4, -0.8, -1.6, -2.5, 0.05, 5.5]


def evaluate(x, ins, which):
    """values and gradients of every intermediate result with their tolerances, or Domain.
    The tolerance follows the conditioning of the program at this point: the result of perturbing
    every intermediate result in the 11th digit."""
    v, g, big = once(x, ins, which, 0.0)
    tv, tg = [0.0] * len(v), [[0.0] * len(ins) for _ in v]
    for s in (1e-11, -1e-11):
        v2, g2, _ = once(x, ins, which, s)
        tv = [max(t, abs(p - q)) for t, p, q in zip(tv, v, v2)]
        tg = [[max(t, abs(p - q)) for t, p, q in zip(r, pr, qr)] for r, pr, qr in zip(tg, g, g2)]
    if max(tv) > 1e-6 * big or max(max(r) for r in tg) > 1e-6 * big:
        raise Domain
    return v, g, (big, tv, tg)


def agrees(got, want):
    """per instruction: (value ok, gradient ok)"""
    vals, grads, (big, tv, tg) = want
    t = lambda d: dict(rel=1e-9, abs_=1e-11 * big + 20 * d)
    return [(vp.close(v, r[0], **t(d)), all(vp.close(w, h, **t(e)) for w, h, e in zip(ws, r[1], es)))
            for v, ws, d, es, r in zip(vals, grads, tv, tg, got)]


def once(x, ins, which, eps):
    env = {"r": [None] + list(ins), "d": [None] + [[None] + [1.0 if i == n else 0.0 for n in range(len(ins))]
                                                   for i in range(len(ins))]}
    big, sg = 1.0, 1.0
    for v, g in zip(x["v"], x[which]):
        val = ev(v, env) * (1 + sg * eps)
        gr = [ev(e, env) * (1 + eps) for e in g]
        sg = -sg if len(env["r"]) % 3 else sg
        big = max([big, abs(val)] + [abs(t) for t in gr])
        if not big < 1e5:
            raise Domain
        env["r"].append(val)
        env["d"].append([None] + gr)
    return env["r"][len(ins) + 1:], [d[1:] for d in env["d"][len(ins) + 1:]], big


def deviations(p):
    out = []
    for t in p:
        if t[0] == "u" and t[1] in ("log10", "log2"):
            out.append(t[1])
        if t[0] == "sv" and t[1] in ("min", "max"):
            out.append("const-" + t[1])
    return out


def closed(e, nin):
    """the formula of a single instruction over the inputs alone"""
    if e[0] == "r":
        return ["x", f"r{e[1]}"]
    if e[0] == "d":
        return ["n", int(e[1] == e[2])]
    if e[0] in ("n", "q", "x", "pi"):
        return e
    return [e[0]] + [closed(a, nin) for a in e[1:]]


def wide_point(rng, unary):
    z = rng.random()
    if z < 0.25:
        return rng.choice([1.0, 2.0, -1.0, 4.0, 0.5, -2.0, 10.0, 3.0, 0.25, 100.0])
    if z < 0.5:
        return rng.uniform(-1, 1) if unary else round(rng.uniform(-9, 9), 3)
    k = rng.choice([3, 20, 60]) if unary else rng.choice([3, 8])
    return rng.choice([1, -1]) * 10 ** rng.uniform(-k, k if unary and rng.random() < 0.4 else 3)


def wide(ctx, path, one):
    """Single operations over the whole range of doubles, against the formula at 60 digits: each value and each
    partial to 10 significant digits (or as many as the argument's last bits determine)."""
    rng, mp, dag = ctx.rng, mpmath(80), Dag()
    payload, meta = [], []
    for x in one:
        if x["p"][0][0] in ("vv", "avv") and x["p"][0][2] == x["p"][0][3]:
            continue                            # partials that cancel: left to the pass above
        if x["p"][0][0] in ("sum", "prod"):
            continue
        roots = [dag.add(closed(x["v"][0], 2))] + [dag.add(closed(e, 2)) for e in x["g"][0]]
        rec = [dag.add(closed(e, 2)) for e in (x["h"] or x["g"])[0]]
        un = x["p"][0][0] != "vv" and x["p"][0][0] != "avv"
        for _ in range(ctx.pick(60, 600) if x["p"][0][0] == "u" else ctx.pick(12, 100)):
            ins = [wide_point(rng, un), wide_point(rng, un)]
            w = dag.run({"r1": ins[0], "r2": ins[1]}, roots, mp)
            if None in w or not all(v == 0 or 1e-290 < abs(v) < 1e290 for v in w):
                continue
            tol = [0.0] * len(w)
            for i in (0, 1):                    # what half a unit in the last place of an argument is worth
                q = list(ins)
                q[i] = mp.mpf(ins[i]) * (1 + mp.mpf(2) ** -52)
                w2 = dag.run({"r1": q[0], "r2": q[1]}, roots, mp)
                tol = [t if v2 is None else max(t, abs(v2 - v)) for t, v, v2 in zip(tol, w, w2)]
                if None in w2:
                    tol = None
                    break
            if tol is None:
                continue
            payload.append({"k": "prog", "in": ins, "p": x["p"]})
            meta.append((w, tol, rec))
    for c, (w, tol, rec), r in zip(payload, meta, vp.run_harness(ctx, path, payload)):
        if isinstance(r, dict):
            if not r.get("skipped"):
                ctx.violation(f"{c}: {r}", {"case": c, "got": r})
            continue
        ctx.traces += 1
        got = [r[0][0]] + r[0][1]
        bad = [i for i, (a, t, g) in enumerate(zip(w, tol, got))
               if not isinstance(g, (int, float)) or not abs(a - g) <= mp.mpf(1e-10) * abs(a) + 8 * t]
        if not bad:
            continue
        dv = deviations(c["p"])
        if dv and 0 not in bad:
            h = dag.run({"r1": c["in"][0], "r2": c["in"][1]}, rec, mp)
            if all(a is not None and isinstance(g, (int, float)) and abs(a - g) <= 1e-10 * abs(a) for a, g in zip(h, got[1:])):
                ctx.violation(f"{c}: {got}", {"case": c, "got": r}, key=dv[0])
                continue
        ctx.violation(f"{json.dumps(c['p'][0])} at {c['in']}: " + "; ".join(
            ("value" if i == 0 else f"partial by input {i}") + f" {got[i]} (specification {mp.nstr(w[i], 17)})" for i in bad), {"case": c, "got": r})
    ctx.notes["wide_points"] = len(payload)


def run(ctx):
    b = vp.Build(ctx, "ad")
    rng = ctx.rng
    lines = []

    def mc(nin, ln, mode, consts, ints):
        m = (f"---- MODULE ADMC ----\nEXTENDS ADPrograms\nCC == {{{', '.join('<<%d, %d>>' % c for c in consts)}}}\n"
             f"II == {{{', '.join(map(str, ints))}}}\n====\n")
        return dict(constants=dict(NIn=nin, MaxLen=ln, Consts="<- CC", Ints="<- II", Mode=f'"{mode}"')), {"ADMC.tla": m}

    full = [(2, 1), (-3, 2), (1, 3), (5, 1)]
    k, o = mc(2, 1, "all", full + [(0, 1), (1, 1), (-1, 1), (1, 2), (4, 1), (10, 1)], range(-6, 9))
    one = vp.tlc(ctx, "ADMC", vp.cfg_text(invariants=("Emit",), **k), overrides=o, workers=4, name="single").lines
    k, o = mc(2, 2, ctx.pick("chain", "all"), ctx.pick([(2, 1), (-3, 2)], [(2, 1), (-3, 2), (1, 3)]), [-2, 0, 1, 3])
    two = vp.tlc(ctx, "ADMC", vp.cfg_text(invariants=("Emit",), **k), overrides=o, workers=vp.NCPU, name="pairs").lines
    two = [x for x in two if len(x["p"]) == 2]
    sims = []
    for nin, ln, n in ((3, 6, ctx.pick(2500, 30000)), (3, 14, ctx.pick(1500, 20000)), (5, 30, ctx.pick(300, 5000))):
        k, o = mc(nin, ln, "sim", full, range(-3, 5))
        for x in vp.tlc(ctx, "ADMC", vp.cfg_text(invariants=("Emit",), **k), overrides=o, simulate=n, depth=ln + 1,
                        name=f"random{ln}").lines:
            x["nin"] = nin
            sims.append(x)
    path = b.get()
    payload, meta, notfound = [], [], 0
    for x, pts, tries in ([(x, 6, 60) for x in one] + [(x, 1, 14) for x in two] + [(x, 1, 60) for x in sims]):
        nin = x.get("nin", 2)
        found = 0
        for _ in range(tries):
            ins = [rng.choice(GRID) if rng.random() < 0.6 else round(rng.uniform(-3, 3), 6) for _ in range(nin)]
            try:
                want = evaluate(x, ins, "g")
            except (Domain, OverflowError):
                # a long program whose tail leaves the domain still has a checkable beginning
                cut = None
                for m in range(len(x["p"]) - 1, 2, -1) if nin > 2 and _ > 30 else ():
                    y = {q: x[q][:m] for q in ("p", "v", "g")} | {"h": x["h"][:m], "nin": nin}
                    try:
                        want = evaluate(y, ins, "g")
                        cut = y
                        break
                    except (Domain, OverflowError):
                        continue
                if cut is None:
                    continue
                x = cut
            payload.append({"k": "prog", "in": ins, "p": x["p"]})
            meta.append((x, ins, want))
            found += 1
            if found >= pts:
                break
        notfound += not found
    ctx.notes["programs_without_a_point_in_the_domain"] = notfound
    for c, (x, ins, want), r in zip(payload, meta, vp.run_harness(ctx, path, payload)):
        if isinstance(r, dict):
            if not r.get("skipped"):
                ctx.violation(f"{c}: {r}", {"case": c, "got": r})
            continue
        ctx.traces += 1
        ctx.nontriv(json.dumps(x["p"]))
        ok = agrees(r, want)
        if all(a and b for a, b in ok):
            continue
        i = next(i for i, o in enumerate(ok) if not (o[0] and o[1]))
        what = (f"instruction {i+1} of {json.dumps(x['p'])} at {ins}: value {r[i][0]} (specification {want[0][i]}), "
                f"gradient {r[i][1]} (specification {want[1][i]})")
        dv = deviations(x["p"][:i + 1])
        if dv and all(o[0] for o in ok):
            try:
                if all(a and b for a, b in agrees(r, evaluate(x, ins, "h"))):
                    ctx.violation(what, {"case": c, "got": r}, key=dv[0])
                    continue
            except (Domain, OverflowError):
                continue
        ctx.violation(what, {"case": c, "want": want[:2], "got": r})
    wide(ctx, path, one)
    # every form of requesting the gradient
    w = [{"k": "wrt", "in": [i for i in c["in"]], "p": c["p"]} for c in payload if len(c["in"]) == 3][:ctx.pick(300, 3000)]
    for c, r in zip(w, vp.run_harness(ctx, path, w)):
        if isinstance(r, dict) or any(str(v) != str(r[0]) for v in r[1:5]) \
                or any(str(v) != str(r[5][0]) for v in r[5][1:5]) or len(r[5][0]) != 7 or r[5][5] != 0:
            ctx.violation(f"the forms of wrt disagree on {c}: {r}", {"case": c, "got": r})
    ctx.sample({"program": sims[0]["p"], "derivative formula of its last result by input 1": sims[0]["g"][-1][0]})
    return ctx.finish("Programs over every operation and form: all single instructions, compositions of two, and random programs up to "
                      "30 instructions; each at points of its domain, values and gradients of every intermediate result. "
                      "Non-trivial: every program with a point in its domain.", exhaustive=False)
