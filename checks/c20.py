"""C20: Payoffs.tla against every option family's payoff."""
import itertools
from lib import vp
from lib.expr import ev, Domain


def q(a):
    return a[0] / a[1]


SYM = [1, 2, 3, 5, 8, 21, 252, 750]
CONTINUOUS = {"vanilla", "asian", "lookback", "powercontract", "power", "powered", "capped", "logmoneyness", "logunderlying", "logoption"}


def formulas(ctx, lens):
    S = lambda xs: "{" + ", ".join(xs) + "}"
    o = {"MCPay.tla": "---- MODULE MCPay ----\nEXTENDS Payoffs\n"
         f"V == {{1, 2, 3}}\nL == {S(map(str, lens))}\nSL == {S(map(str, SYM))}\nK == {{<<1, 1>>, <<2, 1>>, <<5, 2>>}}\n====\n"}
    return vp.tlc(ctx, "MCPay", vp.cfg_text(constants=dict(Vals="<- V", MaxLen=ctx.pick(4, 6), Lens="<- L", SymLens="<- SL", Strikes="<- K"),
                  invariants=("InOut", "NonNegative", "LastOnly", "Parity", "Dominance", "Emit", "EmitSym")), overrides=o, name="payoffs").lines


def run(ctx):
    b = vp.Build(ctx, "opt")
    lens = ctx.pick([1, 2, 3, 4, 5, 9, 60, 130], [1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 13, 17, 33, 60, 120, 400])
    every = formulas(ctx, lens)
    defs, syms = [d for d in every if "c" in d], [d for d in every if "sym" in d]
    path = b.get()
    rng = ctx.rng
    values = [0.5, 1, 1.5, 2, 2.5, 3]

    def paths(n, indep):
        out = [list(p) for p in itertools.product([1, 2, 3], repeat=n)] if n <= 4 else []
        if indep:
            out = [[v / 4] for v in range(1, 17)] + [[rng.uniform(0.01, 50)] for _ in range(40)]
        for _ in range(ctx.pick(12, 60)):
            out.append([rng.choice(values) for _ in range(n)])
            out.append([round(rng.uniform(0.2, 4), 3) for _ in range(n)])
            x = rng.uniform(1, 3)
            walk = []
            for _ in range(n):
                walk.append(x)
                x *= rng.uniform(0.8, 1.25)
            out.append(walk)
            x = rng.uniform(1, 3)           # monotone: every extreme at one end
            g = rng.choice([0.97, 1.03])
            out.append([x * g ** i for i in range(n)])
        return out

    def signed(n):                          # prices (spreads, rates, electricity) that go below zero
        return [[rng.choice([-3, -1.5, -0.5, 0.0, 0.5, 1, 2]) for _ in range(n)] for _ in range(ctx.pick(10, 40))] + [[-abs(rng.uniform(0.1, 9)) for _ in range(n)] for _ in range(2)]

    cases, meta = [], []
    for d in defs:
        c, indep = d["c"], d["n"] == 1 and d["c"]["f"] not in ("asian", "barrier", "lookback")
        ps = paths(d["n"], indep)
        if c["f"] in ("vanilla", "binary", "barrier", "lookback") or c["f"] == "asian" and c["avg"] == "arith":
            ps += signed(d["n"])
        if indep:                            # the observations before the last do not exist for the payoff
            for ex in ("european", "american", "bermudan"):
                cases.append({"k": "pay", "c": {**c, "ex": ex, "set": rng.choice(["cash", "physical", None])}, "paths": ps})
                meta.append((d, 1.0, ps))
            continue
        cases.append({"k": "pay", "c": c, "paths": ps})
        meta.append((d, 1.0, ps))
        # the same contract in another currency unit: strike, barrier and rebate scale with the path
        scales = ctx.pick([rng.choice([100.0, 1200.0, 1e-3])], [100.0, 1200.0, 1e-3])
        if c["f"] == "asian" and d["n"] >= 60:       # a product of the observations would leave the doubles
            scales = scales + [1e6, 1e-6]
        for sc in scales:
            up = lambda a: None if a == [0, 0] else q(a) * sc
            cs = {**c, "ex": rng.choice(["european", "american", "bermudan"]), "set": rng.choice(["cash", "physical", None])}
            for f in ("k", "b", "reb"):
                if f in cs:
                    cs[f] = up(cs[f])
            ps2 = rng.sample(ps, min(len(ps), 40))
            cases.append({"k": "pay", "c": cs, "paths": [[x * sc for x in p] for p in ps2]})
            meta.append((d, sc, ps2))
    for case, (d, sc, ps), r in zip(cases, meta, vp.run_harness(ctx, path, cases)):
        if "dead" in r or "skipped" in r:
            if "dead" in r:
                ctx.violation(f"{case['c']}: {r}", {"case": case})
            continue
        for p, g in zip(ps, r["v"]):
            env = {f"p{i+1}": x for i, x in enumerate(p)}
            try:
                want = ev(d["pay"], env)
            except Domain:
                continue
            want = want * sc
            ctx.traces += 1
            scale = max(abs(want), max(map(abs, p)) * sc, 1e-300)
            ctx.nontriv((d["c"]["f"], d["c"].get("kind", ""), d["c"].get("type", ""), want > 0))
            if not isinstance(g, (int, float)) or abs(g - want) > 1e-10 * scale:
                ctx.violation(f"{case['c']} on the path {[x*sc for x in p][:12]}{'...' if len(p) > 12 else ''} must pay {want}, pays {g}",
                              {"contract": case["c"], "path": [x * sc for x in p]}, key=f"{d['c']['f']}")
                break
    symbolic(ctx, path, syms)
    ctx.sample({"formula": defs[0]})
    return ctx.finish("Every contract of the bounded set on every path over {1,2,3} of up to four observations, and on random, walk and monotone paths of longer lengths; "
                      "scaled by currency units; every exercise and settlement flag.")


def terms(rng, d, paths):
    """One setting of the open terms, on one of the paths' scale; the path it belongs to."""
    c = d["sym"]
    f = c["f"]
    n = d["n"]
    sc = 10 ** rng.choice([0, 0, 0, rng.uniform(-3, 4), rng.uniform(-8, 8)])
    positive = f not in ("vanilla", "binary", "barrier", "lookback") and not (f == "asian" and c["avg"] == "arith")
    style = rng.random()
    if style < 0.25:
        p = [rng.choice([1, 2, 3, 5]) * sc for _ in range(n)]
    elif style < 0.65:
        x, p, vol = rng.uniform(0.3, 3) * sc, [], rng.choice([0.002, 0.02, 0.2])
        for _ in range(n):
            p.append(x)
            x *= 2.718281828 ** rng.gauss(0, vol)
    else:
        p = [rng.lognormvariate(0, 1) * sc for _ in range(n)]
    if not positive and rng.random() < 0.4:
        shift = rng.choice([min(p), max(p), sum(p) / n, sc, 2 * sc])
        p = [x - shift for x in p]
    if f == "asian" and c["avg"] == "geo" and rng.random() < 0.12:
        p[rng.randrange(n)] = 0.0
    near = lambda: rng.choice([rng.choice(p), rng.choice(p), p[-1], max(p), min(p), rng.choice(p) * rng.uniform(0.9, 1.1), sum(p) / n,
                               rng.uniform(0, 4) * sc, rng.uniform(0.9, 1.1) * sc, p[-1] * (1 + rng.uniform(-1, 1) * 1e-9)])
    k = near()
    t = {}
    if f in ("vanilla", "binary", "barrier", "lookback", "asian"):
        k = rng.choice([k, k, k, k, 0.0, -abs(k), 1e3 * sc, -sc])
    elif f in ("power", "capped"):
        t["m"] = rng.choice([1.0, 2.0, 3.0, 0.5, 4.0, 5.0, -1.0, -2.0, 0.0, rng.uniform(-8, 8), rng.uniform(0, 3), float(rng.randint(-7, 9)),
                             rng.randint(-5, 6) + rng.choice([-1, 1]) * 10 ** rng.uniform(-12, -1)])
        try:
            s = p[-1] ** t["m"]
        except (OverflowError, ZeroDivisionError):
            s = 1.0
        k = rng.choice([s, s * rng.uniform(0.5, 1.5), s * rng.uniform(0.5, 1.5), s * rng.uniform(0, 10), 0.0, -s])
        t["cap"] = rng.choice([abs(s - k) * rng.uniform(0.5, 1.5), abs(s - k), s * rng.uniform(0, 2), 0.0, k, -s, 1e9 * s])
    elif f in ("powercontract", "powered"):
        t["m"] = rng.choice([1.0, 2.0, 3.0, 0.5, 1.5, 4.0, 5.0, rng.uniform(0.01, 9), float(rng.randint(1, 9)), rng.randint(1, 6) + 10 ** rng.uniform(-12, -1)])
        if f == "powercontract" and rng.random() < 0.5:
            t["m"] = -t["m"] if rng.random() < 0.8 else 0.0
        k = abs(k) or sc
    elif f != "powered":
        k = abs(k) or sc
        if f == "supershare":
            t["k2"] = rng.choice([k, k * rng.uniform(1, 2), max(k, p[-1]), k + sc])
    t["k"] = k
    if f == "barrier":
        t["b"] = rng.choice([near(), near(), near(), max(p), min(p), p[0], p[-1], p[n // 2], k, 0.0, -abs(near())])
        t["reb"] = rng.choice([0.0, rng.uniform(0, 3) * sc, 1e-3 * sc, -rng.uniform(0, 1) * sc, k, 50 * sc])
    return {a: float(t[a]) for a in t if a == "k" and c.get("k") != [0, 0] or c.get(a) == [a]}, [float(x) for x in p]


def symbolic(ctx, path, syms):
    """every family with open terms: strikes, powers, caps, barriers and rebates anywhere, zero and negative included"""
    rng = ctx.rng
    cases, meta = [], []
    for d in syms:
        for _ in range(ctx.pick(250 if d["n"] <= 21 else 25, 1500 if d["n"] <= 21 else 120)):
            t, p = terms(rng, d, None)
            con = {**d["sym"], **t, "ex": rng.choice(["european", "american", "bermudan"]), "set": rng.choice(["cash", "physical", None])}
            if con.get("k") == [0, 0]:
                con["k"] = None
            cases.append({"k": "pay", "c": con, "paths": [p]})
            meta.append((d, t, p))
    for case, (d, t, p), r in zip(cases, meta, vp.run_harness(ctx, path, cases)):
        if "skipped" in r:
            continue
        if "dead" in r:
            ctx.violation(f"{case['c']}: {r}", {"case": case})
            continue
        f, n, g = d["sym"]["f"], d["n"], r["v"][0]
        names = [f"p{i+1}" for i in range(n)]
        env = dict(zip(names, p)) | t
        try:
            want = ev(d["pay"], env)
            if want != want or abs(want) > 1e300:
                continue
            if f in CONTINUOUS:
                # what the terms themselves are known to: every one of them off by a rounding or so
                alt = []
                for sp, sl, sk in ((1, 1, 1), (-1, 1, 1), (1, -1, -1), (1, -1, 1), (-1, 1, -1)):
                    h = 1e-12
                    e2 = {a: v * (1 + h * sp) for a, v in zip(names[:-1], p)}
                    e2[names[-1]] = p[-1] * (1 + h * sl)
                    e2 |= {a: v * (1 + h * (sk if a == "k" else sp * sl)) for a, v in t.items()}
                    alt.append(ev(d["pay"], e2))
                tol = 4 * max(abs(a - want) for a in alt) + 1e-14 * abs(want)
                if f == "asian":                     # the average itself is rounded
                    tol += (1e-14 + 2e-16 * n) * max(map(abs, p))
                if not all(a == 0 for a in alt):
                    tol += 1e-300
            else:                                    # compared with the observations as they stand
                tol = 1e-13 * abs(want) + (1e-15 * (abs(p[-1]) + abs(t["k"])) if f == "barrier" and want else 0)
        except (Domain, OverflowError):
            continue
        ctx.traces += 1
        ctx.nontriv(("open", f, d["sym"].get("kind", ""), d["sym"].get("type", ""), want > 0))
        if not isinstance(g, (int, float)) or not abs(g - want) <= tol:
            ctx.violation(f"{case['c']} on the path {p[:12]}{'...' if n > 12 else ''} must pay {want}, pays {g}",
                          {"contract": case["c"], "path": p}, key=f)
