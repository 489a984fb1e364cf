"""C10: FX.tla against Exchange, ExchangeRate and Money."""
from lib import vp

NCURRENCIES = 158


def sets(**k):
    return "".join(f"{n} == {{{', '.join('<<%d, %d>>' % v for v in vs)}}}\n" for n, vs in k.items())


def q(v):
    return v[0] / v[1]


def ok(v, w):
    return vp.close(w, v, rel=1e-12, abs_=1e-300) if v else w == 0


def bad(e, x, o):
    t = e[0]
    if "panic" in o:
        return "panicked"
    if t == "add":
        return None if o["n"] == x["n"] else f"{x['n']} ordered pairs are quoted"
    if t == "get":
        if x["r"] == []:
            return None if o["r"] is None else "this ordered pair was never quoted"
        return None if o["r"] is not None and ok(q(x["r"]), o["r"]) and o["f"] and o["t"] else f"the latest rate is {q(x['r'])}"
    if t in ("convert", "direct", "arith"):
        if o["ok"] != x["ok"]:
            return "must be refused" if not x["ok"] else "refused"
        if not x["ok"]:
            return None
        good = o["cur"] == x["cur"] == o["field"] and ok(q(x["amt"]), o["amt"]) and o["amt"] == o["famt"]
        return None if good else f"expected {q(x['amt'])} in currency {x['cur']}"
    r = x["ord"]
    want = dict(eq=x["eq"], ne=not x["eq"], lt=r == "lt", gt=r == "gt", le=r in ("lt", "eq"), ge=r in ("gt", "eq"), ord=r)
    return None if o == want else f"expected {want}"


def num(e):
    return [q(v) if isinstance(v, list) else v for v in e]


def scaled(h, al, rh):
    """the same history with every amount taken al times and every rate rh times"""
    def m(v, k):
        return v if k == 1.0 or not isinstance(v, list) or len(v) != 2 else [v[0] * k, v[1]]
    out = []
    for ev in h:
        e, x = list(ev["e"]), dict(ev["x"])
        if e[0] == "add":
            e[3] = m(e[3], rh)
        elif e[0] == "get":
            x["r"] = m(x["r"], rh)
        elif e[0] == "convert":
            e[2] = m(e[2], al)
        elif e[0] == "direct":
            e[3], e[5] = m(e[3], rh), m(e[5], al)
        elif e[0] == "arith":
            e[3], e[5] = m(e[3], al), m(e[5], al)
        else:
            e[2], e[4] = m(e[2], al), m(e[4], al)
        if "amt" in x:
            x["amt"] = m(x["amt"], al * rh if e[0] in ("convert", "direct") else {"mul": al * al, "div": 1.0}.get(e[1], al))
        out.append({"e": e, "x": x})
    return out


def run(ctx):
    b = vp.Build(ctx, "biz")
    rates = [(1, 2), (85, 100), (3, 1), (0, 1), (118, 100), (7, 3)]
    amts = [(0, 1), (100, 1), (-35, 2), (1, 3), (100, 3), (7, 1)]
    hs = []

    def go(name, ncur, ln, sim, rs, am, spec="Spec", **k):
        o = {"FXMC.tla": "---- MODULE FXMC ----\nEXTENDS FX\n" + sets(RR=rs, AA=am) + "====\n"}
        return vp.tlc(ctx, "FXMC", vp.cfg_text(spec=spec, constants=dict(NCur=ncur, Rates="<- RR", Amounts="<- AA", MaxLen=ln,
                      Sim="TRUE" if sim else "FALSE"), invariants=("Emit", "LatestWins")), overrides=o, name=name, **k).lines
    hs += [(h, 2) for h in go("exhaustive", 2, ctx.pick(4, 5), False, rates[:2], amts[1:2], workers=vp.NCPU)]
    hs += [(h, 3) for h in go("stateless", 3, 1, False, rates, amts, spec="StatelessSpec", workers=4)]
    for ncur, ln, n in ((3, 12, ctx.pick(60, 2000)), (5, 40, ctx.pick(60, 1500)), (12, 150, ctx.pick(8, 200))):
        hs += [(h, ncur) for h in go(f"random{ln}", ncur, ln, True, rates + [(13, 10), (1, 128)], amts, simulate=n, depth=ln + 1)]
    path = b.get()
    cases, hs2 = [], []
    for h, n in hs:
        # any currencies may play the abstract ones
        cur = ctx.rng.sample(range(NCURRENCIES), n) if ctx.rng.random() < 0.7 else ctx.rng.sample(range(10), min(n, 10)) + list(range(10, n))
        if n <= 4 and ctx.rng.random() < 0.2:
            cur = [200 + k for k in ctx.rng.sample(range(4), n)]
        h = scaled(h, *([1.0, 1.0] if ctx.rng.random() < 0.5 else ctx.rng.choice([(2.0 ** 40, 1.0), (1e-9, 1.0), (1.0, 1e-12), (1.0, 1e15), (1e6, 2.0 ** -30), (1e12, 1e9)])))
        hs2.append((h, n))
        cases.append({"k": "fx", "cur": cur, "h": [num(ev["e"]) for ev in h]})
    hs = hs2
    for c, (h, _), r in zip(cases, hs, vp.run_harness(ctx, path, cases)):
        if isinstance(r, dict):
            if not r.get("skipped"):
                ctx.violation(f"{c}: {r}", {"case": c, "got": r})
            continue
        ctx.traces += 1
        ctx.nontriv("h" if any(e["e"][0] in ("convert", "get") and (e["x"].get("ok") or e["x"].get("r")) for e in h) else "s" + h[0]["e"][0])
        for n, (ev, o) in enumerate(zip(h, r)):
            w = bad(ev["e"], ev["x"], o)
            if w:
                ctx.violation(f"event {n+1} {num(ev['e'])}: {w}; observed {o}", {"case": c, "got": r})
                break
    ctx.sample({"history": cases[-1]["h"][:6]})
    return ctx.finish("All short histories over two currencies, every stateless conversion, arithmetic and comparison case, and random "
                      "histories over up to 12 of the 158 currencies or of currencies of a user's own; amounts and rates at several scales. Non-triviality: histories in which a quote is found.")
