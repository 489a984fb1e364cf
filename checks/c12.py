"""C12: CashBook.tla against Cashflow, Leg and SimpleQuote."""
from lib import vp
from checks.c10 import sets, q


def same(v, w):
    return vp.close(w, q(v), rel=1e-12, abs_=1e-12)


def flow(x, o):
    return same(x["a"], o[0]) and o[1] == x["d"] and o[2:] in ([], o[:2])


def judge(h, r):
    allf, quote = [], []
    for n, (ev, o) in enumerate(zip(h, r)):
        e, x = ev["e"], ev["x"]
        bad = lambda w: f"event {n+1} {num(e)}: {w}; observed {o}"
        if "ok" in x and o["ok"] != x["ok"]:
            return bad("refused" if x["ok"] else "must be refused: the dates differ")
        if e[0] in ("new", "two", "one"):
            if x["ok"] and not flow(x["f"][0], o["x"]["f"]):
                return bad(f"expected amount {q(x['f'][0]['a'])} on day {x['f'][0]['d']}")
            allf = allf + x["f"]
        elif e[0] == "npv" and not same(x["v"], o["x"]["v"]):
            return bad(f"present value {q(x['v'])}")
        elif e[0] == "legask":
            y = o["x"]
            if y["n"] != x["n"] or len(y["f"]) != x["n"] or not all(map(flow, x["f"], y["f"])):
                return bad("the leg holds exactly the flows added")
            if not same(x["npv"], y["npv"]):
                return bad(f"present value {q(x['npv'])}")
            if [y["start"], y["end"]] != (x["span"] or [None, None]):
                return bad(f"the leg spans {x['span']}")
            if y["act"] != x["act"]:
                return bad(f"active on {x['act']}")
        elif e[0] == "qset":
            if not same(x["diff"], o["x"]["diff"]):
                return bad(f"the change is {q(x['diff'])}")
        if e[0] in ("qnew", "qset", "qreset"):
            quote = x["v"]
        if o["valid"] != bool(quote) or len(o["q"]) != len(quote) or (quote and not same(quote[0], o["q"][0])):
            return bad(f"the quote is {[q(v) for v in quote]}")
        if len(o["all"]) != len(allf) or not all(map(flow, allf, o["all"])):
            return bad("an existing cash flow changed")
    return None


def num(e):
    f = lambda v: q(v) if len(v) == 2 and all(type(t) is int for t in v) else [f(t) if isinstance(t, list) else t for t in v]
    if e[0] in ("legnew", "legask"):
        return [e[0], e[1] if e[0] == "legnew" else q(e[1])] + e[2:]
    return [f(v) if isinstance(v, list) else v for v in e]


def run(ctx):
    b = vp.Build(ctx, "biz")
    inv = ("Emit", "LegSpan")

    def go(name, mode, ln, am, ds, fa, **k):
        o = {"CBMC.tla": "---- MODULE CBMC ----\nEXTENDS CashBook\n" + sets(AA=am, FF=fa) + f"DD == {{{', '.join(map(str, ds))}}}\n====\n"}
        return vp.tlc(ctx, "CBMC", vp.cfg_text(constants=dict(Amounts="<- AA", Dates="<- DD", Factors="<- FF", MaxLen=ln, Sim=f'"{mode}"'),
                      invariants=inv), overrides=o, name=name, **k).lines
    am = [(0, 1), (100, 1), (-35, 2), (1, 3), (5, 1), (-7, 3)]
    fa = [(95, 100), (0, 1), (2, 1), (-3, 2), (1, 1)]
    hs = go("quotes", "quote", ctx.pick(4, 5), am[:4], [0], fa, workers=vp.NCPU)
    hs += go("legs", "leg", ctx.pick(9, 10), am[1:2], [-400, -1, 0, 3], fa[:1], workers=vp.NCPU)
    for ln, n in ((15, ctx.pick(80, 2000)), (60, ctx.pick(50, 1200)), (200, ctx.pick(6, 150))):
        hs += go(f"random{ln}", "sim", ln, am, [-400, -1, 0, 1, 2, 366], fa, simulate=n, depth=ln + 1)
    path = b.get()
    cases = [{"k": "cash", "h": [num(e["e"]) for e in h]} for h in hs]
    for c, h, r in zip(cases, hs, vp.run_harness(ctx, path, cases)):
        if isinstance(r, dict):
            if not r.get("skipped"):
                ctx.violation(f"{c}: {r}", {"case": c, "got": r})
            continue
        ctx.traces += 1
        ctx.nontriv(("q" if h[0]["e"][0][0] == "q" else "l") + str(min(9, len(h))))
        w = judge(h, r)
        if w:
            ctx.violation(w, {"case": c, "got": r})
    ctx.sample({"history": cases[-1]["h"][:6]})
    return ctx.finish("All short histories of a quote, all legs of up to five flows over four dates in any order, and random histories "
                      "of flows, legs and quotes.")
