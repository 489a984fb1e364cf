"""C38: histories of Handles.tla against Variable."""
import math
from lib import vp

VALUES = ['<<1, "nan", 0>>'] + [f'<<{s}, "{c}", 0>>' for s in (1, -1) for c in ("inf", "zero", "sub")] + \
         [f'<<{s}, "num", {n}>>' for s in (1, -1) for n in (1, 2, 3, 4, 5, 6, 8, 10, 400, 401, 40000002)] + [f'<<{s}, "near", {n}>>' for s in (1, -1) for n in (2, 6, 10)]
OPP = {"less": "greater", "greater": "less", "equal": "equal", "none": "none"}


def num(v):
    s, c, k = v
    return {"nan": math.nan, "inf": s * math.inf, "zero": s * 0.0, "sub": s * 5e-324, "num": s * k / 4, "near": s * math.nextafter(k / 4, 0)}[c]


def same(w, g):
    """the very number, zeros told apart"""
    g = float(g)
    return (w != w and g != g) or (w == g and math.copysign(1, w) == math.copysign(1, g))


def judge(h, r):
    for n, (e, o) in enumerate(zip(h, r)):
        bad = lambda w: f"event {n + 1} of {[x['e'] for x in h[:n + 1]]}: {w}"
        if "panic" in o:
            return bad("panicked: " + o["panic"])
        w = e["see"]
        vals = [num(v) for v in w["v"]]
        if len(o["v"]) != len(vals) or o["at"] != w["at"] or o["grew"] != (e["e"][0] in ("var", "neg")):
            return bad(f"handles must be at (graph, vertex) {w['at']}, are at {o['at']}")
        for i, v in enumerate(vals):
            if not same(v, o["v"][i]) or not same(v, o["f"][i]):
                return bad(f"handle {i + 1} must have the value {v}, has {o['v'][i]} (field {o['f'][i]})")
            try:
                ok = same(v, o["text"][i])
            except ValueError:
                ok = False
            if not ok:
                return bad(f"handle {i + 1} of value {v} prints as {o['text'][i]!r}")
            for what, x in w["is"][i].items():
                if v != v and what in ("positive", "negative", "signum"):
                    continue                      # the sign of not-a-number is not specified
                if o["is"][i][what] != x:
                    return bad(f"handle {i + 1} of value {v}: {what} is {o['is'][i][what]}")
            for j, y in enumerate(vals):
                who = f"handles {i + 1} and {j + 1} (values {v}, {y}; at {w['at'][i]}, {w['at'][j]})"
                if o["eq"][i][j] != w["eq"][i][j] or o["ne"][i][j] != w["eq"][i][j]:
                    return bad(f"{who}: equal must be {w['eq'][i][j]}")
                if o["veq"][i][j] != w["veq"][i][j]:
                    return bad(f"{who}: equality with the number must be {w['veq'][i][j]}")
                k = w["ord"][i][j]
                if k != "none" and [o["cmp"][i][j], o["pcmp"][i][j], o["lt"][i][j], o["ge"][i][j]] != [k, k, k == "less", k != "less"]:
                    return bad(f"{who}: the order must be {k}, is {o['cmp'][i][j]}, {o['pcmp'][i][j]}")
    return None


def run(ctx):
    b = vp.Build(ctx, "ad")
    mc = lambda vals: {"HandlesMC.tla": "---- MODULE HandlesMC ----\nEXTENDS Handles\nVV == {%s}\n====\n" % ", ".join(vals)}
    cfg = lambda n, sim: vp.cfg_text(constants={"MaxLen": n, "Values": "<- VV", "Sim": sim}, invariants=("Emit", "Laws", "Distinct"))
    few = ['<<1, "num", 6>>', '<<-1, "num", 2>>']
    jobs = [lambda: vp.tlc(ctx, "HandlesMC", cfg(2, "FALSE"), overrides=mc(VALUES[:7] + VALUES[7:10] + VALUES[-6:]), name="pairs").lines,
            lambda: vp.tlc(ctx, "HandlesMC", cfg(4, "FALSE"), overrides=mc(few), name="short").lines,
            lambda: vp.tlc(ctx, "HandlesMC", cfg(10, "TRUE"), overrides=mc(VALUES), simulate=ctx.pick(250, 4000), depth=11, name="random").lines]
    hs = [h for l in vp.par(*jobs) for h in l]
    op = lambda e: [e[0], e[1], (lambda v: v if math.isfinite(v) else str(v))(num(e[2]))] if e[0] == "var" else e
    cases = [{"k": "handles", "ops": [op(x["e"]) for x in h]} for h in hs]
    for c, h, r in zip(cases, hs, vp.run_harness(ctx, b.get(), cases)):
        if isinstance(r, dict):
            if "skipped" not in r:
                ctx.violation(f"handles: {r}; {c}", {"case": c})
            continue
        ctx.traces += 1
        for x in h:
            ctx.nontriv(str(x["e"][0]) + (str(x["e"][2]) if x["e"][0] == "var" else ""))
        w = judge(h, r)
        if w:
            ctx.violation(w, {"case": c, "got": r})
    ctx.sample({"case": cases[-1]})
    ctx.assumptions += ["the sign and the order of not-a-number are not specified"]
    return ctx.finish("a history of creating, copying, negating and rounding variables of two graphs; after every event all handles are compared with each other")
