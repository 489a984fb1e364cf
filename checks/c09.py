"""C09: histories of Tape.tla against Graph / Variable / Accumulate."""
from lib import vp

U = ["abs", "cos", "exp", "ln", "neg", "recip", "sin", "sqrt", "tanh", "erf", "log10", "cbrt", "asin", "exp_m1"]
B = ["add", "sub", "mul", "div", "powf", "powi", "log", "min", "max"]
A = ["add", "sub", "mul", "div"]
S = ["add", "sub", "mul", "div", "powf", "powi", "log", "min", "max"]


def mc(ln, sim, uops, bops, aops, sops, consts, folds, vals):
    q = lambda xs: "{" + ", ".join(f'"{x}"' for x in xs) + "}"
    c = lambda xs: "{" + ", ".join("<<%d, %d>>" % x for x in xs) + "}"
    m = (f"---- MODULE TapeMC ----\nEXTENDS Tape\nUU == {q(uops)}\nBB == {q(bops)}\nAA == {q(aops)}\nSS == {q(sops)}\n"
         f"CC == {c(consts)}\nFF == {q(folds)}\nVV == {c(vals)}\n====\n")
    return dict(constants=dict(MaxLen=ln, Sim="TRUE" if sim else "FALSE", UOps="<- UU", BOps="<- BB", AOps="<- AA", SOps="<- SS",
                               Consts="<- CC", Folds="<- FF", Vals="<- VV")), {"TapeMC.tla": m}


def q(v):
    return v[0] / v[1]


def event(e):
    if e[0] == "var":
        return ["var", e[1], q(e[2])]
    if e[0] == "vars":
        return ["vars", e[1], [q(v) for v in e[2]]]
    if e[0] == "op":
        t = list(e[1])
        if t[0] in ("vs", "avs"):
            t[3] = q(t[3])
        if t[0] == "sv":
            t[2] = q(t[2])
        return ["op", t]
    return e


def judge(h, r):
    """first requirement of the specification the observed tape does not meet, or None"""
    ln = [0, 0]
    zeroed = set()     # graphs whose partials were reset: 0 times an undefined adjoint is undefined
    for n, (ev, o) in enumerate(zip(h, r)):
        e, x = ev["e"], ev["x"]
        g = x["g"] - 1
        bad = lambda w: f"event {n + 1} {event(e)}: {w}; observed {o}"
        if o["ok"] != x["ok"]:
            return bad("combining variables of different graphs must be refused" if not x["ok"] else "refused")
        if o["len"] != o["lenv"]:
            return bad("len() is not the number of vertices")
        if not o["prefix"]:
            return bad("existing vertices changed")
        if not o["topo"]:
            return bad("a vertex has a parent that does not precede it")
        if not o["kept"]:
            return bad("a variable changed its value or index")
        if len(o["idx"]) != x["new"] or any(i != x["g"] for i in o["ing"]):
            return bad(f"expected {x['new']} new variables in graph {x['g']}")
        now = o["len"]
        grow = x["grow"]
        others = [k for k in (0, 1) if k != g]
        if grow != "any" and any(now[k] != ln[k] for k in others):
            return bad("the other graph changed its length")
        if grow == "exact" and (now[g] != ln[g] + x["new"] or o["idx"] != list(range(ln[g], now[g]))):
            return bad("each new variable appends one vertex")
        if grow == "some" and (now[g] <= ln[g] or o["idx"] != [now[g] - 1]):
            return bad("the result of an operation is the newest vertex")
        if grow == "none" and now[g] != ln[g]:
            return bad("the tape changed its length")
        if grow == "clear" and (now[g] != 0 or not o["x"]["empty"]):
            return bad("clear leaves vertices")
        if x["leaf"] and (not o["leaves"] or o["val"] != [q(v) for v in (e[2] if e[0] == "vars" else [e[2]])]):
            return bad("a new variable has a value or partials of its own")
        if e[0] == "acc":
            a = o["x"]
            if a["n"] != now[g] or a["self"] != 1.0 or not a["later"] or not a["same"]:
                return bad("the gradient has one entry per vertex, one at the output, zero after it, and is repeatable")
            wrong = (set(a["nz"]) - (set(a["nan"]) if g in zeroed else set())) & set(x["zero"])
            if wrong:
                return bad(f"non-zero adjoint of variables {sorted(wrong)} the output does not depend on")
        if e[0] == "zero" and not (o["x"]["allzero"] and o["x"]["shape"]):
            return bad("zero resets every partial and keeps the shape")
        if e[0] == "zero":
            zeroed.add(g)
        if e[0] == "join" and not (o["x"]["head"] and o["x"]["tail"] and o["x"]["len"] == now[e[1] - 1] + now[e[2] - 1]):
            return bad("join is the first tape followed by the second with shifted parents")
        ln = now
    return None


def run(ctx):
    b = vp.Build(ctx, "ad")
    C = [(2, 1), (-3, 2), (1, 3), (0, 1), (5, 1)]
    V = [(1, 2), (2, 1), (-3, 2), (7, 10), (0, 1), (5, 1)]
    inv = ("Emit", "DepsWithinGraph", "LiveClosed")
    hs = []
    k, o = mc(ctx.pick(4, 5), False, ["neg"], ["mul"], [], [], [(2, 1)], [], [(3, 2)])
    hs += vp.tlc(ctx, "TapeMC", vp.cfg_text(invariants=inv, **k), overrides=o, workers=vp.NCPU, name="all_short").lines
    # every pair and order of operations of every form on variables of both graphs
    k, o = mc(3, False, U, B, A, S, [(2, 1)], ["sum", "prod"], [(3, 2)])
    m = o["TapeMC.tla"].replace("====\n", """
Start == hist = <<>> /\\ vs = <<>>
Two == \\/ Len(hist) = 0 /\\ Vars(1, <<<<3, 2>>, <<1, 2>>>>)
       \\/ Len(hist) = 1 /\\ Var(2, <<7, 4>>)
       \\/ Len(hist) = 2 /\\ \\E t \\in Instr : Op(t)
       \\/ Len(hist) = 3 /\\ Acc(Len(vs))
DoneForms == Len(hist) < 4 \\/ PrintT(ToJson(hist))
====
""")
    o["TapeMC.tla"] = m
    hs += vp.tlc(ctx, "TapeMC", vp.cfg_text(init="Start", next_="Two", invariants=("DoneForms", "DepsWithinGraph", "LiveClosed"), **k),
                 overrides=o, workers=4, name="forms").lines
    for ln, n in ((12, ctx.pick(300, 5000)), (40, ctx.pick(120, 2500)), (120, ctx.pick(15, 400))):
        k, o = mc(ln, True, U, B, A, S, C, ["sum", "prod"], V)
        hs += vp.tlc(ctx, "TapeMC", vp.cfg_text(invariants=inv, **k), overrides=o, simulate=n, depth=ln + 1, name=f"random{ln}").lines
    path = b.get()
    cases = [{"k": "tape", "cap": 4 * (i % 3), "h": [event(e["e"]) for e in h]} for i, h in enumerate(hs)]
    for c, h, r in zip(cases, hs, vp.run_harness(ctx, path, cases)):
        if isinstance(r, dict):
            if not r.get("skipped"):
                ctx.violation(f"{c['h']}: {r}", {"case": c, "got": r})
            continue
        ctx.traces += 1
        ctx.nontriv("refused" if any(not e["x"]["ok"] for e in h) else str(len(h)))
        w = judge(h, r)
        if w:
            ctx.violation(w, {"case": c, "got": r})
    ctx.notes["refused_combinations"] = sum(1 for h in hs for e in h if not e["x"]["ok"])
    ctx.notes["gradients"] = sum(1 for h in hs for e in h if e["e"][0] == "acc")
    ctx.sample({"history": cases[-1]["h"][:8]})
    return ctx.finish("All short histories over two graphs, every form of every operation on same-graph and cross-graph operands, and "
                      "random histories up to 120 events. Non-triviality is counted over histories.")
