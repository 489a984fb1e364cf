"""C35: pictures of the tapes that histories of Tape.tla leave, recorded from graphviz and judged by Drawing.tla."""
import json
import os
import re
from lib import vp
from checks.c09 import mc, event, U, B, A, S


def one_graph(h):
    """the part of a history that concerns the first graph, with its variables renumbered"""
    number, seen, out, made = {}, 0, [], 0
    for e in h:
        t = event(e["e"])
        new = e["x"]["new"]
        if t[0] == "clear" and t[1] == 1:
            break
        keep = t[0] in ("var", "vars") and t[1] == 1
        if t[0] == "op" and e["x"]["ok"] and e["x"]["g"] == 1:
            o = t[1]
            pos = {"u": [2], "vv": [2, 3], "avv": [2, 3], "vs": [2], "avs": [2], "sv": [3]}.get(o[0])
            o = list(o)
            if pos is None:
                o[1] = [number[i] for i in o[1]]
            else:
                for p in pos:
                    o[p] = number[o[p]]
            t, keep = ["op", o], True
        if keep:
            out.append(t)
        for i in range(new):
            if keep:
                made += 1
                number[seen + 1 + i] = made
        seen += new
    return out, made


def num(x):
    """thousandths, or the word for a number out of range"""
    if x is None or isinstance(x, str):
        return ["odd", 0]
    if x != x or abs(x) > 2e6:
        return ["odd", 0]
    return ["num", round(x * 1000)]


NODE = re.compile(r"^\s*(\d+)\s*\[(.*)\];\s*$")
EDGE = re.compile(r"^\s*(\d+)\s*->\s*(\d+)\s*\[label=\"\u2202_(\d+): (\S+)\"\];\s*$")


def picture(r):
    nodes, edges = [], []
    for l in r["dot"].splitlines():
        m, k = EDGE.match(l), NODE.match(l)
        if m:
            edges.append({"from": int(m[1]), "to": int(m[2]), "slot": int(m[3]), "val": num(float(m[4]))})
        elif k:
            v = re.search(r"Value: (\S+?)\"", k[2])
            nodes.append({"i": int(k[1]), "input": "Input" in k[2], "val": num(float(v[1])) if v else ["odd", 0]})
    return {"tape": [{"parents": v["parents"], "partials": [num(x) for x in v["partials"]]} for v in r["tape"]],
            "vars": [{"i": v["i"], "val": num(v["val"])} for v in r["vars"]], "nodes": nodes, "edges": edges}


def run(ctx):
    b = vp.Build(ctx, "ad")
    C = [(2, 1), (-3, 2), (1, 3), (5, 1)]
    V = [(1, 2), (2, 1), (-3, 2), (7, 10), (5, 1)]
    hs = []
    for ln, n in ((6, ctx.pick(120, 1500)), (16, ctx.pick(150, 1500)), (40, ctx.pick(20, 200))):
        k, o = mc(ln, True, U, B, A, S, C, ["sum", "prod"], V)
        hs += vp.tlc(ctx, "TapeMC", vp.cfg_text(invariants=("Emit", "DepsWithinGraph"), **k), overrides=o, simulate=n, depth=ln + 1, name=f"draw{ln}").lines
    rng, cases = ctx.rng, []
    for h in hs:
        ops, made = one_graph(h)
        if ops:
            cases.append({"k": "draw", "h": ops, "named": sorted(rng.sample(range(made), rng.randint(0, made)))})
    res = vp.run_harness(ctx, b.get(), cases)
    pics, which = [], []
    for c, r in zip(cases, res):
        if "skipped" in r:
            continue
        if "dot" not in r:
            ctx.violation(f"drawing {c['h']}: {r}", {"case": c})
            continue
        ctx.traces += 1
        ctx.nontriv(f"{len(r['tape'])} {len(r['vars'])}")
        d = r["dot"].strip()
        if not (d.startswith("digraph") and d.endswith("}") and d.count("{") == d.count("}") == 1):
            ctx.violation(f"not one digraph: {r['dot']!r}", {"case": c})
        pics.append(picture(r))
        which.append((c, r))
    f = os.path.join(ctx.work, "drawings.json")
    with open(f, "w") as fh:
        json.dump(pics, fh)
    for v in vp.tlc(ctx, "Drawing", vp.cfg_text(spec="DSpec", invariants=("Verdict",)), name="drawing", files={"drawings.json": f}).lines:
        c, r = which[v["n"] - 1]
        if not v["nodes"] or not v["edges"]:
            ctx.violation(f"the picture does not show the tape's {'nodes' if not v['nodes'] else 'edges'}: {r['dot']!r} of {r['tape']}", {"case": c, "got": r})
    ctx.sample(cases[0])
    ctx.assumptions += ["labels are compared to two decimals where the number is below two million; larger ones and undefined ones only for presence"]
    return ctx.finish("the picture of one tape")
