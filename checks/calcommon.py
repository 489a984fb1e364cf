from lib import vp
from checks.c03 import MARKETS

SET = lambda xs: "{" + ", ".join(f'"{x}"' if isinstance(x, str) else str(x) for x in xs) + "}"
FACT = {360: "Actual_360", 364: "Actual_364", 365: "Actual_365_Fixed", 366: "Actual_366"}


def histories(ctx, mode, n, length):
    r = vp.tlc(ctx, "CalHist", vp.cfg_text(
        spec="SimSpec", constants=dict(Mode=f'"{mode}"', MaxHist=length, Span=40, FirstYear=1902, LastYear=2198, Mk="<- Markets"),
        invariants=("Emit", "TypeOK")), name="histories_" + mode, simulate=n, depth=length + 2, seed=ctx.seed, timeout=700)
    return r.lines


def replay(ctx, path, hs):
    payload = []
    for x in hs:
        ops = []
        for e in x["h"]:
            c = e["c"]
            ops.append(["sched", c[1], c[2], FACT[c[3]]] if c[0] == "sched" else c)
        payload.append({"market": x["k"], "ops": ops})
    res = vp.run_harness(ctx, path, payload)
    for x, c, r in zip(hs, payload, res):
        if r.get("skipped"):
            continue
        if "dead" in r:
            ctx.violation(f"{x['k']}: {r['dead']}", {"case": c})
            continue
        ctx.traces += 1
        if any(e["c"][0].startswith("addh") for e in x["h"]):
            ctx.nontriv(str(x["h"]))
        for i, (e, g) in enumerate(zip(x["h"], r["res"])):
            op, want = e["c"], e["a"]
            if op[0] == "sched" and isinstance(g, list):
                div = op[3]
                ok = (g[0] == want[0] and len(g[1]) == len(want[1])
                      and all(vp.close({"q": [a, div]}, b) for a, b in zip(want[1], g[1]))
                      and g[2:5] == [True, True, True] and g[5] == len(want[0]))
            else:
                ok = g == want
            if not ok:
                ctx.violation(f"{x['k']}: call {i} {c['ops'][i]} answered {g}, specification {want}",
                              {"market": x["k"], "ops": c["ops"][:i + 1], "want": want, "got": g})
                break
