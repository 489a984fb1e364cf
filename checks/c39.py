"""C39: Printed.tla against the Display implementations."""
import math
from decimal import Decimal
from lib import vp

NUM = {"zero": 0.0, "whole": 1234567.0, "frac": -0.1, "tiny": 1.5e-7, "huge": -2.5e21, "long": 0.1234567890123456, "nan": math.nan, "inf": math.inf, "neginf": -math.inf}
DATES = [0, 1, 2, 308, -21000, 29000]
CONV = ["One_One", "Actual_360", "Actual_Actual_ISDA", "Thirty_360_ISDA", "No_Leap_365"]
ROLL = ["Actual", "Following", "ModifiedFollowing", "Preceding", "ModifiedPreceding", "ModifiedRolling"]
FACTORS = [[], [0.5], [0.25, 1.0, 0.08333333333333333]]


def num(v):
    return "NaN" if v != v else ("inf" if v > 0 else "-inf") if math.isinf(v) else format(Decimal(repr(v)), "f").removesuffix(".0")


def run(ctx):
    b = vp.Build(ctx, "biz")
    st = lambda xs: "{%s}" % ", ".join(xs)
    q = lambda xs: st(f'"{x}"' for x in xs)
    ncur = 150
    cfg = vp.cfg_text(spec="PSpec", constants=dict(Numbers=q(NUM), Dates=st(map(str, range(1, len(DATES) + 1))), Currencies=st(map(str, range(1, ncur + 1))), Ids="{0, 1, 7, 1000000}",
                      Factors=st(map(str, range(len(FACTORS)))), Conventions=q(CONV), Rolls=q(ROLL)), invariants=("Emit",))
    items = vp.tlc(ctx, "Printed", cfg, name="printed").lines
    js = lambda v: v if math.isfinite(v) else str(v)
    cases = []
    for it in items:
        x = it["x"]
        c = {"k": "print", "x": x["k"], **{k: v for k, v in x.items() if k != "k"}}
        for k in ("amount", "a", "b", "p0", "p1"):
            if k in c:
                c[k] = js(NUM[c[k]])
        if "date" in c:
            c["date"] = DATES[c["date"] - 1]
        if "dates" in c:
            c["dates"], c["factors"] = [DATES[d - 1] for d in c["dates"]], FACTORS[c["factors"]]
        cases.append(c)
    for it, c, r in zip(items, cases, vp.run_harness(ctx, b.get(), cases)):
        if "skipped" in r:
            continue
        ctx.traces += 1
        ctx.nontriv(c["x"])
        if "text" not in r:
            ctx.violation(f"printing {c}: {r}", {"case": c})
            continue
        dbg = lambda v: repr(v)
        code = lambda: 'ISO_4217 { alphabetic: "%s", numeric: "%s" }' % tuple(r["cur"][1:])
        field = {"num": lambda f: num(float(c[f])), "int": lambda f: str(c[f]), "date": lambda f: r["date"], "dates": lambda f: "[" + ", ".join(r["dates"]) + "]",
                 "nums": lambda f: "[" + ", ".join(map(dbg, c[f])) + "]", "code": lambda f: code(),
                 "str": lambda f: c[f] if f in c else r["cur"][["name", "alpha", "numeric"].index(f)]}
        want = "".join(p["t"] if "t" in p else field[p["as"]](p["f"]) for p in it["text"])
        if r["text"] != want:
            ctx.violation(f"{c} prints {r['text']!r}, must print {want!r}", {"case": c, "want": want})
        if c["x"] == "vertex":
            p = [float(c["p0"]), float(c["p1"])]
            fin = [math.isfinite(v) and abs(v) < 1e15 for v in p]
            nan = any(v != v for v in p)
            eq = [not nan, not nan and not fin[0], not nan and not fin[1], False, False]
            if r["eq"] != eq or r["qe"] != eq or [num(float(v)) for v in r["get"][0]] != list(map(num, p)) or r["get"][1] != [c["q0"], c["q1"]]:
                ctx.violation(f"vertex {c}: partials and parents {r['get']}, equality with itself and four others {r['eq']}, must be {eq}", {"case": c})
        if not r.get("same", True):
            ctx.violation(f"a copy of {c} prints differently", {"case": c})
    ctx.sample(cases[0])
    return ctx.finish("one value of a kind and classes of its fields", exhaustive=True)
