"""C06: DateUtils.tla, one state per month and per date range."""
import datetime
from lib import vp
from checks import calcommon as cc


def run(ctx):
    b = vp.Build(ctx, "cal")
    rng = ctx.rng
    years = set(range(1896, 2110)) | {1600, 1700, 1800, 2200, 2300, 2400, 1, 2, 3, 4, 100, 400, 9999 - 1}
    years |= set(range(1, 10000)) if ctx.thorough else set(rng.sample(range(1, 9999), 150))
    years.discard(9999)
    dn = lambda y, m, d: datetime.date(y, m, d).toordinal() + 1721425
    special = [dn(y, m, d) for y in (1899, 1900, 1999, 2000, 2003, 2004, 2023, 2024, 2096, 2100)
               for m, d in ((1, 1), (2, 28), (3, 1), (6, 30), (12, 31))]
    ranges = {(a, z) for a in special for z in special if a <= z}
    for _ in range(ctx.pick(2500, 30000)):
        a = rng.randint(dn(1600, 1, 1), dn(2400, 1, 1))
        ranges.add((a, a + rng.randint(0, rng.choice([40, 400, 4000, 40000]))))
    ranges |= {(dn(1, 1, 1), dn(9998, 12, 31)), (dn(1, 12, 31), dn(9997, 1, 1))}
    for _ in range(ctx.pick(12, 60)):
        a, z = sorted([rng.randint(dn(1, 1, 1), dn(9998, 12, 31)) for _ in range(2)])
        ranges.add((a, z))
    # every pair of years around a century (leap or not) up to 16 years apart, at several days of the year
    days = [(1, 1), (2, 28), (3, 1), (12, 31)]
    for c in (range(100, 9901, 100) if ctx.thorough else [100, 400, 1500, 1700, 1800, 1900, 2000, 2100, 2200, 9900]):
        for u in range(c - 8, c + 2):
            for v in range(u, c + 9):
                for a, z in (rng.sample([(a, z) for a in days for z in days], 2) + [(days[2], days[0])]):
                    if dn(u, *a) <= dn(v, *z):
                        ranges.add((dn(u, *a), dn(v, *z)))
    mod = ("---- MODULE DateUtilsMC ----\nEXTENDS DateUtils\nTheRanges == {" +
           ", ".join(f"<<{a}, {z}>>" for a, z in sorted(ranges)) + "}\n====\n")
    r = vp.tlc(ctx, "DateUtilsMC", vp.cfg_text(constants=dict(Years=cc.SET(sorted(years)), Ranges="<- TheRanges"),
                                               invariants=("MonthOK", "Emit")),
               workers=vp.NCPU, overrides={"DateUtilsMC.tla": mod}, timeout=800)
    path = b.get()
    payload, want = [], []
    for x in r.lines:
        if "m" in x:
            days = range(x["b"], x["b"] + len(x["f"]))
            ops = [["monthdays", x["y"], x["m"]]] + [["monthflags", j] for j in days] + [["isweekend", j] for j in days]
            exp = [x["t"]] + x["f"] + [[w in (6, 7), w not in (6, 7)] for w in x["w"]]
            if 1901 <= x["y"] <= 2199:
                ops += [["unpack", j] for j in days]
                exp += [[x["y"], x["m"], i + 1, x["w"][i], x["o"][i]] for i in range(len(x["f"]))]
            ctx.nontriv(f"{x['y']}-{x['m']}")
        else:
            a, z = x["r"]
            ops = [["range", a, z], ["range", z, a], ["yearfrac", a, z], ["yearfrac", z, a]]
            exp = [x["a"], ("n", x["a"][3]), ("yf", x["a"][3]), ("yf", x["a"][3])]
            ctx.nontriv(str(x["r"]))
        payload.append({"ops": ops})
        want.append(exp)
    for c, exp, g in zip(payload, want, vp.run_harness(ctx, path, payload)):
        if g.get("skipped"):
            continue
        if "dead" in g:
            ctx.violation(f"{c}: {g}", {"case": c, "got": g})
            continue
        ctx.traces += 1
        for o, w, v in zip(c["ops"], exp, g["res"]):
            if isinstance(w, tuple) and w[0] == "yf":
                ok = vp.close({"q": [4 * w[1], 1461]}, v, rel=1e-12)
            elif isinstance(w, tuple):
                ok = isinstance(v, list) and v[3] == w[1]     # only the distance is defined backwards
            else:
                ok = v == w
            if not ok:
                ctx.violation(f"{o} answered {v}, specification {w}", {"op": o, "want": w, "got": v})
                break
    ctx.sample({"op": payload[0]["ops"][0], "expected": want[0][0]})
    return ctx.finish("Every month of the years explored (all days of it) and random and boundary date ranges. Non-trivial: every state.",
                      exhaustive=False)
