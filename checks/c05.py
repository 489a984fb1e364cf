"""C05: Schedules.tla (frequencies, bands, date sequences) and CalHist.tla's schedules."""
from lib import vp
from checks import calcommon as cc


def run(ctx):
    b = vp.Build(ctx, "cal")
    rng = ctx.rng
    dn = lambda y, m, d: __import__("datetime").date(y, m, d).toordinal() + 1721425
    starts = {dn(2023, 1, 31), dn(2024, 2, 28), dn(2024, 2, 29), dn(1999, 12, 31), dn(2099, 12, 30), dn(1900, 2, 28), 2400000}
    starts |= {rng.randint(dn(1700, 1, 1), dn(2900, 1, 1)) for _ in range(ctx.pick(12, 120))}
    seqd = [0, 1, 2, 3, 6, 7, 13, 27, 28, 29, 30, 31, 59, 60, 61, 89, 90, 364, 365, 366, 367, 730, 731]
    r = vp.tlc(ctx, "Schedules", vp.cfg_text(
        constants=dict(Starts=cc.SET(sorted(starts)), Neg=400, MaxD=900, SeqD=cc.SET(seqd)),
        invariants=("BandsOK", "Emit", "EmitFreq")), workers=vp.NCPU)
    hs = cc.histories(ctx, "schedule", ctx.pick(500, 6000), 18)
    path = b.get()
    per = [x["p"] for x in r.lines if "p" in x][0] + [["Zero", 0]]
    got = vp.run_harness(ctx, path, [{"ops": [["freqs"]]}])[0]["res"][0]
    if sorted(map(str, got)) != sorted(map(str, per)):
        ctx.violation(f"periods per year {got}, specification {per}", {"got": got, "want": per})
    lines = [x for x in r.lines if "a" in x]
    payload = [{"ops": [["infer", x["a"], x["a"] + x["d"]]] + ([["seq", x["a"], x["a"] + x["d"]]] if x["s"] else [])}
               for x in lines]
    for x, c, g in zip(lines, payload, vp.run_harness(ctx, path, payload)):
        if g.get("skipped"):
            continue
        if "dead" in g:
            ctx.violation(f"{c}: {g}", {"case": c, "got": g})
            continue
        ctx.traces += 1
        i = g["res"][0]
        i = "none" if isinstance(i, dict) else i
        if i != x["f"]:
            ctx.violation(f"infer_frequency of {x['d']} days from day {x['a']}: {i}, specification {x['f']}", {"case": c})
        if x["f"] != "none":
            ctx.nontriv((x["a"], x["d"]))
        if x["s"] and g["res"][1] != x["s"]:
            ctx.violation(f"date_sequence of {x['d']} days from day {x['a']}: {str(g['res'][1])[:200]}", {"case": c})
    cc.replay(ctx, path, hs)
    ctx.sample({"history": hs[0]})
    return ctx.finish("Every day distance -400..900 from each start; sequences; schedules in histories of a calendar object. "
                      "Non-trivial: the distance is in a band, or the history adds holidays.", exhaustive=False)
