"""C04: BusinessDays.tla through RollYear (tables), RollSets (all sets of added holidays in a
window) and CalHist (histories of a calendar object)."""
from lib import vp
from checks.c03 import MARKETS
from checks import calcommon as cc


def run(ctx):
    b = vp.Build(ctx, "cal")
    rng = ctx.rng
    allp = [(k, y) for k in MARKETS for y in range(1902, 2199)]
    pairs = set(rng.sample(allp, ctx.pick(260, 8613 - 400))) | {(k, y) for k in MARKETS for y in (2022, 2023, 2024)}
    if ctx.thorough:
        pairs = set(allp)
    pr = "{" + ", ".join(f'<<"{k}", {y}>>' for k, y in sorted(pairs)) + "}"
    ry = vp.tlc(
        ctx, "RollYearMC", vp.cfg_text(constants=dict(Pairs="<- ThePairs"), invariants=("RollsOK", "Emit")),
        workers=vp.NCPU, timeout=850, name="RollYear",
        overrides={"RollYearMC.tla": "---- MODULE RollYearMC ----\nEXTENDS RollYear\nThePairs == " + pr + "\n====\n"})
    wins = [("Weekends", 2024, 1, 27), ("Israel", 2023, 8, 27), ("UnitedKingdom", 2024, 3, 26), ("UnitedStates", 2021, 12, 27)]
    wl = ctx.pick(8, 11)
    rs = vp.tlc(ctx, "RollSetsMC", vp.cfg_text(constants=dict(Wins="<- TheWins", Win=wl), invariants=("OK", "Emit")),
                workers=vp.NCPU, name="RollSets", timeout=850,
                overrides={"RollSetsMC.tla": "---- MODULE RollSetsMC ----\nEXTENDS RollSets\nTheWins == {"
                           + ", ".join(f'<<"{k}", {y}, {m}, {d}>>' for k, y, m, d in wins) + "}\n====\n"})
    hs = cc.histories(ctx, "days", ctx.pick(350, 6000), 30)
    # counts over many years; jobs (market, first day, days, added holidays)
    def job(k):
        a, n = rng.randint(2416500, 2516000), rng.choice([420, 800, 1600, 4000])
        x = rng.choice([set(), set(), {a + rng.randint(0, n) for _ in range(5)}])
        return f'<<"{k}", {a}, {n}, {{{", ".join(map(str, sorted(x)))}}}>>'
    ks = (list(MARKETS) + ["None", "Weekends"] * 3) * ctx.pick(1, 12)
    lc = vp.tlc(ctx, "LongCountMC", vp.cfg_text(constants=dict(Jobs="<- TheJobs"), invariants=("Additive", "Emit")),
                workers=vp.NCPU, name="LongCount", timeout=850,
                overrides={"LongCountMC.tla": "---- MODULE LongCountMC ----\nEXTENDS LongCount\nTheJobs == {"
                           + ", ".join(job(k) for k in ks) + "}\n====\n"})
    path = b.get()
    payload = [{"market": x["k"], "ops": ([["addhs", sorted(x["x"])]] if x["x"] else [])
                + [["bdc", q[0], q[1]] for q in x["q"]] + [["cdc", q[0], q[1]] for q in x["q"]]} for x in lc.lines]
    far = []                       # calendar days between any two days, centuries apart, in either order
    for k in rng.sample(list(MARKETS), min(len(MARKETS), 6)) + ["None", "Weekends"]:
        ds = [rng.randint(1721426, 5373484) for _ in range(12)] + [rng.randint(2416500, 2516000) for _ in range(12)]
        far.append((k, ds))
    for (k, ds), r in zip(far, vp.run_harness(ctx, path, [{"market": k, "ops": [["cdc", a, b] for a in ds for b in ds]} for k, ds in far])):
        if r.get("skipped"):
            continue
        ctx.traces += 1
        want = [b - a for a in ds for b in ds]
        if r.get("res") != want:
            i = next((i for i, w in enumerate(want) if "res" not in r or r["res"][i] != w), 0)
            ctx.violation(f"{k}: calendar days from day {ds[i // len(ds)]} to {ds[i % len(ds)]} are {want[i]}, got {r['res'][i] if 'res' in r else r}",
                          {"market": k, "a": ds[i // len(ds)], "b": ds[i % len(ds)], "want": want[i]})
    for x, c, r in zip(lc.lines, payload, vp.run_harness(ctx, path, payload)):
        if r.get("skipped"):
            continue
        ctx.traces += 1
        got = r["res"][1 if x["x"] else 0:] if "res" in r else [r]
        want = [q[2] for q in x["q"]] + [q[3] for q in x["q"]]
        if got != want:
            i = next((i for i in range(len(want)) if i >= len(got) or got[i] != want[i]), 0)
            ctx.violation(f"{x['k']} with added holidays {x['x']}: {c['ops'][len(c['ops']) - len(want) + i]} answered "
                          f"{got[i] if i < len(got) else None}, specification {want[i]}", {"case": c, "want": want[i]})
        ctx.nontriv(f"l{x['k']}{x['a']}")

    # year tables
    payload = [{"market": x["k"], "ops": [["rollyear", x["y"]]]} for x in ry.lines]
    for x, r in zip(ry.lines, vp.run_harness(ctx, path, payload)):
        if r.get("skipped"):
            continue
        ctx.traces += 1
        g = r["res"][0] if "res" in r else r
        if g != x["r"]:
            bad = "panics or aborts: " + str(g)[:200]
            if isinstance(g, list):
                n, d = [(n, d) for n in range(6) for d in range(len(x["r"][n])) if g[n][d] != x["r"][n][d]][0]
                bad = f"convention {n} day {d+1}: moved by {g[n][d]}, specification {x['r'][n][d]}"
            ctx.violation(f"{x['k']} {x['y']}: {bad}", {"market": x["k"], "year": x["y"], "what": bad})
        ctx.nontriv(f"y{x['k']}{x['y']}")

    # all holiday sets in a window: added one by one, in one call, and with repeats
    convs = ["Actual", "Following", "ModifiedFollowing", "Preceding", "ModifiedPreceding", "ModifiedRolling"]
    payload = []
    for n, x in enumerate(rs.lines):
        days = [x["b"] + d for d in sorted(x["x"])]
        if n % 3 == 0:
            add = [["addh", d] for d in days]
        elif n % 3 == 1:
            add = [["addhs", days[::-1]]]
        else:
            add = [["addhs", days + days[:1]], ["clone"]] + [["addh", d] for d in days[1:2]]
        win = [x["b"] + d for d in range(wl)]
        order = sorted(range(wl), key=lambda i: (i * 7 + n) % (wl + 1) if n % 2 else i)      # the dates come in any order, some twice
        order += order[n % 5:n % 5 + n % 6]
        x["r"] = [[row[i] for i in order] for row in x["r"]]
        q = [["rolls", [win[i] for i in order], c] for c in convs] + [["bdc", x["b"], j] for j in win] + [["bd", j] for j in win]
        payload.append({"market": x["k"], "ops": add + q, "n": len(add)})
    for x, c, r in zip(rs.lines, payload, vp.run_harness(ctx, path, payload)):
        if r.get("skipped"):
            continue
        ctx.traces += 1
        want = x["r"] + x["c"] + x["bd"]
        got = r["res"][c["n"]:] if "res" in r else [r]
        if got != want:
            i = next((i for i in range(len(want)) if i >= len(got) or got[i] != want[i]), 0)
            ctx.violation(f"{x['k']} with holidays {sorted(x['x'])} from day {x['b']}: {c['ops'][c['n']+i]} answered "
                          f"{got[i] if i < len(got) else None}, specification {want[i]}", {"case": c, "want": want[i]})
        if x["x"]:
            ctx.nontriv(f"s{x['k']}{x['x']}")
    cc.replay(ctx, path, hs)
    ctx.sample({"history": hs[0]})
    return ctx.finish("Rolling tables of whole (market, year) pairs; every subset of user-added holidays in a window across a "
                      "month end; and histories of one calendar object (adds, clones, queries). Non-trivial: a year table, a "
                      "non-empty subset, or a history that adds holidays.", exhaustive=False)
