"""C07: DayCount.tla, exact day count factors."""
import datetime
from fractions import Fraction
from lib import vp
from checks import calcommon as cc


def run(ctx):
    b = vp.Build(ctx, "cal")
    rng = ctx.rng
    dn = lambda y, m, d: datetime.date(y, m, d).toordinal() + 1721425
    md = [(1, 1), (1, 15), (1, 29), (1, 30), (1, 31), (2, 1), (2, 27), (2, 28), (2, 29), (3, 1), (3, 30), (3, 31), (4, 30),
          (5, 31), (6, 15), (8, 30), (8, 31), (9, 30), (12, 30), (12, 31)]

    def days(ys):
        out = []
        for y in ys:
            for m, d in md:
                try:
                    out.append(dn(y, m, d))
                except ValueError:
                    pass
        return out
    pairs = set()
    for y in ctx.pick([1899, 1999, 2003, 2004, 2099], range(1890, 2110, 1)):
        for a in days([y]):
            for z in days([y, y + 1] + ([y + 2, y + 4, y + 5] if ctx.pick(y in (1999, 2003, 2004), y % 3 == 0) else [])):
                pairs.add((a, z))
    for _ in range(ctx.pick(4000, 40000)):
        a = rng.randint(dn(1700, 1, 1), dn(2300, 1, 1))
        pairs.add((a, a + rng.randint(-30, rng.choice([40, 400, 1600, 40000]))))
    for _ in range(ctx.pick(40, 400)):              # spans of centuries, any year of the calendar
        a, z = sorted(rng.randint(dn(1, 1, 2), dn(9997, 12, 30)) for _ in range(2))
        pairs |= {(a, z), (a, min(a + 365 * rng.randint(90, 700) + rng.randint(0, 400), dn(9997, 12, 30)))}
    firsts = [dn(2023, 12, 31), dn(2024, 2, 29), dn(2000, 1, 30)] + [rng.randint(dn(1800, 1, 1), dn(2200, 1, 1)) for _ in range(ctx.pick(1, 20))]
    pl = sorted(pairs)
    chunks = [pl[i:i + 2000] for i in range(0, len(pl), 2000)]
    mod = "---- MODULE DayCountMC ----\nEXTENDS DayCount\n" + "".join(
        f"P{i} == {{" + ", ".join(f"<<{a}, {z}>>" for a, z in c) + "}\n" for i, c in enumerate(chunks)) + \
        "ThePairs == " + " \\cup ".join(f"P{i}" for i in range(len(chunks))) + "\n====\n"
    r = vp.tlc(ctx, "DayCountMC", vp.cfg_text(
        constants=dict(Firsts=cc.SET(firsts), Offsets="<- Offs", Pairs="<- ThePairs"), invariants=("AlgebraOK", "Emit")),
        workers=vp.NCPU, overrides={"DayCountMC.tla": mod.replace("ThePairs ==", "Offs == 0 .. 800\nThePairs ==")}, timeout=850)
    path = b.get()
    payload = []
    for n, x in enumerate(r.lines):
        via = n % 5 == 0           # through a calendar object as well
        ops = [["dcf", x["s"], x["e"], c] if via else ["facs", c, x["s"], [x["e"]]] for c in x["f"]]
        if via:
            ops.append(["dcfs", [x["s"], x["e"], x["e"]], "Actual_360"])
        payload.append({"ops": ops, "market": ("UnitedStates", "None", "Israel")[n % 3]})
    for x, c, g in zip(r.lines, payload, vp.run_harness(ctx, path, payload)):
        if g.get("skipped"):
            continue
        if "dead" in g:
            ctx.violation(f"{c}: {g}", {"case": c, "got": g})
            continue
        ctx.traces += 1
        ctx.nontriv(str((x["s"], x["e"])))
        for (k, fr), v in zip(x["f"].items(), g["res"]):
            v = v[0] if isinstance(v, list) else v
            w = float(sum(Fraction(p, q) for p, q in fr))
            if not vp.close(w, v, rel=1e-12, abs_=1e-12):
                ds = datetime.date.fromordinal(x["s"] - 1721425), datetime.date.fromordinal(x["e"] - 1721425)
                ctx.violation(f"{k} from {ds[0]} to {ds[1]}: {v}, specification {' + '.join(f'{p}/{q}' for p, q in fr)} = {w}",
                              {"convention": k, "start": str(ds[0]), "end": str(ds[1]), "want": w, "got": v})
        if len(g["res"]) > len(x["f"]):
            v = g["res"][-1]
            if not (isinstance(v, list) and len(v) == 2 and vp.close((x["e"] - x["s"]) / 360, v[0]) and v[1] == 0):
                ctx.violation(f"day_count_factors {c['ops'][-1]}: {v}", {"case": c["ops"][-1], "got": v})
    ctx.sample(r.lines[0])
    return ctx.finish("Pairs of dates at month, February and year boundaries, every distance 0..800 from several starts, and random "
                      "pairs up to a century apart; 18 conventions each. Non-trivial: every pair.", exhaustive=False)
