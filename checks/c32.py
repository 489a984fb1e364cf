"""C32: the policy iteration of LongstaffSchwartz.tla (every policy, over the rationals) with the
regression's choice, on the paths of the pricer's own seeds, against LongstaffScwhartzPricer."""
import math
from lib import vp
from lib.expr import Dag, numpy, vec


def run(ctx):
    b = vp.Build(ctx, "opt")
    inv = ("CashIsStopped", "Between", "European")
    model = lambda d, n, pay, f, name: lambda: vp.tlc(ctx, "LsmRun", vp.cfg_text(spec="LSpec", constants={"Dates": d, "Paths": n, "Pay": pay, "Disc": "<- D"}, invariants=inv),
                                                      name=name, overrides={"LsmRun.tla": f"---- MODULE LsmRun ----\nEXTENDS LongstaffSchwartz\nD == {f}\n====\n"})
    _, _, _, lines = vp.par(
        model(3, 2, "{0, 1, 2, 3}", "<<1, 2>>", "lsm-a"), model(4, 1, "{0, 1, 3, 4, 5}", "<<2, 3>>", "lsm-b"), model(2, 3, "{0, 2, 3}", "<<3, 4>>", "lsm-c"),
        lambda: vp.tlc(ctx, "LsmEmit", vp.cfg_text(spec="ESpec", invariants=("Emit",)), name="lsm-emit").lines)
    np, rng, dag = numpy(), ctx.rng, Dag()
    R = {n: [dag.add(x) for x in e] if n == "basis" else dag.add(e) for n, e in lines[0].items()}
    val = lambda env, roots: [np.real(x) for x in vec(dag, env, roots)]

    def price(a, T, m, side, z):
        """(price or None if the regression's choice is not clear, least, greatest) over all policies"""
        e = dict(a, T=T, m=m)
        D = float(val(e, [R["discount"]])[0])
        x = val(dict(e, z=z[0]), [R["terminal"]])[0]
        pay = lambda x: val(dict(e, S=val(dict(e, x=x), [R["asset"]])[0]), [R[side]])[0]
        cash = pay(x)
        lo, hi, clear = cash.copy(), cash.copy(), True
        for j in range(m - 1, 0, -1):
            x = val(dict(e, j=j, next=x, z=z[j]), [R["bridge"]])[0]
            p = pay(x)
            itm = p > 0
            if np.any(itm & (p < 1e-9 * a["s"])):
                clear = False
            lo, hi = np.where(itm, np.minimum(p, D * lo), D * lo), np.where(itm, np.maximum(p, D * hi), D * hi)
            held = D * cash
            if np.sum(itm) < 8:
                clear = clear and not np.any(itm)
                cash = held
                continue
            A = np.stack([np.broadcast_to(c, p[itm].shape) for c in val({"y": p[itm]}, R["basis"])], axis=1)
            cond = np.linalg.cond(A)
            cont = A @ np.linalg.lstsq(A, held[itm], rcond=None)[0]
            if np.any(np.abs(p[itm] - cont) < (1e-9 + 1e-14 * cond ** 2) * np.max(p)):
                clear = False
            use = np.zeros(len(p), bool)
            use[itm] = p[itm] > cont
            cash = np.where(use, p, held)
        n = len(x)
        return (D * float(np.sum(cash)) / n if clear else None), D * float(np.sum(lo)) / n, D * float(np.sum(hi)) / n

    cases = []
    for _ in range(ctx.pick(900, 9000)):
        days = rng.choice([30, 91, 182, 365, 366, 731, rng.randint(2, 2500)])
        T, v = days / 365.25, round(10 ** rng.uniform(-1, -0.1), 4)
        s = round(10 ** rng.uniform(-0.5, 1.2), 3)
        if rng.random() < 0.15:
            s = round(s * 100, 1)
        k = round(s * math.exp(rng.choice([0, 1, 1, 1]) * rng.gauss(0, 1) * v * math.sqrt(T)), 4)
        a = dict(s=s, k=k, r=round(10 ** rng.uniform(-2.5, -0.7), 4), v=v)
        seed = rng.choice([rng.randint(0, 100), rng.getrandbits(64), 2 ** 64 - rng.randint(1, 6)])
        c = {"k": "lsm", "a": a, "days": days, "m": rng.choice([1, 2, 2, 3, 4, 5, 8, 12]), "n": rng.choice([1, 20, 50, 100, 100, 200]),
             "side": rng.choice(["put", "put", "call"]), "seed": seed, "draws": True, "today": rng.random() < 0.2}
        if len(cases) % 30 == 7:                     # many dates, many paths
            c["m"], c["n"] = rng.choice([(60, 30), (130, 12), (3, 1500), (2, 2500), (5, 800)])
        cases.append((c, T))
    ctx.sample(cases[0][0])
    exact = 0
    for (c, T), r in zip(cases, vp.run_harness(ctx, b.get(), [c for c, _ in cases])):
        if "skipped" in r:
            continue
        y = r.get("v")
        if not isinstance(y, (int, float)):
            ctx.violation(f"Longstaff-Schwartz: {r}; {c}", {"case": c})
            continue
        ctx.traces += 1
        want, lo, hi = price(c["a"], T, c["m"], c["side"], np.array(r["z"], float))
        if r["again"] != y:
            ctx.violation(f"Longstaff-Schwartz: two runs of one seed give {y} and {r['again']}; {c}", {"case": c})
        s = c["a"]["s"]
        if want is not None:
            exact += 1
            ctx.nontriv(f"{c['m']}{c['side']}{want:.4g}")
        if want is not None and not abs(y - want) <= 1e-9 * s or not lo - 1e-9 * s <= y <= hi + 1e-9 * s:
            ctx.violation(f"Longstaff-Schwartz {c['side']} over {c['m']} dates is {y}, the regression's policy earns {want}, any policy {lo}..{hi}; {c}",
                          {"case": c, "want": want, "any": [lo, hi]})
    ctx.notes["decided"] = f"{exact} of {len(cases)} prices follow a clear regression; the others are held to the bounds of every policy"
    ctx.assumptions += ["the draws are the seeded generator's: the end points use the seed, date j the seed plus j",
                        "where the least-squares fit is ill-conditioned or a choice is a tie, only the bounds over all exercise policies are asked"]
    return ctx.finish("a contract, numbers of dates and paths, and a seed")
