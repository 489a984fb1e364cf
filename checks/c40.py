"""C40: Approx.tla against assert_approx_equal!."""
import math
from lib import vp

UNIT = [1.0, 2.0 ** -52, 2.0 ** -1074, 2.0 ** 40, 0.25]          # every difference of few units is exact


def run(ctx):
    b = vp.Build(ctx, "num", "mathx")
    st = lambda xs: "{%s}" % ", ".join(map(str, xs))
    k = ctx.pick(8, 14)
    mc = lambda sp: {"ApproxMC.tla": f"---- MODULE ApproxMC ----\nEXTENDS Approx\nUU == {st(range(-k, k + 1))}\nTT == {st(range(-2, 2 * k + 1))}\nSS == {{{sp}}}\n====\n"}
    cfg = vp.cfg_text(spec="ASpec", constants=dict(Units="<- UU", Tols="<- TT", Special="<- SS"), invariants=("Emit", "Laws"))
    rows = vp.tlc(ctx, "ApproxMC", cfg, overrides=mc('"nan", "inf", "neginf"'), name="approx").lines
    val = lambda v, u: {"nan": math.nan, "inf": math.inf, "neginf": -math.inf, "n": v[1] * u}[v[0]]
    js = lambda v: v if math.isfinite(v) else str(v)
    cases, want = [], []
    for ty in ("f64", "f32", "i64", "i32"):
        for u in (UNIT if ty == "f64" else [1.0, 2.0 ** -23, 2.0 ** -149] if ty == "f32" else [1, 1000003]):
            r = [x for x in rows if ty[0] == "f" or all(x[n][0] == "n" for n in "xyd")]
            for i in range(0, len(r), 2000):
                part = r[i:i + 2000]
                cases.append({"k": "approx", "ty": ty, "q": [[js(val(x[n], u)) for n in "xyd"] for x in part]})
                want.append(part)
    for c, w, r in zip(cases, want, vp.run_harness(ctx, b.get(), cases)):
        if "skipped" in r:
            continue
        if "r" not in r:
            ctx.violation(f"assert_approx_equal! of {c['ty']}: {r}", {"case": c})
            continue
        ctx.traces += 1
        if r["eps"] != 2.0 ** -26:
            ctx.violation(f"RUSTQUANT_EPSILON is {r['eps']}, not the square root of the machine epsilon", {"case": c})
        for q, x, g in zip(c["q"], w, r["r"]):
            ctx.nontriv(f"{c['ty']}{x['passes']}{x['x'][0]}{x['d'][0]}")
            if g["ok"] != x["passes"] or not (g["ok"] or g["named"]):
                ctx.violation(f"{c['ty']}: assert_approx_equal!({q[0]}, {q[1]}, {q[2]}) {'passes' if g['ok'] else 'fails (values named: %s)' % g['named']}, "
                              f"must {'pass' if x['passes'] else 'fail and name its arguments'}", {"case": dict(c, q=[q]), "want": x["passes"]})
    ctx.sample({"case": {**cases[0], "q": cases[0]["q"][:3]}})
    ctx.assumptions += ["signed numbers whose difference is representable"]
    return ctx.finish("two numbers and a tolerance, of one number type, as whole numbers of units of several sizes", exhaustive=True)
