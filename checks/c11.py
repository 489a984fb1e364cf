"""C11: the tables of ISOTables.tla against RustQuant_iso and the currency constants."""
from lib import vp


def run(ctx):
    b = vp.Build(ctx, "biz")
    ls = vp.tlc(ctx, "ISOTables", vp.cfg_text(invariants=("Emit", "EmitCurrencies"))).lines
    cur = next(x["cur"] for x in ls if "cur" in x)
    look = [x for x in ls if "q" in x]
    path = b.get()
    got, rows = vp.run_harness(ctx, path, [{"k": "iso", "t": "currencies"}, {"k": "iso", "t": "alpha2", "q": [x["q"] for x in look]}])
    have = {r[0]: r for r in got}
    for c in cur:
        ctx.traces += 1
        ctx.nontriv(c[0])
        r = have.get(c[0])
        if r is None or r[1:5] != c[1:] or r[5:] != c[1:]:
            ctx.violation(f"currency {c[0]}: the standard says {c[1:]}, observed {r}", {"want": c, "got": r})
    if len(have) != len(cur):
        raise vp.ToolError("the harness does not list every currency of the specification")
    for x, r in zip(look, rows):
        ctx.traces += 1
        ctx.nontriv(x["q"])
        if r != x["r"]:
            ctx.violation(f"country {x['q']!r}: the standard says {x['r']}, observed {r}", {"query": x["q"], "want": x["r"], "got": r})
    ctx.sample({"currency": cur[0], "country": look[0]})
    return ctx.finish("Every currency constant, every two-letter string and strings of other shapes. Non-triviality counts the distinct keys.",
                      exhaustive=True)
