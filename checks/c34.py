"""C34: the register of MIC.tla against the constants of RustQuant_iso::iso_10383."""
import os
from lib import vp


def run(ctx):
    b = vp.Build(ctx, "mic", "cal")
    want = vp.tlc(ctx, "MIC", vp.cfg_text(spec="MSpec", invariants=("Unique", "Consistent", "EmitRow")), name="mic",
                  files={"mic.json": os.path.join(vp.SPEC, "mic.json")}).lines
    r = vp.run_harness(ctx, b.get(), [{}])[0]
    got = {k: v for k, v in r["rows"]}
    if len(want) < 2000 or set(got) != {w["mic"] for w in want}:
        raise vp.ToolError("the harness does not list the register's codes")
    for w in want:
        ctx.traces += 1
        ctx.nontriv(w["mic"])
        g = got[w["mic"]]
        if g != w:
            ctx.violation(f"market {w['mic']}: the register says {w}, observed {g}", {"want": w, "got": g})
    ctx.sample(want[0])
    return ctx.finish("every market identifier constant", exhaustive=True)
