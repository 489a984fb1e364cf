"""C36: histories of HalfBook.tla against OrderBook and Order."""
from lib import vp

TYPES = ["MARKET", "LIMIT", "STOP", "STOP_LIMIT", "TRAILING_STOP", "TRAILING_STOP_LIMIT"]
FORCE = ["GTC", "IOC", "FOK", "AON"]
FILLS = {"none": lambda i: (10 + i, 0, 10 + i), "part": lambda i: (20 + 3 * i, 2 * i + 1, 19 + i), "done": lambda i: (9 + i, 9 + i, 0), "nil": lambda i: (0, 0, 0),
         "odd": lambda i: (5 + i, 7 * i, 3), "huge": lambda i: (2 ** 63 + i, 1, 2 ** 63 + i - 1)}
PRICES = {"num": lambda i: 100 + i / 4, "same": lambda i: 100.0, "zero": lambda i: 0.0, "neg": lambda i: -0.5 - i, "big": lambda i: 1e9 + i / 8}
IDS = {"new": lambda i: 1000 + i, "same": lambda i: 77, "zero": lambda i: 0}
TIMES = {"up": lambda i: 1600000000 + 97 * i, "same": lambda i: 1600000000, "down": lambda i: 1600000000 - 13 * i}


def order(i, t):
    """the i-th order with terms t"""
    q = FILLS[t["fill"]](i)
    return {"id": IDS[t["id"]](i), "sym": 7 * i, "type": t["type"], "side": "BID (buy)" if t["side"] == "bid" else "ASK (sell)", "price": PRICES[t["price"]](i),
            "stop": PRICES[t["stop"]](i + 1), "qty": q[0], "exec": q[1], "leaves": q[2], "tif": t["tif"], "ts": TIMES[t["ts"]](i)}


def printed(o, fields, ts):
    num = lambda x: repr(x)[:-2] if repr(x).endswith(".0") else repr(x)
    v = {"id": o["id"], "symbol_id": o["sym"], "order_type": o["type"], "order_side": o["side"], "price": num(o["price"]), "stop_price": num(o["stop"]),
         "quantity": o["qty"], "executed_quantity": o["exec"], "leaves_quantity": o["leaves"], "time_in_force": o["tif"], "timestamp": ts}
    return "Order(" + ", ".join(f"{f}={v[f]}" for f in fields) + ")"


def run(ctx):
    b = vp.Build(ctx, "lob")
    st = lambda xs: "{%s}" % ", ".join(f'"{x}"' for x in xs)

    def k(n, sim, types=TYPES, forces=FORCE, fills=FILLS, prices=PRICES, ids=IDS, times=TIMES):
        return vp.cfg_text(constants={"MaxLen": n, "Sim": sim, "Types": st(types), "Forces": st(forces), "Fills": st(fills), "Prices": st(prices), "Ids": st(ids),
                                      "Times": st(times)}, invariants=("Emit", "Kept", "Conserved"))
    one = dict(types=TYPES[1:2], forces=FORCE[:1], prices=["num"], ids=["new"], times=["up"])
    jobs = [lambda: vp.tlc(ctx, "HalfBook", k(5, "FALSE", fills=["none"], **one), name="short").lines,
            lambda: vp.tlc(ctx, "HalfBook", k(3, "FALSE", fills=["none", "done"], **{**one, "ids": ["same"], "times": ["down"], "prices": ["same"]}), name="alike").lines,
            lambda: vp.tlc(ctx, "HalfBook", k(1, "FALSE", prices=["zero", "num"], ids=["new"]), name="terms").lines]
    for n, m in ((6, ctx.pick(200, 2000)), (12, ctx.pick(150, 2000)), (60, ctx.pick(20, 300))):
        jobs.append(lambda n=n, m=m: vp.tlc(ctx, "HalfBook", k(n, "TRUE"), simulate=m, depth=n + 1, name=f"random{n}").lines)
    hs = [h for l in vp.par(*jobs) for h in l]
    fields, hs = hs[0][0], [h[1] for h in hs]
    cases = [{"k": "half", "ops": [[e["e"][0], e["e"][1], order(e["e"][2], e["e"][3])] if e["e"][0] == "insert" else e["e"] for e in h]} for h in hs]
    for c, h, r in zip(cases, hs, vp.run_harness(ctx, b.get(), cases)):
        if isinstance(r, dict) and "skipped" in r:
            continue
        ctx.traces += 1
        ctx.nontriv(str(len(h)))
        if "see" not in r:
            ctx.violation(f"order book: {r}; {c['ops'][:6]}", {"case": c})
            continue
        for n, (e, got) in enumerate(zip(h, r["see"])):
            bad = None
            for g in got:
                for o in g["bids"] + g["asks"]:
                    text, ts = o.pop("text")
                    if text != printed(o, fields, ts):
                        bad = f"an order prints as {text}, not {printed(o, fields, ts)}"
            want = [{**s, **{q: [order(o["id"], o["term"]) for o in s[q]] for q in ("bids", "asks")}} for s in e["see"]]
            if got != want:
                bad = f"after event {n + 1} of {[x['e'] for x in h[:n + 1]]} the books must be {want}, observed {got}"
            if bad:
                ctx.violation(bad, {"case": c, "event": n + 1, "want": want})
                break
    ctx.sample(cases[0])
    return ctx.finish("a history of insertions into a book and its clone")
