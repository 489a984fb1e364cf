"""C01/C02: LOB.tla bound to RustQuant_trading::limit_order_book::Book."""
import json, os
from lib import vp

SET = lambda xs: "{" + ", ".join(str(x) for x in xs) + "}"


def consts(ids, prices, sizes, markets, stamps, maxrest, maxhist, emitall):
    return dict(Ids=SET(ids), Prices=SET(prices), Sizes=SET(sizes), Markets=SET(markets),
                Stamps=SET(stamps), MaxRest=maxrest, MaxHist=maxhist, EmitAll=emitall)


INV = ("TypeOK", "IdsUnique", "MatchRule")


def behaviours(ctx):
    """Spec -> code: every transition of the bounded state graph, and long random behaviours."""
    out = []
    q = ctx.pick
    ex = vp.tlc(ctx, "LOB", vp.cfg_text(
        constants=consts([1, 2, 3], [1, 2], q([1, 2], [1, 2, 3]), q([1, 2, 3], [0, 1, 2, 3, 4, 5]), [1],
                         3, 1000, "TRUE"),
        invariants=INV, properties=("Conserve",), view="View"), name="exhaustive", timeout=800,
        workers=1)
    out += [("graph", x) for x in ex.lines]
    # four orders on one side only a couple of prices: queue shapes
    sims = [  # ids, prices, sizes, markets, hist length, number
        (range(1, 7), [1, 2], [1, 2, 3], range(0, 8), 24, q(1500, 15000)),
        (range(1, 13), [5, 6, 7, 9], [1, 2, 3, 5, 8], [1, 2, 3, 5, 9, 14, 25], 60, q(600, 8000)),
        (range(1, 31), range(1, 9), range(1, 12), [1, 4, 7, 16, 33, 70], 150, q(80, 1200)),
        (range(1, 41), [4], [1, 2, 3], [1, 2, 5, 9, 30], 90, q(150, 1500)),          # long queues at one price
    ]
    for k, (ids, px, sz, mk, ln, n) in enumerate(sims):
        r = vp.tlc(ctx, "LOB", vp.cfg_text(
            spec="SimSpec", constants=consts(ids, px, sz, mk, [1, 2, 3, 4], 1000, ln, "FALSE")),
            name=f"simulate{k}", simulate=n, depth=ln + 1, seed=ctx.seed * 10 + k, timeout=600)
        out += [("sim", x) for x in r.lines]
    return out


def scaled(v, op):
    """Order-preserving scaling keeps the answer: exercises the full u64 range."""
    return v


def to_cases(beh):
    """One behaviour -> two replays: ending in a market drain of both sides, and ending in a
    cancellation of every id (after which the book must be empty)."""
    cases = []
    for kind, x in beh:
        calls = [e["c"] for e in x["h"]]
        exp = [e["a"] for e in x["h"]]
        d = x["d"]
        ids = sorted({c[1] for c in calls if c[0] != "mkt"} | set(d["live"]))
        tot = lambda f: sum(q for _, q in f)
        a, b = tot(d["asks"]), tot(d["bids"])
        end1 = [["mkt", a, True], ["mkt", b, False], ["mkt", 1, True], ["mkt", 1, False]] + [["can", i] for i in ids]
        ans1 = [[True, d["asks"]], [True, d["bids"]], [False, []], [False, []]] + [False] * len(ids)
        end2 = [["can", i] for i in ids] + [["mkt", 1, True], ["mkt", 1, False]]
        ans2 = [i in d["live"] for i in ids] + [[False, []], [False, []]]
        cases.append((kind, calls, exp, end1, ans1))
        cases.append((kind, calls, exp, end2, ans2))
    return cases


def scale_ops(ops, P, S, I):
    out = []
    for o in ops:
        if o[0] == "add":
            out.append(["add", I(o[1]), o[2], S * o[3], P(o[4]), o[5]])
        elif o[0] == "can":
            out.append(["can", I(o[1])])
        else:
            out.append(["mkt", S * o[1], o[2]])
    return out


def scale_ans(ans, P, S):
    return [a if isinstance(a, bool) else [a[0], [[P(p), S * q] for p, q in a[1]]] for a in ans]


SCALES = [
    ("1", lambda p: p, 1, lambda i: i),
    ("2^40", lambda p: (p << 33) + 7, 1 << 40, lambda i: i * 2654435761),
    ("top", lambda p: 2**64 - 100 + p, 1 << 50, lambda i: 2**64 - i),
]


def classify(op, exp, got, in_drain):
    """Which of the two properties does a difference belong to?  Answers of market orders are
    C01; answers of submissions and cancellations are C02.  Both properties own panics."""
    return "C01" if op[0] == "mkt" else "C02"


def replay(ctx, path, cases):
    """Replays on the real Book; returns nothing, records violations of ctx.prop."""
    payload, meta = [], []
    for n, (kind, calls, exp, end, ans) in enumerate(cases):
        name, P, S, I = SCALES[n % 3 if kind == "sim" else (0 if n % 8 else 1 + (n // 8) % 2)]
        ops = scale_ops(calls + end, P, S, I)
        want = scale_ans(exp + ans, P, S)
        payload.append({"ops": ops})
        meta.append((name, want, len(calls)))
    res = vp.run_harness(ctx, path, payload)
    mism = {"C01": 0, "C02": 0}
    for case, (name, want, nc), r in zip(payload, meta, res):
        if r.get("skipped"):
            continue
        if "dead" in r:
            ctx.violation("the book did not answer: " + r["dead"], {"case": case, "got": r})
            continue
        got = r["res"]
        ctx.traces += 1
        for i, w in enumerate(want):
            g = got[i] if i < len(got) else {"panic": "missing"}
            if g != w:
                owner = classify(case["ops"][i], w, g, i >= nc)
                if isinstance(g, dict):
                    owner = ctx.prop
                mism[owner] += 1
                # the first difference decides; a wrong state surfaces in whichever call observes it
                if owner == ctx.prop or True:
                    ctx.violation(f"scale {name}: call {i} {case['ops'][i]} answered {g}, specification {w}; "
                                  f"history {json.dumps(case['ops'][:i])[:400]}",
                                  {"case": case, "call": i, "want": w, "got": g, "owner": owner})
                break
    ctx.notes["differences_by_observing_call"] = mism


def record(ctx, path):
    """Code -> spec: random call histories on the real Book, validated by LOBTrace.tla."""
    rng = ctx.rng
    n = ctx.pick(150, 1500)
    payload = []
    for k in range(n):
        ids = rng.choice([4, 8, 20, 60])
        ops, ln = [], rng.choice([30, 60, 120])
        for _ in range(ln):
            z = rng.random()
            if z < 0.55:
                ops.append(["add", rng.randint(1, ids), rng.random() < 0.5, rng.choice([1, 2, 3, 10, 100, 5000]),
                            rng.choice([10, 11, 12, 13, 40, 10000]), rng.randint(0, 50)])
            elif z < 0.75:
                ops.append(["can", rng.randint(1, ids)])
            else:
                ops.append(["mkt", rng.choice([0, 1, 2, 5, 11, 99, 100, 101, 5003, 60000]), rng.random() < 0.5])
        payload.append({"ops": ops})
    # deep queues and wide books: hundreds of orders at one price, hundreds of price levels, swept by one order
    for k in range(ctx.pick(12, 80)):
        px = rng.choice([[10], [10, 11], list(range(10, 400)), list(range(1000, 1040))])
        ids = list(range(1, 501))
        rng.shuffle(ids)
        ops, live = [], []
        for _ in range(rng.choice([40, 150, 300])):
            i = ids.pop()
            ops.append(["add", i, rng.random() < (0.5 if k % 3 else 0.9), rng.choice([1, 2, 3, 10, 100]), rng.choice(px), rng.randint(0, 9)])
            live.append(i)
        for _ in range(rng.choice([3, 20, 60])):
            z = rng.random()
            if z < 0.4:
                ops.append(["can", rng.choice(live)])
            elif z < 0.6:
                ops.append(["add", rng.choice(live), rng.random() < 0.5, rng.choice([1, 7, 50]), rng.choice(px), 1])
            else:
                ops.append(["mkt", rng.choice([1, 40, 333, 1500, 5000]), rng.random() < 0.5])
        ops += [["mkt", 1000000, True], ["mkt", 1000000, False]] + [["add", i, True, 1, 5, 0] for i in rng.sample(live, 10)]
        payload.append({"ops": ops})
    # arrival order of a long queue, one order at a time: after each fill the id due must be free, the next one live
    for k in range(ctx.pick(16, 100)):
        q = rng.choice([5, 9, 17, 40, 90])
        ids = [i * rng.choice([1, 1, 7919]) for i in range(1, 2 * q + 1)]
        (ids.sort if k % 4 == 0 else (lambda: ids.sort(reverse=True)) if k % 4 == 1 else (lambda: rng.shuffle(ids)))()
        ids = list(dict.fromkeys(ids))[:q]
        side = rng.random() < 0.5
        ts = list(range(len(ids))); rng.shuffle(ts)
        sz = [rng.choice([1, 2, 3]) for _ in ids]
        ops = [["add", i, side, n, 50, t] for i, n, t in zip(ids, sz, ts)]
        rest = list(zip(ids, sz))
        for i in rng.sample(ids, len(ids) // 5):
            ops.append(["can", i])
            rest = [x for x in rest if x[0] != i]
        for j, (i, n) in enumerate(rest):
            ops.append(["mkt", n, not side])
            ops.append(["can", i])
            if j + 1 < len(rest):
                ops.append(["add", rest[j + 1][0], side, 1, 60, 0])
        payload.append({"ops": ops})
    res = vp.run_harness(ctx, path, payload)
    f = os.path.join(ctx.work, "traces.ndjson")
    keep = []
    with open(f, "w") as fh:
        for c, r in zip(payload, res):
            if "dead" in r or any(isinstance(a, dict) for a in r.get("res", [])):
                ctx.violation("panic or abort while recording", {"case": c, "got": r})
                continue
            fh.write(json.dumps({"t": [{"c": o, "a": a} for o, a in zip(c["ops"], r["res"])]}) + "\n")
            keep.append((c, r))
    if not keep:
        return
    cs = consts(["0"], ["0"], ["0"], ["0"], ["0"], 0, 0, "FALSE")
    t = vp.tlc(ctx, "LOBTrace", vp.cfg_text(spec="TSpec", constants=cs, invariants=("Done", "Stuck", "TIds"),
                                            properties=("Conserve",)),
               files={"traces.ndjson": f}, timeout=600, workers=1)
    done = {x["done"] for x in t.lines if "done" in x}
    stuck = {x["stuck"]: x for x in t.lines if "stuck" in x}
    for i, (c, r) in enumerate(keep, 1):
        if i in done:
            ctx.traces += 1
        else:
            st = stuck.get(i, {})
            at = st.get("at", 1)
            ctx.violation(f"recorded history rejected by the specification at call {at}: "
                          f"{c['ops'][at-1]} answered {r['res'][at-1]}, resting orders {st.get('book')}",
                          {"case": {"ops": c["ops"][:at]}, "answers": r["res"][:at], "spec": st})
    ctx.notes["recorded_histories_validated"] = len(done)


def run(ctx):
    b = vp.Build(ctx, "lob")
    beh = behaviours(ctx)
    cases = to_cases(beh)
    for _, x in beh:
        if any(e["c"][0] == "mkt" and e["a"][1] for e in x["h"]):
            ctx.nontriv(json.dumps([e["c"] for e in x["h"]]))
    ctx.sample({"behaviour": [e for e in beh[-1][1]["h"]][:25]})
    ctx.sample({"graph_behaviour": beh[len(beh) // 3][1]})
    path = b.get()
    replay(ctx, path, cases)
    record(ctx, path)
    return ctx.finish(
        "Each behaviour is a history of add/cancel/market calls generated by TLC from LOB.tla: every transition of "
        "the bounded state graph (with a shortest history leading to it) plus long random behaviours; each is replayed "
        "on the real Book twice, ending in a full market drain or a cancellation of all ids. Non-trivial: at least one "
        "market order in it trades. Random histories recorded from the real Book are validated against LOBTrace.tla.",
        exhaustive=False)
