"""C17: Seqs.tla and Fourier.tla against Sequence and the Fourier transforms."""
import cmath, math
from lib import vp

INTS = {"i8": (-128, 127), "i16": (-2**15, 2**15 - 1), "i32": (-2**31, 2**31 - 1), "i64": (-2**63, 2**63 - 1),
        "u8": (0, 255), "u16": (0, 2**16 - 1), "u32": (0, 2**32 - 1), "u64": (0, 2**64 - 1), "usize": (0, 2**64 - 1)}


def seq_cases(ctx, lines):
    cases = []
    for n, c in enumerate(lines):
        m = c[0]
        for t in list(INTS) + ["f64", "f32"]:
            if t in INTS:
                lo, hi = INTS[t]
                flat = [v for x in c[1:] for v in (x if isinstance(x, list) else [x])]
                top = c[2] + c[3] if m == "seq" else 0
                if min(flat, default=0) < lo or max(flat + [top]) > hi:
                    continue
                if m == "lin" and (c[2] - c[1] > hi or c[3] - 1 > hi):      # the width and the number of steps are numbers of the type
                    continue
                sc = 1
            else:
                sc = ctx.rng.choice([1, 0.25, 0.125, 2])
            a = dict(seq=lambda: [c[1] * sc, c[2] * sc, c[3] * sc], lin=lambda: [c[1] * sc, c[2] * sc, c[3]],
                     refuse=lambda: [c[1] * sc, c[2] * sc, c[3]], rep=lambda: [c[1] * sc, c[2]], cum=lambda: [[v * sc for v in c[1]]])[m]()
            cases.append(({"k": "seqs", "t": t, "m": m, "a": a}, None if m == "refuse" else [v * sc for v in c[-1]]))
    # steps that are not exactly representable: the same lengths and ends up to rounding
    for c in lines:
        if c[0] == "lin":
            sc = ctx.rng.choice([0.1, 1 / 3, 0.7, 1e-3])
            cases.append(({"k": "seqs", "t": "f64", "m": "lin", "a": [c[1] * sc, c[2] * sc, c[3]]}, [v * sc for v in c[-1]]))
        if c[0] == "seq":      # the end half a step beyond the last element
            sc = ctx.rng.choice([0.1, 1 / 3, 0.7, 1e-3])
            s = c[-1]
            cases.append(({"k": "seqs", "t": "f64", "m": "seq", "a": [c[1] * sc, (s[-1] + c[3] / 2) * sc, c[3] * sc]}, [v * sc for v in s]))
    return cases


def run(ctx):
    b = vp.Build(ctx, "mathx")

    def ft(n, vals, sim, **k):
        o = {"FTMC.tla": "---- MODULE FTMC ----\nEXTENDS Fourier\nVV == {" + ", ".join("<<%d, %d>>" % v for v in vals) + "}\n====\n"}
        inv = ["Emit", "Radix2"] + (["Inverse", "Parseval"] if n <= 16 else [])
        return vp.tlc(ctx, "FTMC", vp.cfg_text(constants=dict(N=n, Vals="<- VV", Sim="TRUE" if sim else "FALSE"), invariants=inv),
                      overrides=o, name=f"dft{n}", **k).lines
    V = [(0, 0), (1, 0), (-2, 1), (0, 3)]
    W = [(a, c) for a in (-4, -1, 0, 1, 3, 9) for c in (-5, 0, 0, 2)]
    W = sorted(set(W))
    so = {"SQMC.tla": "---- MODULE SQMC ----\nEXTENDS Seqs\nSt == {-7, -1, 0, 1, 4, 100}\nCV == {-3, 0, 2, 5}\n====\n"}
    jobs = [lambda: vp.tlc(ctx, "SQMC", vp.cfg_text(constants=dict(Starts="<- St", Spans=set(range(0, 13)) | {50, 99, 130, 400}, Steps={1, 2, 3, 5, 7}, Lens={1, 2, 3, 4, 5, 8, 13, 70, 130, 257},
                           Vals="<- CV", SumLen=ctx.pick(4, 6)), invariants=("Emit", "Ends")), overrides=so, name="seqs", workers=2).lines]
    jobs += [lambda n=n: ft(n, V, False, workers=2) for n in (1, 2, 4)]
    jobs += [lambda n=n, k=k: ft(n, W, True, simulate=k, depth=3) for n, k in ((8, ctx.pick(40, 400)), (16, ctx.pick(15, 150)), (32, ctx.pick(3, 20)), (64, ctx.pick(1, 4)))]
    sq, *fts = vp.par(*jobs)
    path = b.get()
    cases = seq_cases(ctx, sq)
    w = {n: [cmath.exp(2j * math.pi * j / max(n, 4)) for j in range(max(n, 4) // 2)] for n in (1, 2, 4, 8, 16, 32, 64)}
    num = lambda c, n: sum(a * z for a, z in zip(c, w[n]))
    for lines in fts:
        for d in lines:
            n = len(d["x"])
            X = [num(c, n) for c in d["X"]]
            re = None if any(v[1] for v in d["x"]) else X
            cases.append(({"k": "fourier", "x": d["x"]}, X))
            if re is None:        # the real transform of the real part: X(real) is the even part of X
                pass
    # arbitrary amplitudes: the transform of impulses at every place is specified above, by linearity every input is
    for n in (1, 2, 4, 8, 16, 32, 64, 128, 256, 1024, 8192):
        root = [cmath.exp(-2j * math.pi * j / n) for j in range(n)]
        for rep in range(ctx.pick(3, 30) if n < 1024 else 2):
            sparse = n > 64
            unit = ctx.rng.choice([1, 1, 1e-12, 1e-5, 1e9, 1e150])
            x = [(0.0, 0.0)] * n
            for m in (ctx.rng.sample(range(n), 3) if sparse else range(n)):
                x[m] = (unit * ctx.rng.uniform(-1, 1) * 10 ** ctx.rng.randrange(-2, 3), unit * ctx.rng.uniform(-1, 1) if rep % 2 else 0.0)
            nz = [m for m in range(n) if x[m] != (0.0, 0.0)]
            cases.append(({"k": "fourier", "x": x}, [sum(complex(*x[m]) * root[m * k % n] for m in nz) for k in range(n)]))
    for n in (0, 3, 5, 6, 7, 9, 12, 15, 17, 31, 33, 48, 100, 127, 129, 1000, 1023, 1025, 2047, 4097, 8191, 16385, 65537):
        cases.append(({"k": "fourier", "x": [[1.0, 0.5]] * n}, None))
    for (c, e), r in zip(cases, vp.run_harness(ctx, path, [c for c, _ in cases])):
        if "skipped" in r:
            continue
        ctx.traces += 1
        why = None
        if "dead" in r:
            why = str(r)
        elif c["k"] == "seqs":
            ctx.nontriv(c["t"] + c["m"])
            if e is None:
                why = None if "panic" in r else f"must be refused, got {r['v']}"
            else:
                g = r.get("v")
                tol = 1e-5 if c["t"] == "f32" else 1e-11
                good = g is not None and len(g) == len(e) and all(abs(x - y) <= tol * max(map(abs, e)) for x, y in zip(g, e))
                why = None if good else f"must be {e}, got {r}"
        else:
            ctx.nontriv("fft" + str(len(c["x"])))
            if e is None:
                if r["valid"] or not all("panic" in r[k] for k in ("c", "ci", "r", "ri")):
                    why = f"length {len(c['x'])} must be refused"
            else:
                sc = 1e-12 * sum(math.hypot(*v) for v in c["x"]) * 4
                n = len(e)
                # real part of the input: X^re(k) = (X(k) + conj X(-k)) / 2
                er = [abs((e[k] + e[-k % n].conjugate()) / 2) for k in range(n)]
                flat = [v for z in e for v in (z.real, z.imag)]
                for k, t in (("c", flat), ("ci", flat), ("r", er), ("ri", er)):
                    if not isinstance(r[k], list) or len(r[k]) != len(t) or any(not isinstance(x, (int, float)) or abs(x - y) > sc + 1e-300 for x, y in zip(r[k], t)):
                        why = why or f"{k}: transform of {c['x'][:8]} (length {n}) must be {t[:8]}.., got {r[k][:8] if isinstance(r[k], list) else r[k]}"
                if not r["valid"]:
                    why = f"length {n} is a power of two"
        if why:
            ctx.violation(f"{c.get('m', 'fourier')} {c.get('t', '')} {c.get('a', '')}: {why}", {"case": c, "got": r})
    ctx.sample({"case": cases[0][0]})
    return ctx.finish("All progressions, repetitions and running sums over small integers in eleven number types; every Fourier transform of length up to 4 over four "
                      "Gaussian integers, random ones up to length 64 exactly, up to 1024 by linearity from impulses; refused lengths.")
