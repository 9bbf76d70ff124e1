import itertools
import seq


def bl(op, v, k):
    n = v.bit_length()
    if op == "word": return k
    if op == "gamma": return 2 * n - 1
    if op == "delta": return 2 * n.bit_length() - 1 + n - 1
    if op == "rice": return bl("delta", (v >> k) + 1, 0) + k
    if op == "byte": return 8
    return 8 * max(1, (n + 6) // 7)


def case(r, items, seeks):
    c, pos, at = [], [], 0
    for op, v, k in items:
        c.append("put %s %d %d" % (op, v, k))
        pos.append(at)
        if op in ("byte", "prefix"): at += -at % 8
        at += bl(op, v, k)
    c.append("bytes")
    c.append("open " + r.choice(["mem", "stream", "stream", "file"] if r.random() < .2 else ["mem", "stream"]))
    g = ["get %s %d" % (op, k) for op, v, k in items]
    c += g
    if seeks:
        for _ in range(3):
            i = r.randrange(len(items))
            if pos[i] == at: continue
            c.append("seek %d %d" % (pos[i] // 8, pos[i] % 8))
            c += g[i:i + r.randint(1, 4)]
    return c


def run(ctx):
    ctx.model_check("Code_A.tla", "Code_A.cfg")
    r = seq.rng(ctx)
    M = 2 ** 32 - 1
    sp = sorted({x for n in range(0, 33) for x in (2 ** n - 1, 2 ** n, 2 ** n + 1) if x <= M})

    def item(op):
        v = r.choice(sp) if r.random() < .6 else r.randrange(2 ** r.randint(1, 32))
        k = 0
        if op == "word": k = r.choice([0, 1, 2, 7, 8, 9, 15, 16, 17, 24, 25, 31, 32, r.randint(0, 32)])
        if op in ("gamma", "delta"): v = max(v, 1)
        if op == "rice":
            k = r.choice([0, 1, 2, 5, 8, 16, 30, 31])
            if (v >> k) == M: v -= 1
        if op == "byte": v &= 255
        return (op, v, k)
    kinds = ["word", "gamma", "delta", "rice", "byte", "prefix"]
    cases = []
    for off in range(8):           # every code of every special value at every bit offset
        for v in sp:
            for op in kinds:
                if op in ("gamma", "delta") and v == 0: continue
                ks = {"word": [v.bit_length(), 32], "rice": [0, 3, 31]}.get(op, [0])
                for k in ks:
                    if op == "rice" and (v >> k) == M: continue
                    if op == "byte" and v > 255: continue
                    if ctx.quick and r.random() < .5: continue
                    cases.append(case(r, [("word", r.randrange(256), off), (op, v, k), ("word", 5, 3), (r.choice(["gamma", "byte", "prefix"]), 77, 0)], False))
    for _ in range(ctx.scale(3000, 60000)):
        ks = r.choice([kinds, kinds, ["word"], ["byte", "word"], ["prefix", "gamma"], ["rice", "delta"]])
        c = case(r, [item(r.choice(ks)) for _ in range(r.randint(1, 14))], True)
        while r.random() < .25 and not any(x == "open mem" for x in c):
            k = len(c) - r.randrange(0, 4)
            c = (c[:k] if all(x.startswith(("get", "seek")) for x in c[k:]) else c) + r.choice([[], ["detach"], ["nofile"]]) + ["again"] + case(r, [item(r.choice(ks)) for _ in range(r.randint(1, 8))], True)
        cases.append(c)
    seq.check(ctx, "code", "Code_T", cases, srcs=["data/code/code.cpp", "system/file.cpp", "system/endian_util.cpp"])
