import itertools
import seq


def run(ctx):
    ctx.model_check("Lru_A.tla", "Lru_A.cfg")
    r = seq.rng(ctx)
    cases = []
    ops = ["has", "get", "set", "touch", "remove", "index", "assign"]
    # every sequence of 3 (4) operations over 2 (3) keys, then a full look at the cache
    for cap, nk, n in ((1, 2, 3), (2, 3, 3)) if ctx.quick else ((1, 2, 4), (2, 3, 4)):
        alpha = [(o, k) for o in ops for k in range(nk)] + [("clear", 0)]
        full = list(itertools.product(alpha, repeat=n))
        if ctx.quick and len(full) > 6000:
            full = r.sample(full, 6000)
        elif len(full) > 150000:
            full = r.sample(full, 150000)
        for c in full:
            cases.append(["new %d %d" % (cap, nk)] + ["%s %d %d" % (o, k, i + 1) for i, (o, k) in enumerate(c)] +
                         ["keys 0 0"] + ["has %d 0" % k for k in range(nk)] + ["set 9 9"] + ["has %d 0" % k for k in range(nk)])
    for _ in range(ctx.scale(2500, 40000)):
        cap, nk = r.choice([1, 2, 3, 4, 7]), r.choice([2, 4, 6, 10])
        c = ["new %d %d" % (cap, nk)]
        for i in range(r.randint(5, 60)):
            o = r.choice(ops + ["set", "get", "index", "keys"])
            if r.random() < .02: o = "clear"
            c.append("%s %d %d" % (o, r.randrange(nk), i + 1))
        c += ["has %d 0" % k for k in range(nk)]
        cases.append(c)
    # long histories: the order of use must not wrap around
    for n in (100, 255, 256, 300, 1000, 32768, 65535, 65536, 65537, 70000) + ctx.scale((), (1000000, 5000000)):
        for _ in range(ctx.scale(6, 20)):
            cap, nk = r.choice([2, 3, 4]), 6
            c = ["new %d %d" % (cap, nk)] + ["set %d %d" % (k, k) for k in range(cap)]
            for i in range(r.randint(1, 4)):
                c.append("touchn %d %d" % (r.randrange(nk), max(1, n + r.randint(-cap - 1, 1))))
                for j in range(r.randint(1, 5)): c.append("%s %d %d" % (r.choice(["set", "get", "index", "touch", "set"]), r.randrange(nk), 100 + i))
                c += ["has %d 0" % k for k in range(nk)]
            cases.append(c)
    seq.check(ctx, "lru", "Lru_T", cases)
