import itertools
import seq


def run(ctx):
    ctx.model_check("Sparse_A.tla", "Sparse_A.cfg")
    r = seq.rng(ctx)
    B = [0, 1, 2, 125, 126, 127, 128, 129, 16382, 16383, 16384, 16385, 2097150, 2097151, 2097152, 268435454, 268435455, 268435456, 2147483645, 2147483646]

    def row(small):
        n = r.choice([0, 0, 1, 1, 2, 3, 6, 20])
        k = r.random()
        if small: cols = set(r.randrange(r.choice([3, 12, 150, 300])) for _ in range(n))
        elif k < .4: cols = set(r.choice(B) for _ in range(n))
        elif k < .6:
            c, cols = -1, set()
            for _ in range(n):
                c += max(1, r.choice(B[:17]))
                if c > 2147483646: break
                cols.add(c)
        else: cols = set(r.randrange(1 << r.randrange(1, 31)) for _ in range(n))
        return " ".join("%d %d" % (c, r.choice([1, 2, 127, 128, 255, r.randrange(1, 256)])) for c in sorted(cols))

    def mode(): return r.choice(["v 0", "v 0", "v 3", "m", "u"])
    cases = []
    # every small matrix, written and read back, transposed and back
    for n in range(0, 4):
        for m in itertools.product(range(8), repeat=n):
            c = ["wopen 0"] + [("wrow v " + " ".join("%d %d" % (j, 1 + j + 7 * i) for j in range(3) if x >> j & 1)) for i, x in enumerate(m)]
            c += ["wclose", "trans 0 1 %d" % r.choice([0, 20, 40, 60, 1000]), "ropen 1", "rnum"] + ["rget %d v 0" % i for i in range(3)] + ["trans 1 2 1000", "ropen 2"] + ["rget %d m" % i for i in range(n)]
            cases.append(c)
    for _ in range(ctx.scale(700, 14000)):
        c, busy, nr, size = [], None, 0, {}
        allsmall = r.random() < .5
        for _ in range(r.choice([4, 10, 25, 40])):
            k = r.random()
            if k < .12:
                if busy is not None: size[busy] = cur
                busy = r.randrange(3); cur = 0; c.append("wopen %d" % busy)
            elif k < .45: c.append("wrow %s %s" % (r.choice("mv"), row(allsmall))); cur = (cur + 1) if busy is not None else 0
            elif k < .5: c.append("wnum")
            elif k < .6:
                c.append(r.choice(["wclose", "wdel"]))
                if busy is not None: size[busy] = cur
                busy = None
            elif k < .7:
                f = r.choice([x for x in range(5) if x != busy]); c.append("ropen %d" % f); nr = size.get(f, 3)
                c.append("rnum")
                for i in range(min(nr, 6)): c.append("rget %d %s" % (i, mode()))
            elif k < .8: c.append("rget %d %s" % (r.randrange(nr + 1), mode()))
            elif k < .85: c.append("rsize %d" % r.randrange(nr + 1))
            elif k < .88: c.append("rnum")
            elif k < .90: c.append("rclose")
            elif k < .93:
                f = r.choice([x for x in range(5) if x != busy]); c.append("count %d %d" % (f, r.choice([-1, -2, -2147483648, 2147483647, 1 << 28, 1 << 20]))) if r.random() < .3 else c.append("cut %d %d" % (f, r.choice([1, 4, 7, 8, 9, 100]))); size.pop(f, None)
            elif allsmall:
                fs = [x for x in range(5) if x != busy]; f, t = r.sample(fs, 2); c.append("trans %d %d %d" % (f, t, r.choice([0, 20, 60, 200, 100000])))
                if f in size: size[t] = 5
                for i in range(3): c.append("ropen %d" % t) if i == 0 else c.append("rget %d v 0" % i)
        cases.append([x.strip() for x in c])
    for R, n, st, tr in [(3000, 9, 200, 0), (20000, 3, 5, 0), (300, 200, 7, 0), (1, 70000, 3, 0), (2, 33000, 1, 0), (70000, 1, 1, 0), (260, 3, 5, 200), (700, 40, 3, 3000), (40, 300, 1, 1000)] + ctx.scale([], [(200000, 5, 5000, 0), (3, 300000, 40, 0), (5000, 60, 3, 40000)]):
        cases.append(["big %d %d %d %d" % (R, n, st, tr)])
    seq.check(ctx, "sparse", "Sparse_T", cases, srcs=["data/sparse_matrix/sparse_matrix.cpp", "data/code/code.cpp", "system/file.cpp"])
