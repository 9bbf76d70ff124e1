import seq


def run(ctx):
    ctx.model_check("Numeric_A.tla", "Numeric_A.cfg")
    r = seq.rng(ctx)
    J = lambda v: " ".join("%d" % x for x in v)
    cmds = []
    for k, n in [(0, 2), (0, 3), (0, 4)] + [(1, n) for n in range(2, 11)]:
        for _ in range(ctx.scale(60, 1500)):
            x = [r.choice([0, 1, -1, 7, -5, r.randrange(-1000, 1000)]) for _ in range(n)]; y = list(x) if r.random() < .5 else [r.randrange(-1000, 1000) for _ in range(n)]
            if r.random() < .7: y[r.randrange(n)] += r.choice([-1, 1, 100])
            cmds.append("vec %d %d %d %s" % (k, n, r.choice([1, -1, 3, -7, 100]), J(x + y)))
        for i in range(n):   # each component on its own
            x = [0] * n; x[i] = r.choice([1, -3]); y = [0] * n; y[(i + r.randrange(n)) % n] = 2
            for d in (-1, 1):   # the first difference decides the order, whatever follows
                u = [r.randrange(-9, 10) for _ in range(n)]; v = u[:i] + [u[i] + d] + [c - d * r.choice([0, 1, 1]) for c in u[i + 1:]]
                cmds.append("vec %d %d 3 %s" % (k, n, J(u + v)))
            cmds.append("vec %d %d 5 %s" % (k, n, J(x + y))); cmds.append("geo %d %d 2 %s" % (k, n, J(x + y)))
        for _ in range(ctx.scale(15, 400)):
            x, y = [[r.randrange(-6, 7) for _ in range(n)] for _ in range(2)]
            if any(x) and any(y): cmds.append("geo %d %d %d %s" % (k, n, r.choice([1, 2]), J(x + y)))
    shapes = [(1, w) for w in (1, 2, 4, 8, 16)] + [(h, w) for h in (2, 4, 8) for w in (1, 2, 4, 8) if h * w <= 32]
    shapes += [(2, 16), (16, 1), (16, 2)]
    for h, w in shapes:
        for d in (1, -1):
            for how in (0, 1, 2, 3, 4):
                if how in (1, 2) and h > 1: continue
                for _ in range(ctx.scale(3, 40)):
                    x = [r.choice([0, 0, r.randrange(-9, 10)]) if r.random() < .3 else r.randrange(-9, 10) for _ in range(2 * h * w)]
                    cmds.append("fft %d %d %d %d %d %s" % (r.random() < .2, h, w, d, how, J(x)))
    for h, w in ((1, 3), (1, 6), (1, 12), (3, 4), (4, 3), (3, 3), (2, 6)):
        for d in (1, -1):
            for how in (0, 3, 4): cmds.append("fft 0 %d %d %d %d %s" % (h, w, d, how, J(r.randrange(9) for _ in range(2 * h * w))))
    for n in (1, 2, 4, 8, 16, 32, 64, 128, 256, 1024) + ctx.scale((), (4096, 16384)):
        for k in range(2): cmds.append("trip %d %d %s" % (n, k, J(r.randrange(-500, 500) for _ in range(n))))
        for f in (range(n) if n <= 32 else r.sample(range(n), 12)): cmds.append("tone %d %d" % (n, f))
    for n in (4096, 65536, 131072):
        for f in (1, n // 2 + 3, n - 1): cmds.append("tone %d %d" % (n, f))
    for n in (1, 2, 4, 8, 16, 32, 64) + ctx.scale((), (128, 256)):
        for _ in range(3): cmds.append("conv %d %s" % (n, J(r.randrange(-20, 20) for _ in range(2 * n))))
    for n in (0, 3, 5, 6, 7, 9, 12, 31, 33, 1023):
        for k in range(2): cmds.append("odd 0 %d %d" % (n, k))
    for n, p in ((8, 3), (7, 2), (6, 4), (5, 4), (12, 4), (16, 6), (9, 3)): cmds.append("odd 1 %d %d" % (n, p))
    for i in range(4):
        for n in (0, 1, 2, 3, 5, 8): cmds.append("odd 2 %d %d" % (i, n))
    r.shuffle(cmds)
    seq.check(ctx, "numeric", "Numeric_T", [cmds[i:i + 10] for i in range(0, len(cmds), 10)])
