import seq


def run(ctx):
    ctx.model_check("Rand_A.tla", "Rand_A.cfg")
    r = seq.rng(ctx)
    cmds, long_ = [], []
    for s in [0, 1, 5489, 0x7fffffff, 0x80000000, 0xffffffff] + [r.randrange(1 << 32) for _ in range(ctx.scale(2, 40))]:
        long_.append("mt %d %d %d" % (s >> 16, s & 65535, ctx.scale(1300, 2600)))
    H = [0, 1, 31, 32, 63, 64, 32767, 32768, 65504, 65535]
    W = lambda: "%d %d %d %d" % tuple(r.choice(H + [r.randrange(65536)]) for _ in range(4)) if r.random() < .8 else r.choice(["0 0 0 0", "65535 65535 65535 65535", "65535 65535 0 0", "0 0 65535 65535", "65535 65504 65535 65472"])
    for _ in range(ctx.scale(600, 8000)):
        cmds.append("real " + W()); cmds.append("word %s %d" % (W(), r.randrange(2)))
        n = r.choice([1, 2, 3, 5, 10, 100, 1000, 65535, 65536, 1 << r.randrange(32), (1 << 32) - 1, r.randrange(1, 1 << 32)])
        cmds.append("below %s %d %d %d" % (W(), n >> 16, n & 65535, r.randrange(2)))
        lo = r.choice([0, 1, 5, 65535, r.randrange((1 << 32) - 1)]); hi = min((1 << 32) - 1, lo + n)
        if lo < hi: cmds.append("between %s %d %d %d %d %d" % (W(), lo >> 16, lo & 65535, hi >> 16, hi & 65535, r.randrange(2)))
        lo = r.choice([0, 0, -5, 7, -1000, 100000]); cmds.append("realin %s %d %d %d" % (W(), lo, lo + r.choice([1, 3, 16, 1000, 1000000]), r.randrange(2)))
    for a in range(4):
        for b in range(8): cmds.append("gauss %d %d" % (a, b))
    for n in range(-1, ctx.scale(6, 7)):
        for k in range(-1, ctx.scale(6, 7)):
            if n <= 4 or k <= 4: cmds.append("with %d %d" % (n, k))
            cmds.append("without %d %d" % (n, k))
    for n in (1, 2, 10, 1000, 1 << 20, 2147483647):
        for k in (0, 1, 2, 9, 10, 500):
            cmds.append("big 1 %d %d %d" % (n, k, r.randrange(1000)))
            if k <= n: cmds.append("big 0 %d %d %d" % (n, k, r.randrange(1000)))
    cmds.append("big 0 500 500 3")
    r.shuffle(cmds)
    seq.check(ctx, "rand", "Rand_T", [[x] for x in long_] + [cmds[i:i + 10] for i in range(0, len(cmds), 10)], srcs=["math/random/mersenne_twister.cpp", "system/time_util.cpp"])
