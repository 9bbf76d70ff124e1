import itertools
import seq


def f(x):
    return ",".join(map(str, x)) or "-"


def run(ctx):
    ctx.model_check("SeqAlg_A.tla", "SeqAlg_A.cfg")
    r = seq.rng(ctx)
    S = [x for n in range(0, 4) for x in itertools.product((97, 98, 99), repeat=n)]
    cmds = []
    for a in S:
        for b in S if not ctx.quick else r.sample(S, 14):
            cmds += ["ed s %s %s" % (f(a), f(b)), "lcs s %s %s" % (f(a), f(b))]
    for n in range(0, 6):
        for a in itertools.product((1, 2, 3), repeat=n):
            cmds.append("lis %s %s" % (r.choice("sudli"), f(a)))
    for _ in range(ctx.scale(3000, 40000)):
        al = r.choice([(97, 98), (97, 98, 99, 100), tuple(range(1, 100)), (-2147483648, 2147483647, 0, -1), (-5, -3, 0, 3, 5)])
        k = r.choice("sudli") if al[0] > 0 else r.choice("dli")
        a = [r.choice(al) for _ in range(r.randrange(14))]
        b = list(a) if r.random() < .4 else [r.choice(al) for _ in range(r.randrange(14))]
        for _ in range(r.randrange(3)):
            if b: b.pop(r.randrange(len(b)))
            b.insert(r.randrange(len(b) + 1), r.choice(al))
        cmds += ["ed %s %s %s" % (k, f(a), f(b)), "lcs %s %s %s" % (k, f(a), f(b)), "lis %s %s" % (k, f(a + b if r.random() < .5 else b))]
    # long against short, and long lists
    for n in (127, 128, 255, 256, 257, 300) + ctx.scale((), (600, 1000)):
        for m in range(4):
            a = [r.choice((97, 98)) for _ in range(n)]; b = [r.choice((97, 98, 99)) for _ in range(m)]
            if r.random() < .5: a, b = b, a
            k = r.choice("sudli")
            cmds += ["ed %s %s %s" % (k, f(a), f(b)), "ed %s %s %s" % (k, f(b), f(a)), "lcs %s %s %s" % (k, f(a), f(b)), "lcs %s %s %s" % (k, f(b), f(a))]
        cmds.append("lis %s %s" % (r.choice("dli"), f(r.choice([list(range(1, n)), list(range(n, 0, -1)), [1] * n, [x // 2 for x in range(1, n)], [r.randrange(1, 9) for _ in range(60)]]))))
    seq.check(ctx, "seqalg", "SeqAlg_T", [cmds[i:i + 10] for i in range(0, len(cmds), 10)])
