import itertools
import seq


def run(ctx):
    ctx.model_check("Holder_A.tla", "Holder_A.cfg")
    r = seq.rng(ctx)
    cases = []
    OO = ["oset", "ovalue", "oconv", "oconvnone", "oreset", "oassign", "ocopy", "oswap", "opoke", "ocmp"]
    AA = ["aset", "areset", "aassign", "acopy", "aswap", "acast"]
    SS = ["snew", "sassign", "sreset", "sswap", "spoke", "sself", "scast", "wset", "wassign", "wreset", "wlock", "wctor"]
    PP = ["pnew", "preset", "pswap", "ppoke", "pself"]
    VAL = {"oset", "ovalue", "oconv", "opoke", "aset", "snew", "spoke", "pnew", "ppoke"}

    def cmd(op, n=3, fault=True):
        i = r.randrange(1, n + 1)
        j = r.randrange(1, 12) if op in VAL else r.randrange(4) if op == "acast" else r.randrange(1, n + 1)
        t = r.randrange(3) if op in ("aset", "opoke") else r.randrange(4) if op == "scast" else r.randrange(2)
        f = 0
        if fault and r.random() < .25 and op in ("oset", "ovalue", "oassign", "ocopy", "aassign", "acopy") or op == "aset" and t == 2 and r.random() < .25: f = 1 + (r.random() < .2)
        if op == "oset" and f: t = 0
        return "%s %d %d %d %d" % (op, i, j, t, f)
    # all short sequences over two slots per holder
    for G, n in ((OO, 3), (AA, 3), (SS, 3), (PP, 4)):
        for x in itertools.product(G, repeat=n):
            for _ in range(ctx.scale(1, 6)): cases.append([cmd(op, 2) for op in x])
    for _ in range(ctx.scale(1500, 40000)):
        G = r.choice([OO, AA, SS, SS, PP, OO + AA + SS + PP])
        cases.append([cmd(r.choice(G), r.choice([1, 2, 3])) for _ in range(r.choice([4, 8, 15, 30]))])
    seq.check(ctx, "holder", "Holder_T", cases)
