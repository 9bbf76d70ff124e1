import itertools
import seq
from vf import hexs


def run(ctx):
    r = seq.rng(ctx)
    cases = []
    ops = ["key2id", "peek", "nogen", "exkey", "size", "clear", "swap", "copy", "ser"]
    keys = [b"", b"a"]
    alpha = [(o, w, k) for o in ops for w in (1, 2) for k in (keys if o in ("key2id", "peek", "exkey") else [b"a"])]
    full = list(itertools.product(alpha, repeat=3))
    for c in (r.sample(full, 4000) if ctx.quick else full):
        cases.append(["key2id 1 62 0"] + ["%s %d %s %d" % (o, w, hexs(k), i) for i, (o, w, k) in enumerate(c)] + ["all 1 - 0", "all 2 - 0", "size 1 - 0", "size 2 - 0"])
    pool = [b"", b"a", b"b", b"\x00", b"\x00\x00", b"a\x00b", b"\xff", b"a" * 50] + [bytes([r.randrange(256) for _ in range(r.randrange(1, 4))]) for _ in range(30)]
    for _ in range(ctx.scale(2000, 30000)):
        ks = r.sample(pool, r.randint(1, 20))
        c = []
        for i in range(r.randint(5, 60)):
            o = r.choice(["key2id"] * 8 + ["peek", "nogen", "exkey", "exid", "id2key", "id2key", "size"] + (["swap", "copy", "ser", "clear"] if r.random() < .3 else []))
            c.append("%s %d %s %d" % (o, r.choice([1, 1, 2]), hexs(r.choice(ks)), r.randrange(-2, 25) if o == "exid" else r.randrange(50)))
        cases.append(c + ["all 1 - 0", "all 2 - 0"])
    for n in (40, 129, 257, 300) + ctx.scale((), (700, 1000)):
        for _ in range(2):
            c = ["key2id 1 %s 0" % hexs(b"k%d" % (j * j % (3 * n))) for j in range(n)]
            cases.append(c + ["all 1 - 0", "ser 1 - 0", "all 2 - 0", "key2id 2 %s 0" % hexs(b"new"), "size 2 - 0"] + ["peek 2 %s 0" % hexs(b"k%d" % (j * j % (3 * n))) for j in range(0, n, 9)])
    for n in (100, 256, 1000, 5000, 33000, 66000) + ctx.scale((), (300000,)):
        cases.append(["bulk 1 %s %d" % (hexs(b"p" * r.randrange(9)), n)])
    seq.check(ctx, "intern", "Intern_T", cases)
