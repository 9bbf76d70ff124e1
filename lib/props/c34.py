import itertools
import seq
from vf import hexs


def run(ctx):
    ctx.model_check("Mmap_A.tla", "Mmap_A.cfg")
    r = seq.rng(ctx)
    cases = []

    def files(): return " ".join(r.choice(["x", "-", "61", hexs(b"abc"), hexs(bytes(r.randrange(256) for _ in range(r.choice([2, 5, 40]))))] + [hexs(b"q" * r.choice([4095, 4096, 4097]))] * (r.random() < .03)) for _ in range(3))
    alpha = ["open 1 1 %d" % f for f in range(6)] + ["open 1 2 0", "open 2 1 0", "open 1 3 0", "close 1", "close 2", "del 1", "swap 1 2 m", "move 2 1 a", "move 1 2 c", "poke 1 1 200 i"]
    for n in (1, 2, 3):
        for x in itertools.product(alpha, repeat=n):
            if n < 3 or r.random() < ctx.scale(.15, 1): cases.append([hexs(b"ab") + " - x"] + list(x))
    for _ in range(ctx.scale(600, 12000)):
        c = [files()]
        for _ in range(r.choice([3, 8, 20])):
            a, b = r.randrange(1, 4), r.randrange(1, 4)
            k = r.random()
            if k < .45: c.append("open %d %d %d" % (a, b, r.choice([0, 0, 0, 0, 1, 2, 3, 4, 5])))
            elif k < .55: c.append("close %d" % a)
            elif k < .6: c.append("del %d" % a)
            elif k < .7: c.append("swap %d %d %s" % (a, b, r.choice("ms")))
            elif k < .8: c.append("move %d %d %s" % (a, b, r.choice("ac")))
            elif k < .92: c.append("poke %d %d %d %s" % (a, r.randrange(50), r.randrange(256), r.choice("ip")))
            else: c.append("write %d %d %d" % (a, r.randrange(50), r.randrange(256)))
        cases.append(c)
    exe = seq.build(ctx, "mmap", ["system/mmapper.cpp", "system/syscall.cpp"], flags=["-O1"])
    seq.check(ctx, "mmap", "Mmap_T", cases, exe=exe)
