import itertools
import seq
from vf import hexs


def run(ctx):
    ctx.model_check("Bytes_A.tla", "Bytes_A.cfg")
    r = seq.rng(ctx)
    cmds = ["host", "const"]
    E = [0, 1, 127, 128, 255]
    J = lambda v: " ".join("%d" % x for x in v)
    for k in range(11):
        n = [1, 1, 1, 2, 2, 4, 4, 8, 8, 8, 8][k]
        pats = list(itertools.product(E, repeat=n)) if n <= 2 else [tuple(r.choice(E + [r.randrange(256)]) for _ in range(n)) for _ in range(ctx.scale(150, 3000))]
        if n > 2:
            for i in range(n):
                for x in (1, 128, 255): pats.append(tuple(x if j == i else 0 for j in range(n))); pats.append(tuple(255 - x if j == i else 255 for j in range(n)))
        for p in pats: cmds.append("int %d %s" % (k, J(list(p) + [0] * (8 - n))))
    for n in (1, 2, 3, 4, 5, 6, 7, 8, 12, 16):
        for _ in range(ctx.scale(12, 200)): cmds.append("raw %d %s" % (n, J(r.randrange(256) for _ in range(16))))
    N = [0, 1, 9, 10, 99, 100, 127, 128, 199, 200, 249, 250, 254, 255]
    for _ in range(ctx.scale(1000, 15000)):
        a = [r.choice(N + [r.randrange(256)]) for _ in range(4)]; b = list(a)
        for _ in range(r.randrange(3)): b[r.randrange(4)] = r.choice(N)
        cmds.append("quad " + J(a)); cmds.append("cmp " + J(a + b))
    def part():
        x = r.random()
        if x < .6: return "%d" % r.choice(N)
        if x < .75: return "%d" % r.choice([256, 257, 260, 300, 511, 512, 999, 1000, 65535, 65536, 65537, 2147483647, 2147483648, 4294967295, 4294967296, 4294967297, 4294967551, 1 << 63, (1 << 64) + 1, 10 ** 25])
        if x < .83: return "0" * r.randrange(1, 12) + "%d" % r.choice(N + [256])
        if x < .9: return "-%d" % r.choice(N + [4294967295, 1 << 40])
        return r.choice(["", "a", "1a", "+1", " 1", "1 ", "0x1", "--1", "1e1", ",", "1,2", "\x00", "1\x00", "\xff"])
    for _ in range(ctx.scale(2500, 40000)):
        t = ".".join(part() for _ in range(r.choice([4, 4, 4, 4, 4, 4, 3, 2, 1, 5, 0])))
        cmds.append("parse " + hexs(t.encode("latin-1")))
    r.shuffle(cmds)
    seq.check(ctx, "bytes", "Bytes_T", [cmds[i:i + 10] for i in range(0, len(cmds), 10)], srcs=["system/endian_util.cpp", "network/ipv4.cpp"])
