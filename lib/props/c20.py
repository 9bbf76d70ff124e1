import itertools
import seq
from vf import hexs


def run(ctx):
    ctx.model_check("Csv_A.tla", "Csv_A.cfg")
    r = seq.rng(ctx)
    cmds = []
    P = lambda t, *more: cmds.append(" ".join(["%d" % r.randrange(9), hexs(t)] + list(more)))
    al = b'a",\r\n'
    for n in range(0, ctx.scale(6, 7)):
        for x in itertools.product(al, repeat=n):
            if n < 5 or r.random() < .6: P(bytes(x))

    def field():
        k = r.random()
        body = bytes(r.choice([97, 98, 32, 0, 255, 39, 9, 44, 10, 13, 34, r.randrange(256)]) for _ in range(r.choice([0, 1, 2, 3, 8])))
        if k < .5: return b'"' + body.replace(b'"', b'""') + b'"'
        return bytes(c for c in body if c not in b'",\r\n')
    for _ in range(ctx.scale(2000, 40000)):
        t = b"".join(b",".join(field() for _ in range(r.choice([1, 1, 2, 3, 5]))) + r.choice([b"\n", b"\r\n"]) for _ in range(r.choice([1, 2, 3, 6])))
        if r.random() < .3: t = t.rstrip(b"\r\n")
        if r.random() < .2 and t: i = r.randrange(len(t)); t = t[:i] + bytes([r.choice(al)]) + t[i + r.randrange(2):]
        P(t)
    # rows around the sizes at which the row buffer grows
    for base in (1024, 2048) + ctx.scale((), (4096, 8192)):
        for d in range(-6, 7):
            n = base + d
            for mode in range(9):
                cmds.append("%d 61 %d" % (mode, n))                       # one field
                cmds.append("%d 61 %d %s" % (mode, n, hexs(b",b,\n,c")))    # grows while other fields exist
                cmds.append("%d %s 1 %s" % (mode, hexs(b'x,yy,"' + b"a" * (n - 8) + b'""b"\r\n'), hexs(b"z,w\n")))
            cmds.append("%d %s %d" % (r.randrange(9), hexs(b"abc,"), n // 4))
            cmds.append("%d 2c %d" % (r.randrange(9), n))
    r.shuffle(cmds)
    cases = [cmds[i:i + 8] for i in range(0, len(cmds), 8)]
    seq.check(ctx, "csv", "Csv_T", cases, srcs=["text/csv.cpp"])
