import itertools
import seq
from vf import hexs


def run(ctx):
    ctx.model_check("Match_A.tla", "Match_A.cfg")
    r = seq.rng(ctx)
    ab = [bytes(x) for n in range(0, 6) for x in itertools.product(b"ab", repeat=n)]
    cmds = []
    for q in [x for x in ab if len(x) <= ctx.scale(3, 4)]:
        for t in ab:
            cmds.append("kmp %s %s %d" % (hexs(q), hexs(t), r.randrange(len(t) + 2)))
            cmds.append("kmp %s %s 0" % (hexs(q), hexs(t)))
    ws = [x for x in ab if len(x) <= 3]
    for _ in range(ctx.scale(3000, 60000)):
        cmds.append("ac %s %s" % (hexs(r.choice(ab)), " ".join(hexs(r.choice(ws)) for _ in range(r.randrange(5)))))

    def rs(n, al, lo=0):
        return bytes(r.choice(al) for _ in range(r.randint(lo, n)))
    for _ in range(ctx.scale(5000, 80000)):
        al = r.choice([b"ab", b"aab", b"abc", b"\x00a", b"\xffa\x80", bytes(range(256)), bytes(range(60, 130))])
        t = rs(r.choice([10, 30, 60]), al)
        if r.random() < .4:
            q = r.choice([rs(6, al), t[5:9], t[-4:], t[3:12], rs(3, al) * 3])
            cmds.append("kmp %s %s %d" % (hexs(q), hexs(t), r.choice([0, 0, 1, 2, len(t) // 2, len(t)])))
        else:
            k = r.choice([0, 1, 2, 3, 5, 9, 30])
            w = [r.choice([rs(5, al), rs(3, al), t[i:i + r.randrange(1, 6)] if t else b"a"]) for i in (r.randrange(len(t) + 1) for _ in range(k))]
            if w and r.random() < .4: w += [x[1:] for x in w] + [x[:-1] for x in w]
            cmds.append("ac %s %s" % (hexs(t), " ".join(hexs(x) for x in w)))
    # self-overlapping patterns, texts made of their pieces
    for _ in range(ctx.scale(4000, 60000)):
        al = r.choice([b"ab", b"abc", b"aab"])
        q = rs(5, al, 1)
        while len(q) < 14 and r.random() < .8: q += r.choice([q[:r.randrange(1, len(q) + 1)], bytes([r.choice(al)])])
        t = b""
        for _ in range(r.randrange(1, 6)):
            i, j = sorted((r.randrange(len(q) + 1), r.randrange(len(q) + 1)))
            t += r.choice([q[:j], q[i:], q[i:j], bytes([r.choice(al)]), q[:-1]])
        cmds.append("kmp %s %s %d" % (hexs(q), hexs(t), r.choice([0, 0, 0, 1, len(q) // 2])))
        if r.random() < .15: cmds.append("ac %s %s" % (hexs(t), " ".join(hexs(x) for x in [q] + [q[i:i + r.randrange(1, 8)] for i in (r.randrange(len(q)) for _ in range(4))] if x)))
    # nodes with the smallest and the largest characters, full nodes
    for d in (2, 20, 256):
        for e in ((0, 255), (0, 1, 254, 255), (255,), (0,)):
            fs = r.sample(range(256), d)
            ws2 = [bytes([x]) for x in fs] + [bytes([x, y]) for x in (fs if d < 256 else r.sample(fs, 30)) for y in e]
            r.shuffle(ws2)
            t = b"".join(r.choice(ws2) for _ in range(25))
            cmds.append("ac %s %s" % (hexs(t), " ".join(hexs(x) for x in ws2)))
    cases = [cmds[i:i + 10] for i in range(0, len(cmds), 10)]
    seq.check(ctx, "match", "Match_T", cases, srcs=["data/string/aho_corasick.cpp"])
