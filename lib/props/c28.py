import itertools
import seq
from vf import hexs


def wide(cs):
    return "".join("%04x" % c for c in cs) or "-"


def run(ctx):
    ctx.model_check("StrUtil_A.tla", "StrUtil_A.cfg")
    r = seq.rng(ctx)
    A = [bytes(x) for n in range(0, 5) for x in itertools.product(b" ab", repeat=n)]
    P = [x for x in A if len(x) <= 2]
    cmds = []
    for s in A:
        cmds += ["%s b %s" % (o, hexs(s)) for o in ("strip", "lstrip", "rstrip")]
        for p in P:
            cmds.append("splits b %s %s" % (hexs(s), hexs(p)))
            cmds.append("starts b %s %s" % (hexs(s), hexs(p)))
            cmds.append("ends b %s %s" % (hexs(s), hexs(p)))
            cmds.append("replace b %s %s %s" % (hexs(s), hexs(p), hexs(r.choice(P + [p + b"c", b"aab"]))))
            if len(p) == 1: cmds.append("split b %s %s" % (hexs(s), hexs(p)))
    # every byte value at every end, wide characters included
    for c in range(256):
        for t in (bytes([c]), bytes([c, 97, c]), bytes([32, c, 32]), bytes([97, c, 98])):
            cmds += ["%s b %s" % (o, hexs(t)) for o in ("strip", "lstrip", "rstrip")]
            cmds.append("split b %s %s" % (hexs(t), hexs(bytes([c]))))
    for c in list(range(0, 300)) + [0x3000, 0x2003, 0x85, 0xa0, 0x120, 0x10d, 0x220, 0x1009, 0x8020, 0xff20, 0xffff, 0x3042] + [r.randrange(65536) for _ in range(ctx.scale(300, 20000))]:
        cmds += ["%s w %s" % (o, wide(t)) for o in ("strip", "lstrip", "rstrip") for t in ((c,), (c, 97, c), (32, c, 32))]
        cmds.append("split w %s %s" % (wide((97, c, c, 98)), wide((c,))))

    def rs(n, al):
        return bytes(r.choice(al) for _ in range(r.randrange(n + 1)))
    for _ in range(ctx.scale(3000, 60000)):
        al = r.choice([b"ab", b"a", b"abc \t\n", bytes(range(256)), b"\x00\xff\x80a"])
        w = r.random() < .3
        f = (lambda b: wide([(x * 257) & 0xffff if x > 127 else x for x in b])) if w else hexs
        k = "w" if w else "b"
        s, p, q = rs(24, al), rs(r.choice([1, 2, 4]), al), rs(5, al)
        o = r.randrange(6)
        if o == 0: cmds.append("splits %s %s %s" % (k, f(s), f(p)))
        elif o == 1: cmds.append("replace %s %s %s %s" % (k, f(s), f(p), f(q)))
        elif o == 2: cmds.append("join %s %s %s" % (k, f(p), " ".join(f(rs(4, al)) for _ in range(r.choice([0, 1, 2, 3, 4, 5, 6, 7, 9, 16])))))
        elif o == 3: cmds.append("%s %s %s %s" % (r.choice(["starts", "ends"]), k, f(s), f(r.choice([s[:3], s[-3:], p, s + b"a"]))))
        elif o == 4: cmds.append("%s %s %s" % (r.choice(["strip", "lstrip", "rstrip"]), k, f(rs(3, b" \t\n\r\v\f") + s + rs(3, b" \t\n\r\v\f"))))
        elif p: cmds.append("split %s %s %s" % (k, f(s), f(p[:1])))
    for t in ["0", "-0", "+5", " 12", "12 ", "", " ", "-", "+", "x", "x1", "007", "2147483647", "2147483648", "-2147483648", "-2147483649",
              "9223372036854775807", "9223372036854775808", "-9223372036854775808", "-9223372036854775809", "99999999999999999999999", "\t\n42", "--1", "+-1", "1e3", "1.5"] + \
            [r.choice(["", "-", "+", " "]) + str(r.randrange(10 ** r.randint(1, 19))) + r.choice(["", "", " ", "x"]) for _ in range(ctx.scale(300, 5000))]:
        cmds += ["s2int " + hexs(t), "s2long " + hexs(t)]
    lim = [0, 1, -1, 32767, 32768, -32768, -32769, 65536, 2**31 - 1, 2**31, -2**31, -2**31 - 1, 2**32, 2**32 + 5, 2**63 - 1, -2**63]
    for v in lim + [r.randrange(-2**r.choice([8, 16, 31, 33, 63]), 2**r.choice([8, 16, 31, 33, 63])) for _ in range(200)]:
        cmds += ["l2int " + hexs(str(v)), "l2short " + hexs(str(v))]
    for _ in range(ctx.scale(400, 4000)): cmds.append("same " + hexs(rs(12, r.choice([b"a b", b" \t\n", bytes(range(256)), b"ab\x00"]))))
    for s in (b"", b"a", b"ab", b"ab\x00"):
        for p in (b"\x00", b"a\x00", b"ab\x00", b"ab\x00\x00", b"\x00ab", b"\x00\x00ab", b"ab\x00c"):
            cmds += ["starts b %s %s" % (hexs(s), hexs(p)), "ends b %s %s" % (hexs(s), hexs(p))]
    cases = [cmds[i:i + 12] for i in range(0, len(cmds), 12)]
    seq.check(ctx, "strutil", "StrUtil_T", cases, srcs=["data/string/ustring.cpp"])
