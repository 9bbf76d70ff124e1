import itertools
import seq
from vf import hexs


def run(ctx):
    ctx.model_check("Uri_A.tla", "Uri_A.cfg")
    r = seq.rng(ctx)
    cmds = []
    P = lambda t: cmds.append("parse " + hexs(t))
    al = b"a1:/?#@[]%."
    for n in range(0, 5):
        for x in itertools.product(al, repeat=n):
            if n < 4 or r.random() < ctx.scale(.35, 1): P(bytes(x))
    # tokens of a URI, any order
    tok = [b"http", b"a+b", b":", b"//", b"/", b"?", b"#", b"@", b"%41", b"%4", b"%", b"%zz", b"u", b"80", b"[::1]", b"[", b"]", b"::", b"1.2.3.4", b"256", b"a.b", b"~", b"&=", b";", b" ", b"\x80", b"\xff", b"^", b"<", b"v1.x"]
    for _ in range(ctx.scale(6000, 120000)):
        P(b"".join(r.choice(tok) for _ in range(r.randrange(1, 9))))

    def name(k=6, extra=b""):
        cs = b"abzAZ019-._~!$&'()*+,;=" + extra
        return b"".join(r.choice([bytes([r.choice(cs)])] * 6 + [b"%%%02x" % r.randrange(256), b"%%%02X" % r.randrange(256)]) for _ in range(r.randrange(k + 1)))

    def h16(): return b"".join(bytes([r.choice(b"0123456789abcdefABCDEF")]) for _ in range(r.choice([1, 2, 3, 4, 4, 4] + [5] * (r.random() < .05))))

    def v4(): return b".".join(b"%d" % r.choice([0, 1, 9, 10, 99, 100, 199, 200, 249, 250, 255, r.randrange(256), r.randrange(256)] + [256, 300, 999] * (r.random() < .05)) for _ in range(4 if r.random() < .95 else r.choice([3, 5])))

    def v6():
        last = lambda: v4() if r.random() < .25 else h16()
        if r.random() < .3:
            n = r.choice([8, 8, 8, 7, 9])
            g = [h16() for _ in range(n - 1)]
            if r.random() < .3: return b":".join(g[:n - 2] + [v4()])
            return b":".join(g + [h16()])
        a, b = r.randrange(10), r.randrange(8)
        if r.random() < .7: b = min(b, max(0, 7 - a))
        L = b":".join(h16() for _ in range(a)); R = [h16() for _ in range(max(0, b - 1))] + ([last()] if b else [])
        return L + b"::" + b":".join(R)

    def host():
        k = r.random()
        if k < .3: return b"[" + v6() + b"]"
        if k < .4: return b"[v" + (b"" if r.random() < .1 else h16()) + (b"" if r.random() < .05 else b".") + name(4, b":") + b"]"
        if k < .6: return v4() + r.choice([b"", b"", b".", b".com", b"5", b"x"])
        return name(8)
    for _ in range(ctx.scale(8000, 160000)):
        t = b""
        if r.random() < .8: t += r.choice([b"http", b"ftp", b"a", b"a1", b"x+y-z.0", b"1a", b"h_t"]) + b":"
        if r.random() < .85:
            t += b"//"
            if r.random() < .35: t += name(5, b":") + b"@"
            t += host()
            if r.random() < .4: t += b":" + r.choice([b"", b"80", b"65536", b"8a", b"00001"])
        for _ in range(r.randrange(4)): t += b"/" + name(4, b":@")
        if r.random() < .3: t += r.choice([b"", b"/"]) + name(3, b":@")
        if r.random() < .4: t += b"?" + name(6, b":@/?")
        if r.random() < .4: t += b"#" + name(6, b":@/?")
        if r.random() < .12 and t:
            i = r.randrange(len(t)); t = t[:i] + bytes([r.choice(b" %<>\"{}|\\^`[]#?@/:\x01\x7f\x80\xff")]) + t[i + r.randrange(2):]
        P(t)
    cmds = [c for c in cmds if "00" not in [c.split()[1][i:i + 2] for i in range(0, len(c.split()[1]), 2)] and "5b56" not in c]
    for n in range(0, 3):
        for x in itertools.product([0, 9, 32, 37, 43, 48, 65, 126, 128, 255], repeat=n):
            cmds.append("enc " + hexs(bytes(x)))
    for c in range(256):
        cmds.append("enc %02x" % c); cmds.append("enc 61%02x62" % c); cmds.append("dec " + hexs(b"%%%02x" % c)); cmds.append("dec " + hexs(b"x%%%02Xy" % c)); cmds.append("dec %02x" % c)
        cmds.append("dec " + hexs(b"a%" + bytes([c]) + b"1")); cmds.append("dec " + hexs(b"a%1" + bytes([c])))
    for _ in range(ctx.scale(1500, 30000)):
        n = r.choice([1, 2, 3, 5, 9, 30])
        cmds.append("enc " + hexs(bytes(r.randrange(256) for _ in range(n))))
        cmds.append("dec " + hexs(b"".join(r.choice([b"+", b"%", b"%2", b"%2f", b"%C3", bytes([r.randrange(256)])]) for _ in range(n))))
    r.shuffle(cmds)
    seq.check(ctx, "uri", "Uri_T", [cmds[i:i + 20] for i in range(0, len(cmds), 20)], srcs=["network/uri.cpp"])
