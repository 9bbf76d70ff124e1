import itertools
import seq
from vf import hexs


def run(ctx):
    ctx.model_check("Config_A.tla", "Config_A.cfg")
    r = seq.rng(ctx)
    cmds = []
    L = lambda t: "load %s %s" % (r.choice("sssf"), hexs(t))
    al = b'a=[];" \n'
    for n in range(0, ctx.scale(5, 6)):
        for x in itertools.product(al, repeat=n): cmds.append([L(bytes(x))])
    names = [b"a", b"b", b"", b"a b", b"x;y", b"\xe3\x81\x82", b"k[0]", b"key"]

    def ws(): return bytes(r.choice(b" \t") for _ in range(r.choice([0, 0, 1, 2])))

    def line():
        k = r.random()
        if k < .2: x = b"[" + ws() + r.choice(names) + ws() + b"]"
        elif k < .35: x = r.choice([b";", b"; c", b";[a]", b";a=b", b"", b"# a=b", b"#=b", b"//a=b"])
        elif k < .93:
            v = b"".join(bytes([r.choice(b"ab=;[]\" \t'\xff0\\")]) for _ in range(r.choice([0, 1, 2, 4])))
            x = r.choice(names) + ws() + b"=" + ws() + (v if r.random() < .6 else b'"' + v + b'"')
        else: x = r.choice([b"junk", b"[a", b"[a]x", b"[a] ; c", b"]", b"# c", b"#", b"//x", b"! c"])
        return ws() + x + ws() + r.choice([b"", b"", b"\r"])
    for _ in range(ctx.scale(2500, 40000)):
        c = []
        for _ in range(r.choice([1, 1, 2])):
            t = b"\n".join(line() for _ in range(r.randrange(12)))
            if r.random() < .7: t += b"\n"
            c.append(L(t))
            for _ in range(r.randrange(6)):
                s, k = hexs(r.choice(names)), hexs(r.choice(names))
                c.append(r.choice(["get %s %s" % (s, k), "get %s %s" % (s, k), "find %s %s" % (s, k), "ref %s %s" % (s, k), "set %s %s %s" % (s, k, hexs(r.choice(names)))]))
            c.append("dump 0 0")
        cmds.append(c)
    for c in range(1, 256):   # every character at every place
        b = bytes([c])
        if c == 10: continue
        for t in (b + b"k=v", b"k" + b + b"=v", b"k=" + b + b"v", b"k=v" + b, b"[" + b + b"s]\na=b", b"[s" + b + b"]\na=b", b"[s]" + b + b"\na=b", b'k="v' + b + b'"', b"k=v" + b + b"w"):
            cmds.append([L(t)])
    for n in (127, 128, 255, 256, 511, 1023, 1024, 4095, 4096, 4097) + ctx.scale((5000,), (8192, 16384)):
        for t in (b"k = " + b"v" * n, b"k" * n + b" = v", b"[" + b"s" * n + b"]\na=b", b";" + b"c" * n + b"\nx=y", b" " * n + b"a=b", b'a="' + b" " * n + b'"', b"junk" + b"j" * n):
            cmds.append([L(b"a=1\n" + t + b"\nb=2\n"), "get - 62", "get - 61", "dump 0 0"])
    flat, cases = [], []
    for c in cmds:
        if len(c) == 1: flat.append(c[0])
        else: cases.append(c)
    cases += [flat[i:i + 8] for i in range(0, len(flat), 8)]
    seq.check(ctx, "config", "Config_T", cases, srcs=["data/config_file.cpp"])
