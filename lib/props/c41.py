import itertools
import seq
from vf import hexs


def run(ctx):
    ctx.model_check("Sys_A.tla", "Sys_A.cfg")
    r = seq.rng(ctx)
    cases = []

    def tail():
        x = r.random()
        if x < .75: return hexs(r.choice([b"XXXXXX", b"aXXXXXX", b"XXXXXXXXXXXX", b"b.XXXXXX", b"x\xffXXXXXX"]))
        return hexs(r.choice([b"", b"X", b"XXXXX", b"abcdef", b"XXXXXXa", b"aXXXXX", b"XXXXXx", b"xxxxxx"]))

    def text(): return hexs(bytes(r.randrange(256) for _ in range(r.choice([0, 1, 2, 5, 30]))) if r.random() < .97 else bytes([r.randrange(256)]) * r.choice([1023, 1024, 4096, 8191, 8192, 8193]))
    for _ in range(ctx.scale(700, 12000)):
        c = []
        for _ in range(r.choice([2, 6, 15, 25])):
            k, x = r.randrange(1, 4), r.random()
            if x < .3: c.append("tmp %d %s %d %d %d" % (k, tail(), r.random() < .93, r.random() < .93, r.random() < .25))
            elif x < .55: c.append("put %d %d %s %d" % (k, r.randrange(60), text(), r.randrange(2)))
            elif x < .65: c.append("flush %d" % k)
            elif x < .8: c.append("get %d %d %d" % (k, r.randrange(60), r.choice([0, 1, 5, 100, 9000])))
            elif x < .9: c.append("del %d" % k)
            else: c.append("size %d" % r.randrange(9))
        cases.append(c)
    cmds = ["bigsize %d" % n for n in (1, 65536, 2147483647, 2147483648, 4294967295, 4294967296, 4294967301, 1 << 40)]
    S = ["-1 1", "-1 0", "0 1", "0 0", "7 1", "-5 1", "2147483647 0", "-2 0"]
    for n in (0, 1, 2, 3):
        for x in itertools.product(S, repeat=n):
            if n < 3 or r.random() < ctx.scale(.3, 1): cmds.append("intr " + " ".join(x + ("3 0",)))
    cmds.append("intr " + "-1 1 " * 400 + "4 0")
    for n in list(range(0, 140)) + [-1, 999, 4095, 100000, 2147483647, -2147483647]: cmds.append("err %d" % n)
    D = lambda: r.choice(["0", "1", "12", "999", "2147483", "2147483647", "2147483648", "4294967295", "4294967296", "9007199254", "%d" % r.randrange(10 ** r.randrange(1, 13))])
    for _ in range(ctx.scale(400, 6000)):
        ns = [n for n in range(1, 10) if n in (1, 2, 3) and r.random() < .93 or n > 3 and r.random() < .6]
        if r.random() < .5: r.shuffle(ns)
        cmds.append("stat %d %s" % (r.choice([0, 1, 5, 99, 100, 101, 12345, r.randrange(100000)]), " ".join("%d %s %d" % (n, D(), r.random() < .93) for n in ns)))
    for _ in range(ctx.scale(200, 3000)):
        cmds.append("perr %s %d %d %s" % (hexs(r.choice([b"", b"a.txt", b"x:y", b"\xe3\x81\x82"])), r.choice([0, 1, -1, 9, 10, 2147483647, r.randrange(100000)]), r.choice([0, 1, -1, 99, -2147483647, r.randrange(100000)]), hexs(r.choice([b"", b"bad", b"a b: c"]))))
    r.shuffle(cmds)
    cases += [cmds[i:i + 10] for i in range(0, len(cmds), 10)]
    exe = seq.build(ctx, "sys", ["system/file.cpp", "system/syscall.cpp", "system/sysstat.cpp"], flags=["-O1"])
    seq.check(ctx, "sys", "Sys_T", cases, exe=exe)
