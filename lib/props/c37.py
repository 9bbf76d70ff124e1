import conc
import seq
from concurrent.futures import ThreadPoolExecutor
from vf import hexs


def run(ctx):
    ctx.model_check("Md5_A.tla", "Md5_A.cfg")
    r = seq.rng(ctx)
    cmds = []

    def msg(n): return bytes(r.choice([0, 255, 128, r.randrange(256), r.randrange(256), r.randrange(97, 123)]) for _ in range(n))
    for n in list(range(0, 132)) + [183, 184, 191, 192, 247, 248, 255, 256, 257, 511, 512, 1000, 1023, 1024]:
        for _ in range(2):
            k = r.randrange(8); t = msg(n)
            cmds.append("sum %d %s" % (k, hexs(t)) if k != 7 else "sum 0 " + hexs(t))
    for k in range(7):
        for n in (0, 1, 3, 55, 56, 57, 63, 64, 65, 119, 120, 128): cmds.append("sum %d %s" % (k, hexs(msg(n))))
    for _ in range(ctx.scale(200, 4000)): cmds.append("sum %d %s" % (r.randrange(7), hexs(msg(r.randrange(200)))))
    cmds.append("sum 1 " + hexs(bytes(8200))); cmds.append("sum 0 " + hexs(b"\xff" * 8191)); cmds.append("sum 3 " + hexs(msg(ctx.scale(3000, 40000))))
    W = lambda: [r.choice([0, 1, 32767, 32768, 65535, r.randrange(65536)]) for _ in range(8)]
    for _ in range(ctx.scale(1500, 15000)):
        a = W(); b = list(a) if r.random() < .6 else W()
        if r.random() < .8: b[r.randrange(8)] = r.choice([0, 1, 32768, 65535])
        cmds.append("less " + " ".join("%d" % x for x in a + b))
    for _ in range(ctx.scale(400, 4000)):
        a = [r.choice([0, 1, 10, 255, 256, 4096, r.randrange(65536)]) for _ in range(8)]
        cmds.append("print " + " ".join("%d" % x for x in a) + " %d" % (r.choice([0, 1, 2, 3]) | r.choice([0, 4, 64]) | r.choice([0, 8, 16, 32, 128, 255 - 64 - 4])))
    r.shuffle(cmds)
    seq.check(ctx, "md5", "Md5_T", [cmds[i:i + 10] for i in range(0, len(cmds), 10)], srcs=["data/digest/md5.cpp"])
    # messages of more than 2^32 bits and of more than 2^32 bytes
    fast = ctx.build("md5big", ["s_md5.cpp"], ["data/digest/md5.cpp"], flags=["-O2"], plain=["seq_main.cpp"])
    seq.check(ctx, "md5big", "Md5_T", [["zeros %d" % n] for n in (536870912, 536870915, 4294967301)], exe=fast, shards=1, per_case_s=250)
    # threads at work at once; a process of its own for each run, as only the first calls of a process may set up tables
    exe = conc.build(ctx, "md5", ["data/digest/md5.cpp"])
    with ThreadPoolExecutor(8) as ex:
        res = list(ex.map(lambda k: ctx.drive_conc(exe, ["rand", ctx.seed * 10000 + k, 1, 4, 4]), range(ctx.scale(100, 3000))))
    lines = sorted(set(x for r_ in res for x in r_))
    ctx.validate("Md5_L.tla", "Md5_L.cfg", lines, label="md5 in threads")
