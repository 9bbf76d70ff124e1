import base64
import seq
from vf import hexs


def run(ctx):
    ctx.model_check("Base64_A.tla", "Base64_A.cfg")
    r = seq.rng(ctx)
    cmds = []
    for a in range(256):
        for t in (bytes([a]), bytes([a, 255 - a]), bytes([7, a]), bytes([a, a, a]), bytes([3, a, 200]), bytes([a, 0, 1, a])):
            cmds.append("enc " + hexs(t)); cmds.append("dec " + base64.b64encode(t).hex())
        for p in range(4):   # every byte at every place of a group, first and second group
            t = bytearray(b"QUJD"); t[p] = a
            cmds += ["dec " + hexs(bytes(t)), "dec " + hexs(b"QUJD" + bytes(t)), "dec " + hexs(bytes(t) + b"QUJD")]
    for n in range(0, 70):
        t = bytes(r.randrange(256) for _ in range(n))
        cmds += ["enc " + hexs(t), "dec " + hexs(base64.b64encode(t))]
        cmds += ["dec " + hexs(base64.b64encode(t)[:-k]) for k in (1, 2, 3)]
    for _ in range(ctx.scale(4000, 60000)):
        t = bytes(r.choice([0, 255, r.randrange(256), r.randrange(256)]) for _ in range(r.randrange(40)))
        e = base64.b64encode(t)
        cmds.append("enc " + hexs(t)); cmds.append("dec " + hexs(e))
        if e and r.random() < .5:
            m = bytearray(e); m[r.randrange(len(m))] = r.choice([61, 45, 95, 10, 32, 0, 255, r.randrange(256)])
            cmds.append("dec " + hexs(bytes(m)))
    for n in (40, 1000, 10000, 21845, 21846, 21847, 65535, 65536, 65537) + ctx.scale((), (1 << 20, 1 << 22)):
        for m in (3, 6):
            cmds.append("rep %s %d %s" % (hexs(bytes(r.randrange(256) for _ in range(m))), n, hexs(bytes(r.randrange(256) for _ in range(r.randrange(4))))))
    cases = [cmds[i:i + 10] for i in range(0, len(cmds), 10)]
    seq.check(ctx, "base64", "Base64_T", cases, srcs=["data/encoding/base64.cpp"])
