import seq
from vf import hexs

NUM = {"bool": (0, 1), "c": (-128, 127), "i8": (-128, 127), "u8": (0, 255), "i16": (-2**15, 2**15 - 1), "u16": (0, 2**16 - 1), "i32": (-2**31, 2**31 - 1),
       "u32": (0, 2**32 - 1), "i64": (-2**63, 2**63 - 1), "u64": (0, 2**64 - 1), "ll": (-2**63, 2**63 - 1), "ull": (0, 2**64 - 1)}
ALL = list(NUM) + "f32 f64 f80 str wstr vi vs lu dl ls ds si ss usi uss msi mis umsi umiv pis rec arr vrec mvp vvi strm fstm".split()


def val(r, t):
    if t in NUM:
        lo, hi = NUM[t]
        return str(r.choice([lo, hi, 0, 1, max(lo, -1), r.randint(lo, hi), min(hi, 255), min(hi, 256), min(hi, 65535)]))
    if t == "big": return str(r.randrange(256))
    if t in ("f32", "f64", "f80"): return r.choice(["0", "-0", "1.5", "-2.25e30", "inf", "nan", "1e-300", "0.1", "1.18973149535723176502e+4932" if t == "f80" else "3", "-3.1415926535897932385", str(r.random())])
    if t in ("str", "wstr", "strm", "fstm"):
        if r.random() < .05: return hexs(bytes([97]) * r.choice([255, 256, 300]))
        return hexs(bytes(r.choice([0, 255, 254, 97, 128, r.randrange(256)]) for _ in range(r.choice([0, 0, 1, 2, 3, 7]))))
    def many(*ts):
        n = r.choice([0, 1, 2, 3, 4])
        return " ".join([str(n)] + [val(r, x) for _ in range(n) for x in ts])
    if t == "pis": return val(r, "i32") + " " + val(r, "str")
    if t == "arr": return " ".join(val(r, "u32") for _ in range(3))
    if t == "rec": return " ".join([val(r, "i16"), val(r, "str"), val(r, "vi")])
    return many(*{"vi": ["i32"], "vs": ["str"], "lu": ["u16"], "dl": ["i64"], "ls": ["str"], "ds": ["str"], "si": ["i32"], "ss": ["str"], "usi": ["i32"], "uss": ["str"], "msi": ["str", "i32"],
                  "mis": ["i32", "str"], "umsi": ["str", "i32"], "umiv": ["i32", "vi"], "vrec": ["rec"], "mvp": ["str", "vps"], "vps": ["u8", "str"], "vvi": ["vi"]}[t])


def run(ctx):
    ctx.model_check("Serial_A.tla", "Serial_A.cfg")
    r = seq.rng(ctx)
    cmds = []
    for t in ALL:
        for _ in range(ctx.scale(25, 400)):
            cmds.append("t 1 %s %s" % (t, val(r, t)))
            if t not in ("strm", "fstm"): cmds.append("o 2 %s %s %s %s" % (t, val(r, t), t, val(r, t)))
            if t not in NUM and t not in ("f32", "f64", "f80", "pis", "rec", "arr", "strm", "fstm") and r.random() < .3: cmds.append("h 1 %s %s" % (t, val(r, t)))
    for _ in range(ctx.scale(1200, 20000)):
        n = r.randint(2, 5)
        cmds.append("%s %d %s" % (r.choice("wwt"), n, " ".join("%s %s" % (t, val(r, t)) for t in (r.choice(ALL) for _ in range(n)))))
    for _ in range(ctx.scale(4, 40)): cmds.append("w 2 big %s i16 %s" % (val(r, "big"), val(r, "i16")))
    r.shuffle(cmds)
    cases = [cmds[i:i + 4] for i in range(0, len(cmds), 4)]
    seq.check(ctx, "serial", "Serial_T", cases)
