import itertools
import seq


def run(ctx):
    ctx.model_check("Time_A.tla", "Time_A.cfg")
    r = seq.rng(ctx)
    cmds = []
    S = [0, 1, 2, 5, 1999, 1000000000, -1, -7]
    U = [0, 1, 499999, 500000, 999999]
    UX = U + [1000000, 1000001, -1, -999999, -1000000, 2500000, -3000001, 100000000]
    for a, b in itertools.product(itertools.product([0, 1, 5], UX), repeat=2):
        for op in ("sum", "diff"):
            if r.random() < ctx.scale(.5, 1): cmds.append("%s %d %d %d %d" % ((op,) + a + b))
    for a, b in itertools.product(itertools.product([0, 1, 2, 1000000000], U), repeat=2): cmds.append("less %d %d %d %d" % (a + b))
    for _ in range(ctx.scale(500, 5000)):
        cmds.append("%s %d %d %d %d" % (r.choice(["sum", "diff"]), r.choice(S), r.choice(UX), r.choice(S), r.choice(UX)))
        cmds.append("dbl %d %d 0 0" % (r.choice([r.randrange(2000), r.randrange(2000000000)]), r.choice(U + [r.randrange(1000000)])))
        cmds.append("now %d %d %d" % (r.randrange(2000000000), r.randrange(1000000), r.random() < .1))
    # calendar: year ends, leap days, zone changes, epochs
    import datetime
    ep = datetime.date(1970, 1, 1)
    D = lambda y, m, d: (datetime.date(y, m, d) - ep).days
    days = []
    for y in (1902, 1969, 1970, 1971, 1999, 2000, 2001, 2023, 2024, 2037, 2038, 2039, 2099, 2100, 2101, 2400, 9999):
        for m, d in ((1, 1), (2, 28), (3, 1), (6, 30), (12, 31)): days.append(D(y, m, d))
        if y % 4 == 0 and (y % 100 or y % 400 == 0): days.append(D(y, 2, 29))
    secs = [0, 1, 59, 60, 3599, 3600, 43200, 86399]
    for d in days:
        for z in (0, 1, 2): cmds.append("cal %d %d %d %d" % (z, d, r.choice(secs), r.choice(U)))
    for y in [1971, 1987, 1999, 2000, 2007, 2023, 2024, 2028, 2099, 2100, 2199] + ctx.scale([], list(range(2001, 2060))):
        for z, ms in ((3, (3, 11)), (4, (4, 10))):
            for m in ms:
                for d in range(1, 16):
                    wd = datetime.date(y, m, d).weekday()
                    if wd == 6 or r.random() < .15:
                        for h in range(0, 5):
                            cmds.append("named %d %d %d %d %d %d %d %d" % (z, y, m, d, h, r.choice([0, 30, 59]), r.choice([0, 59]), r.choice(U)))
                        base = D(y, m, d)
                        for h in (5, 6, 7, 8, 15, 16, 17):
                            for s in (-1, 0, 1):
                                cmds.append("cal %d %d %d %d" % (z, base - (z == 4), h * 3600 + s, r.choice(U)))
    for _ in range(ctx.scale(3000, 60000)):
        z = r.randrange(5); lo, hi = (1971, 2499) if z > 2 else (1902, 9999)
        y = r.randrange(lo, hi)
        cmds.append("cal %d %d %d %d" % (z, D(y, 1, 1) + r.randrange(365), r.choice(secs + [r.randrange(86400)]), r.randrange(1000000)))
        if r.random() < .5: f = (y, r.randrange(1, 13), r.randrange(1, 29), r.randrange(24), r.randrange(60), r.randrange(60))
        else: f = (y, r.choice([-13, 0, 1, 2, 12, 13, 25, r.randrange(1, 13)]), r.choice([-40, 0, 1, 29, 30, 31, 32, 400]), r.choice([-25, 0, 23, 24, 49]), r.choice([-61, 0, 59, 60, 1000]), r.choice([-1, 0, 59, 60, 61, 100000]))
        if z > 2 and not 1973 <= y <= 2490: continue
        cmds.append("named %d %s %d" % (z, " ".join("%d" % v for v in f), r.randrange(1000000)))
    R = [-30, -12, -7, -4, -1, 0, 1, 2, 3, 6, 8, 9, 30, 97]
    for op in range(5):
        for n1, d1, n2, d2 in itertools.product(R, repeat=4):
            if not d1 or not d2 or r.random() > ctx.scale(.04, .5): continue
            al = r.random() < .2
            if op == 3 and not (n1 if al else n2): continue
            t = r.randrange(3)
            k = 1 if t == 0 else r.choice([1, -1, 1000003, 4294967296, 2147483648, 1 << 52, 999999999989])
            cmds.append("ratio %d %d %d %d %d %d %d %d" % (op, n1, d1, n2, d2, al, t, k))
    for _ in range(ctx.scale(600, 6000)):
        n1, d1, n2, d2 = [r.choice([-1, 1]) * r.randrange(1, 9999) for _ in range(4)]
        cmds.append("ratio %d %d %d %d %d %d %d %d" % (r.randrange(5), n1, d1, n2, d2, r.random() < .2, 1 + r.randrange(2), 1))
    # large parts that cancel: the result fits although the naive products do not
    for _ in range(ctx.scale(400, 4000)):
        b1, b2, p, q = r.randrange(50000, 90000), r.randrange(50000, 90000), r.choice([1, 2, 3]), r.choice([1, 2, 5])
        n1, n2 = r.choice([-1, 1]) * r.randrange(1, 40), r.choice([-1, 1]) * r.randrange(1, 40)
        op = r.randrange(4)
        if op < 2: v = (n1, b1 * p, n2, b1 * q)
        elif op == 2: v = r.choice([(n1 * b1, b2 * p, n2 * b2, b1 * q), (b1, b2 * p, -b2, q), (-b1 * q, p, b2, b1 * 7)])
        else: v = (n1 * b1, b2 * p, n2 * b1, b2 * q)
        cmds.append("ratio %d %d %d %d %d 0 %d 1" % ((op,) + v + (r.randrange(2),)))
    r.shuffle(cmds)
    # while other threads convert other instants
    for _ in range(ctx.scale(16, 100)): cmds.append("calt %d %d %d %d %d" % (r.randrange(5), D(r.randrange(1975, 2030), 1, 1) + r.randrange(365), r.randrange(86400), r.choice(U), r.randrange(1000000000, 1900000000)))
    seq.check(ctx, "time", "Time_T", [cmds[i:i + 20] for i in range(0, len(cmds), 20)], srcs=["system/time_util.cpp"])
