import itertools
import seq


def run(ctx):
    ctx.model_check("Fenwick_A.tla", "Fenwick_A.cfg")
    r = seq.rng(ctx)
    cases = []
    for n in range(1, ctx.scale(40, 140)):      # every size: one update, all prefixes; then the next
        c = ["new %d 0" % n]
        for k in range(n):
            c.append("inc %d %d" % (k, k * k - 7))
            c += ["pre %d 0" % a for a in range(-1, n)] if n <= 12 else ["pre %d 0" % a for a in {k, max(k - 1, 0), min(k + 1, n - 1), n - 1}]
        cases.append(c)
    for _ in range(ctx.scale(2500, 40000)):
        n = r.choice([1, 2, 3, 4, 7, 8, 9, 15, 16, 17, 31, 33, 64, 100])
        c = ["new %d 0" % n]
        for _ in range(r.randint(3, 50)):
            o = r.random()
            if o < .5: c.append("inc %d %d" % (r.randrange(n), r.randint(-50, 50)))
            elif o < .7: c.append("pre %d 0" % r.randrange(-1, n))
            else:
                a = r.randrange(n); c.append("rng %d %d" % (a, r.randrange(a - 1, n)))
        cases.append(c)
    for n in (127, 128, 255, 256, 257, 1000, 4097, 32768, 40000, 65537) + ctx.scale((), (65536, 100000)):   # wide index ranges
        for _ in range(ctx.scale(1, 4)):
            c = ["new %d 0" % n]
            for _ in range(25):
                a = r.choice([0, 1, n - 1, n // 2, n // 2 + 1, r.randrange(n), r.randrange(n)])
                o = r.random()
                if o < .5: c.append("inc %d %d" % (a, r.randint(-5000, 5000)))
                elif o < .75: c.append("pre %d 0" % a)
                else: c.append("rng %d %d" % (a, r.randrange(a - 1, n)))
            cases.append(c)
    seq.check(ctx, "fenwick", "Fenwick_T", cases)
