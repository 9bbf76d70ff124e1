import seq
from vf import hexs
from props import jgen

KEYS = [b"a", b"b", b"", b"name of it"]
NEAR = {  # words of a value of the type, given a source of nested values
    "int": lambda r: "i%d" % r.choice([0, 1, -1, 7, 2**31 - 1, -2**31, 99999, r.randrange(-9999, 9999)]),
    "long": lambda r: "i%d" % r.choice(jgen.I64),
    "ll": lambda r: "i%d" % r.choice(jgen.I64),
    "dbl": lambda r: r.choice(["d" + jgen.flt(r, 9), "i%d" % r.randrange(-1000, 1000), "d0.5", "d-2.5e3"]),
    "flt": lambda r: r.choice(["d0.5", "d-2.25", "i7", "i-3", "d1048576.5"]),
    "bool": lambda r: r.choice("tf"),
    "str": lambda r: "s" + hexs(jgen.s(r, 4)),
    "json": lambda r: jgen.val(r, 2),
}


def arr(r, f, n=4):
    m = r.randrange(n)
    return " ".join(["a%d" % m] + [f(r) for _ in range(m)])


def mp(r, f, keys=KEYS):
    ks = r.sample(keys, r.randrange(len(keys) + 1))
    return " ".join(["o%d" % len(ks)] + ["k%s %s" % (hexs(k), f(r)) for k in ks])


def st(r, fields, drop=.05):
    ks = [k for k in fields if r.random() >= (.3 if k == b"o" else drop)]
    r.shuffle(ks)
    if r.random() < .2: ks.append(b"extra")
    return " ".join(["o%d" % len(ks)] + ["k%s %s" % (hexs(k), fields[k](r) if k in fields else "i5") for k in ks])


def noise(p, f):
    return lambda r: jgen.val(r, 1) if r.random() < p else f(r)


def shapes(p, q):
    b = {k: noise(p, v) for k, v in NEAR.items()}
    vs = noise(p, lambda r: arr(r, b["str"]))
    oint = noise(p, lambda r: r.choice(["n", b["int"](r)]))
    inner = noise(p, lambda r: st(r, {b"a": b["int"], b"v": vs}, q))
    mint = noise(p, lambda r: mp(r, b["int"]))
    b.update(vint=noise(p, lambda r: arr(r, b["int"])), mint=mint, umint=mint, oint=oint,
             vvs=noise(p, lambda r: arr(r, vs)), mvb=noise(p, lambda r: mp(r, lambda r: arr(r, b["dbl"]))),
             inner=inner, vinner=noise(p, lambda r: arr(r, inner)), oinner=noise(p, lambda r: r.choice(["n", inner(r)])),
             void=noise(p, lambda r: arr(r, oint)),
             outer=noise(p, lambda r: st(r, {b"num": b["int"], b"name of it": b["str"], b"flag": b["bool"], b"d": b["dbl"], b"o": oint, b"in": inner, b"m": mint}, q)))
    return b


def run(ctx):
    ctx.model_check("JsonVal_A.tla", ctx.scale("JsonVal_A.cfg", "JsonVal_AT.cfg"))
    r = seq.rng(ctx)
    ok, mid, bad = shapes(0, 0), shapes(.06, .05), shapes(.4, .2)
    cmds = []
    for t in ok:
        for _ in range(ctx.scale(60, 1200)):
            cmds.append("cast %s %s" % (t, r.choice([ok, mid, mid, bad])[t](r)))
            if t not in ("ll",): cmds.append("castd %s %s %s" % (t, r.choice([ok, mid, bad])[t](r), ok[t](r)))
            if r.random() < .5 and t not in ("json",): cmds.append("tojson %s %s" % (t, ok[t](r)))
        for k in ["n", "t", "i1", "d0.5", "s61", "s-", "a0", "o0", "a1 i1", "a1 n", "a1 s61", "o1 k61 i1", "o1 k61 s61", "o1 k- n", "i2147483648", "i9223372036854775807"]:
            cmds.append("cast %s %s" % (t, k)); cmds.append("castd %s %s %s" % (t, k, ok[t](r)))
    cases = [cmds[i:i + 10] for i in range(0, len(cmds), 10)]
    small = lambda: jgen.val(r, 2, True, True, 3, [b"a", b"b", b"c"])
    k = lambda: hexs(r.choice([b"a", b"b", b"c"]))
    S = lambda: r.randint(1, 4)
    for _ in range(ctx.scale(1500, 25000)):
        c = []
        for s in range(1, 5):
            if r.random() < .8: c.append("mk %d %s" % (s, r.choice([small(), "o0", "a0", mp(r, NEAR["int"], [b"a", b"b", b"c"]), arr(r, NEAR["int"])])))
        for _ in range(r.randint(3, 14)):
            c.append(r.choice([lambda: "cp %d %d" % (S(), S()), lambda: "clone %d %d" % (S(), S()), lambda: "push %d %d" % (S(), S()),
                               lambda: "addm %d %s %d" % (S(), k(), S()), lambda: "setm %d %s %d" % (S(), k(), S()), lambda: "seti %d %d %d" % (S(), r.randrange(3), S()),
                               lambda: "getm %d %s %d" % (S(), k(), S()), lambda: "refm %d %s %d" % (S(), k(), S()), lambda: "geti %d %d %d" % (S(), r.randrange(3), S()),
                               lambda: "count %d %s" % (S(), k()), lambda: "size %d" % S(), lambda: "merge %d %d %d" % (S(), S(), S()), lambda: "mergew %d %d %d" % (S(), S(), S()),
                               lambda: "eq %d %d" % (S(), S()), lambda: "mk %d %s" % (S(), small())])())
        cases.append(c)
    # a copy shares, a clone does not: changes at some depth of one
    for _ in range(ctx.scale(500, 8000)):
        nest = lambda d: r.choice(["a0", "o0", "i1"]) if d == 0 else r.choice([lambda: "a2 %s %s" % (nest(d - 1), nest(d - 1)), lambda: "o2 k61 %s k62 %s" % (nest(d - 1), nest(d - 1))])()
        c = ["mk 1 " + nest(r.randint(1, 3)), r.choice(["clone 2 1", "clone 2 1", "cp 2 1"])]
        cur = r.choice([1, 2])
        for _ in range(r.randint(1, 3)):
            c += [r.choice(["geti 3 %d %d" % (r.randrange(2), cur), "getm 3 %s %d" % (r.choice(["61", "62"]), cur), "refm 3 %s %d" % (r.choice(["61", "62", "63"]), cur)])]
            cur = 3
            if r.random() < .5: c += r.choice([["push 3 4"], ["setm 3 63 4"], ["seti 3 0 4"], ["addm 3 61 4"]])
        c += ["push 3 4", "setm 3 7a 4", "eq 1 2"]
        cases.append(c)
    # values that differ in one place
    for _ in range(ctx.scale(500, 8000)):
        w = jgen.val(r, 3, True, True, 4, [b"a", b"b", b"c", b"d"]).split()
        x = list(w); i = r.randrange(len(x)); t = x[i]
        if t[0] == "i": x[i] = r.choice(["d" + t[1:] + ".0", "i%d" % (int(t[1:]) % 1000 + 1), "n", "i" + t[1:]])
        elif t[0] == "k": x[i] = "k" + r.choice(["65", "66"])
        elif t[0] in "ntf": x[i] = r.choice(["n", "t", "f"])
        elif t[0] == "s": x[i] = r.choice([t + "61" if t != "s-" else "s61", "s-"])
        elif t in ("a0", "o0"): x[i] = r.choice(["a0", "o0", "n"])
        cases.append(["mk 1 " + " ".join(w), "mk 2 " + " ".join(x), "eq 1 2", "eq 2 1", "clone 3 1", "eq 1 3"])
    r.shuffle(cases)
    seq.check(ctx, "jsonval", "JsonVal_T", cases, srcs=["text/json/parser.cpp", "data/string/ustring.cpp"])
