import itertools
import seq
from vf import hexs


def run(ctx):
    ctx.model_check("Reflect_A.tla", "Reflect_A.cfg" if ctx.quick else "Reflect_AT.cfg")
    r = seq.rng(ctx)
    cases = [["type %d" % k] for k in range(21)] + [["rpc 0"], ["rpc 1", "rpc 0", "rpc 1"]]
    names = [b"", b"a", b"b1", b"x:y", b"\xe3\x81\x82", b"{", b"n" * 300]

    def ok(ops):                    # leave only what was entered, get only when there is something
        out, n = [], [0]
        for o in ops:
            k = o.split()[0]
            if k == "leave" and len(n) == 1 or k == "get" and not n[-1]: continue
            if k == "enter": n.append(0)
            elif k == "leave": n.pop(); n[-1] += 1
            elif k == "add": n[-1] += 1
            elif k == "new": n = [0]
            out.append(o)
        while len(n) > 1: out.append("leave"); n.pop(); n[-1] += 1
        return out + (["get"] if n[-1] else [])
    alpha = ["enter", "leave", "name 61", "name -", "add 62 0", "add - 3", "get"]
    full = list(itertools.product(alpha, repeat=5))
    for c in (r.sample(full, 2500) if ctx.quick else full): cases.append(ok(c))
    for _ in range(ctx.scale(600, 10000)):
        ops = []
        for _ in range(r.choice([5, 15, 40])):
            x = r.random()
            if x < .25: ops.append("enter")
            elif x < .45: ops.append("leave")
            elif x < .58: ops.append("name " + hexs(r.choice(names)))
            elif x < .9: ops.append("add %s %d" % (hexs(r.choice(names)), r.randrange(13)))
            elif x < .98: ops.append("get")
            else: ops.append("new")
        cases.append(ok(ops))
    for n in (10, 40): cases.append(ok(["enter", "name 61"] * n + ["add 62 4"]))
    cases.append(ok(["enter"] + ["add 62 4", "add - 1"] * 200))
    seq.check(ctx, "reflect", "Reflect_T", [c for c in cases if c])
