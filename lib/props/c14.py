import conc
from props.c11 import NET


def run(ctx):
    ctx.model_check("Dns_A.tla", "Dns_A.cfg" if ctx.quick else "Dns_AT.cfg")
    exe = conc.build(ctx, "dns", NET, ["simnet.cpp"])
    q = dict(rand=(300, 40, 1500), dfs=(60, 1500, 600), bound=1)
    t = dict(rand=(3000, 100, 9000), dfs=(200, 8000, 3000), bound=2, shards=8)
    lines = conc.explore(ctx, exe, **(q if ctx.quick else t))
    for i in range(0, len(lines), 12000):
        ctx.validate("Dns_T.tla", "Dns_T.cfg", lines[i:i + 12000], label="dns")
    ctx.assumptions += [
        "getaddrinfo is answered by the harness (every answer different, some failing, some slow); the clock is the scheduler's",
        "lifetimes and recency are compared in whole seconds, read at any moment of the call; a negative answer is kept like any other"]
