import os
import conc
from props.c11 import NET, ASSUME
RPC = NET + ["network/rpc/base.cpp"]


def explore(ctx, mode):
    os.environ["VERIF_RPC_MODE"] = mode
    exe = conc.build(ctx, "rpc", RPC, ["simnet.cpp"])
    q = dict(rand=(300, 40, 1500), dfs=(40, 1500, 400), bound=1)
    t = dict(rand=(3000, 100, 9000), dfs=(200, 8000, 3000), bound=2, shards=8)
    lines = conc.explore(ctx, exe, **(q if ctx.quick else t))
    for i in range(0, len(lines), 12000):
        ctx.validate("Rpc_T.tla", "Rpc_T.cfg", lines[i:i + 12000], label="rpc")
    ctx.assumptions += ASSUME[:1]


def run(ctx):
    explore(ctx, "call")
