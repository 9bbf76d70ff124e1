"""Shared body of the checks of the concurrent components."""
from concurrent.futures import ThreadPoolExecutor
CONC = ["concurrent/mutex.cpp", "concurrent/condition.cpp", "concurrent/thread.cpp",
        "concurrent/internal.cpp", "concurrent/rwmutex.cpp", "system/time_util.cpp"]


def build(ctx, drv, extra_src=(), extra_plain=()):
    return ctx.build(drv, ["c_%s.cpp" % drv], CONC + list(extra_src), tsan=True,
                     plain=["vsched.cpp", "conc_main.cpp"] + list(extra_plain))


def explore(ctx, exe, rand=(60, 400, 2500), dfs=(25, 4000, 1200), bound=2, shards=4):
    """rand/dfs: programs, executions per program, distinct histories (per shard)"""
    jobs = []
    for k in range(shards):
        jobs.append(["rand", ctx.seed * 100 + k] + list(rand))
        jobs.append(["dfs%d" % bound, ctx.seed * 100 + 50 + k] + list(dfs))
    with ThreadPoolExecutor(8) as ex:
        res = list(ex.map(lambda j: ctx.drive_conc(exe, j), jobs))
    seen, out = set(), []
    for r in res:
        for x in r:
            if x not in seen:
                seen.add(x); out.append(x)
    return out


def standard(ctx, drv, mod, monitor=True, extra_src=(), q=None, t=None, extra_plain=()):
    if monitor:
        ctx.model_check(mod + "_M.tla", mod + "_M.cfg")
    exe = build(ctx, drv, extra_src, extra_plain)
    q = q or dict(rand=(60, 400, 1200), dfs=(25, 4000, 500))
    t = t or dict(rand=(600, 2000, 9000), dfs=(200, 20000, 4000), bound=3, shards=8)
    lines = explore(ctx, exe, **(q if ctx.quick else t))
    for i in range(0, len(lines), 12000):
        ctx.validate(mod + "_T.tla", mod + "_T.cfg", lines[i:i + 12000], label=drv)
    ctx.assumptions += [
        "the code under test runs on a cooperative scheduler that models pthread mutexes, condition variables, rwlocks, threads and time as POSIX specifies them; scheduling points are synchronisation calls (bounded-preemption DFS) and, in the random runs, also instrumented memory accesses; sequential consistency is assumed",
        "programs: 2-4 threads, 1-5 operations each"]
