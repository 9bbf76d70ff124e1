"""Shared body of the checks of the sequential components."""
import random
from concurrent.futures import ThreadPoolExecutor
from vf import hexs, NCPU

ASAN = ["-O1", "-fsanitize=address", "-fno-omit-frame-pointer"]


def build(ctx, drv, srcs=(), flags=ASAN, link=()):
    return ctx.build(drv, ["s_%s.cpp" % drv], list(srcs), flags=flags, plain=["seq_main.cpp"], link=link)


def drive(ctx, exe, cases, shards=NCPU, **kw):
    k = max(1, min(shards, (len(cases) + 199) // 200))
    parts = [cases[i::k] for i in range(k)]
    with ThreadPoolExecutor(k) as ex:
        res = list(ex.map(lambda p: ctx.drive_seq(exe, p, **kw), parts))
    return [x for r in res for x in r]


def check(ctx, drv, mod, cases, srcs=(), label=None, chunk=8000, exe=None, uniq=True, link=(), **kw):
    exe = exe or build(ctx, drv, srcs, link=link)
    lines = drive(ctx, exe, cases, **kw)
    ctx.extra["cases"] = ctx.extra.get("cases", 0) + len(lines)
    if uniq:
        lines = list(dict.fromkeys(lines))
    for i in range(0, len(lines), chunk):
        ctx.validate(mod + ".tla", mod + ".cfg", lines[i:i + chunk], label=label or drv)
    return exe


def rng(ctx, salt=0):
    return random.Random(ctx.seed * 1000003 + salt)
