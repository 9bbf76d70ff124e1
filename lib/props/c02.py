import conc


def run(ctx):
    ctx.model_check("RMutex.tla", "RMutex.cfg")
    conc.standard(ctx, "cond", "Sync", monitor=False)
