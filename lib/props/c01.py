import conc


def run(ctx):
    ctx.model_check("RMutex.tla", "RMutex.cfg")
    conc.standard(ctx, "mutex", "Sync", monitor=False)
