import conc


def run(ctx):
    ctx.model_check("RwLock_A.tla", "RwLock_A.cfg")
    conc.standard(ctx, "rw", "RwLock", monitor=False)
