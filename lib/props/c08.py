import conc


def run(ctx):
    ctx.model_check("Thread_A.tla", "Thread_A.cfg")
    conc.standard(ctx, "thread", "Thread", monitor=False)
