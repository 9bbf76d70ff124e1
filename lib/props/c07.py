import conc


def run(ctx):
    conc.standard(ctx, "qsem", "Qsem")
