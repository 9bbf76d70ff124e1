import conc


def run(ctx):
    conc.standard(ctx, "mvar", "Mvar")
