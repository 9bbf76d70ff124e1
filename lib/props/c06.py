import conc


def run(ctx):
    conc.standard(ctx, "pcbuf", "Pcbuf")
