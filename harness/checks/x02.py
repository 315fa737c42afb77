"""X02: virtual fonts expand like their packet programs (spec/DVI.tla, DVIMC.tla, DVITrace.tla)."""
from checks import dvilib


def run(ctx):
    dvilib.run(ctx, "virtual", 0.03, 3)
