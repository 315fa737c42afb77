"""X01: DVI pages are typeset as the DVI program says (spec/DVI.tla, DVIMC.tla, DVITrace.tla)."""
from checks import dvilib


def run(ctx):
    dvilib.run(ctx, "moving", 0.0, 0)
