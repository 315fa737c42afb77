"""X03: colour, transformation and marker specials (spec/DVI.tla, DVIMC.tla, DVITrace.tla)."""
from checks import dvilib


def run(ctx):
    dvilib.run(ctx, "special", 0.3, 1)
