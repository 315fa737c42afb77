"""O01: the written ps paints what the canvas describes (spec/Paint.tla, PaintTrace.tla)."""
import scenes


def run(ctx):
    scenes.paint_check(ctx, "ps", ctx.n(900, 9000))
