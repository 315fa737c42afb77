"""O02: the written pdf paints what the canvas describes (spec/Paint.tla, PaintTrace.tla)."""
import scenes


def run(ctx):
    scenes.paint_check(ctx, "pdf", ctx.n(900, 9000))
