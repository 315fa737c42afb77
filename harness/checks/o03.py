"""O03: the written svg paints what the canvas describes (spec/Paint.tla, PaintTrace.tla)."""
import scenes


def run(ctx):
    scenes.paint_check(ctx, "svg", ctx.n(900, 9000))
