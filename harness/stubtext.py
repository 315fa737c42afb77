"""A text engine without TeX: texts are boxes of a size which depends on the text only; what was asked for is recorded."""


def make():
    from pyx import box, canvas, baseclasses, unit, attr, trafo

    class StubBox(box.rect_pt, baseclasses.canvasitem):
        def __init__(self, x_pt, y_pt, text, textattrs, size):
            self.text, self.textattrs = text, list(textattrs)
            w = size * max(1, len(str(text)))
            h = 2 * size
            trafos = attr.getattrs(list(textattrs), [trafo.trafo_pt])
            box.rect_pt.__init__(self, x_pt - 0.5 * w, y_pt - 0.5 * h, w, h, abscenter_pt=(0.5 * w, 0.5 * h))
            for t in trafos:
                self.reltransform(t)

        def bbox(self):
            return box.rect_pt.bbox(self)

        def requiretextregion(self):
            return False

        def mark(self):
            x, y = self.center
            return "%.4f %.4f (%s)" % (x, y, str(self.text).replace("(", "").replace(")", ""))

        def processPS(self, file, writer, context, registry, bbox):
            bbox += self.bbox()
            file.write("%%stub %s\n" % self.mark())

        def processPDF(self, file, writer, context, registry, bbox):
            bbox += self.bbox()
            file.write("%%stub %s\n" % self.mark())

        def processSVG(self, xml, writer, context, registry, bbox):
            bbox += self.bbox()
            xml.startSVGElement("text", {"x": "%.4f" % self.center[0], "y": "%.4f" % -self.center[1]})
            xml.characters(str(self.text))
            xml.endSVGElement("text")

    class StubEngine:
        def __init__(self, size=4):
            self.size = size
            self.log = []

        def text_pt(self, x_pt, y_pt, text, textattrs=[], **kwargs):
            self.log.append(str(text))
            return StubBox(x_pt, y_pt, text, textattrs, self.size)

        def text(self, x, y, text, textattrs=[], **kwargs):
            return self.text_pt(unit.topt(x), unit.topt(y), text, textattrs)

        def preamble(self, *args):
            pass

    return StubEngine, StubBox
