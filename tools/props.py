"""The table of properties (source of properties.jsonl and MANIFEST.json)."""
PROPS = []
NOT_APPLICABLE = {}

TRUST = ("Trusted: the recorder/parser in harness/ that turns real output into events, TLC, and that the sampled scenarios "
         "represent the quantified space beyond the exhaustively enumerated bounds.")


def P(id, title, statement, over, text, why, files, mech, state=(), observe=(), technique="", note=""):
    PROPS.append(dict(
        id=id, title=title, statement=statement, quantifier=dict(over=over.split(), text=text), why_tests_cant=why,
        anchors=dict(files=files.split(), mechanism=[dict(name=n, where=w) for n, w in mech],
                     state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                     observe_at=list(observe), hook_needed=None),
        technique=technique, level_note=(note + " " if note else "") + TRUST))


# ---------------------------------------------------------------------------------------- output
P("O01", "PostScript output paints exactly what the canvas describes",
  "The written EPS/PS page, read as a PostScript program, performs exactly the strokes, fills and clips of the canvas tree, in drawing order, each with the geometry, transformation, clipping, colour, line width, dash, cap, join, miter limit and fill rule that the canvas, its nested canvases and the drawing's own attributes prescribe. "
  "No attribute of one drawing or nested canvas leaks into another one, and every save of the graphics state is matched by a restore.",
  "programs inputs", "every nesting of canvases with styles, transformations and clips, every sequence of stroke/fill/draw calls and every combination of their attributes",
  "The functional tests only run the writers; nothing reads the produced program back, and the state machine spans arbitrary nestings.",
  "pyx/canvas.py pyx/deco.py pyx/style.py pyx/pswriter.py pyx/color.py pyx/trafo.py pyx/path.py",
  [("canvas emission with save/restore", "pyx/canvas.py canvas.processPS"), ("decorated path emission", "pyx/deco.py decoratedpath.processPS"), ("style operators", "pyx/style.py"), ("context copies", "pyx/pswriter.py context")],
  [("graphics state stack", "what the next painting operator would use", "the written PostScript program"), ("canvas tree", "items, styles, clip, trafo per canvas", "pyx/canvas.py canvas")],
  ["canvas.writeEPSfile / document.writePSfile output bytes"],
  "TLA+ canvas semantics + PostScript graphics-state machine; TLC validates the operator stream of the real writer",
  "Each recorded operator stream is interpreted by the specification's graphics-state machine and its paint list compared with the one the specification derives from the scene.")
P("O02", "PDF output paints exactly what the canvas describes",
  "The content streams of the written PDF, read as PDF graphics operators, perform exactly the strokes, fills and clips of the canvas tree, in drawing order, each with the geometry, transformation, clipping, stroking and filling colour, transparency, line parameters and fill rule the canvas prescribes. "
  "No state leaks between drawings or nested canvases, saves and restores balance, and path construction, clipping and text objects are never interleaved illegally.",
  "programs inputs", "every nesting of canvases with styles, transformations and clips and every sequence of drawing calls",
  "No test reads the content stream back.",
  "pyx/canvas.py pyx/deco.py pyx/style.py pyx/pdfwriter.py pyx/color.py",
  [("canvas emission", "pyx/canvas.py canvas.processPDF"), ("decorated path emission", "pyx/deco.py decoratedpath.processPDF"), ("stroke/fill attribute selection", "pyx/pdfwriter.py context")],
  [("graphics state stack", "what the next painting operator would use", "the written content stream")],
  ["canvas.writePDFfile output bytes"],
  "TLA+ canvas semantics + PDF graphics-state machine; TLC validates the operator stream of the real writer")
P("O03", "SVG output paints exactly what the canvas describes",
  "The written SVG document, read with SVG inheritance rules, paints exactly the strokes and fills of the canvas tree, in drawing order, with the geometry, transformation, clip path, paint, opacity, line parameters and fill rule the canvas prescribes. "
  "The PostScript, PDF and SVG writers agree on what is painted above what.",
  "programs inputs", "every nesting of canvases with styles, transformations and clips and every sequence of drawing calls",
  "No test interprets the SVG output.",
  "pyx/canvas.py pyx/deco.py pyx/style.py pyx/svgwriter.py pyx/color.py",
  [("canvas emission", "pyx/canvas.py canvas.processSVG"), ("decorated path emission", "pyx/deco.py decoratedpath.processSVG"), ("attribute emission", "pyx/style.py processSVGattrs")],
  [("inherited attributes", "effective presentation attributes at an element", "the written SVG document")],
  ["canvas.writeSVGfile output bytes"],
  "TLA+ canvas semantics + SVG inheritance machine; TLC validates the element stream of the real writer")
P("O04", "Bounding boxes enclose exactly what is painted",
  "The bounding box of a canvas is the union of the extents of its drawings and of the canvases inserted into it, transformed by the canvas' transformation and then cut by its clip; drawings completely outside of a clip contribute nothing. "
  "The bounding box written to a PS, PDF or SVG file is that of what is painted (strokes enlarged by half their line width), together with the box the canvas reports itself, which follows the same rules without the line widths; all formats agree.",
  "programs inputs", "every canvas tree with axis-parallel geometry, scaling/translation/quarter-turn transformations and rectangular clips",
  "The tests only cover the bbox class on a few boxes.",
  "pyx/canvas.py pyx/bbox.py pyx/deco.py pyx/document.py pyx/pswriter.py pyx/path.py",
  [("accumulation along the writers", "pyx/canvas.py processPS/processPDF/processSVG"), ("box algebra", "pyx/bbox.py"), ("line width enlargement", "pyx/deco.py decoratedpath")],
  [("accumulated box", "extent painted so far", "pyx/bbox.py bbox")], ["%%HiResBoundingBox, MediaBox, viewBox", "canvas.bbox()"],
  "TLA+ extent semantics of the canvas; TLC judges the boxes the real writers emit")
P("O05", "Layers order what is painted above what",
  "Items of a canvas are painted in insertion order, where a layer is painted at the place it was first requested or last positioned to, directly above or below the named sibling layer, keeping its content. "
  "Asking for a layer never loses, duplicates or reorders anything else, and a refused request leaves the canvas unchanged.",
  "histories", "every history of drawing, layer creation, repositioning (nested layer groups included) and clearing",
  "The tests never position layers; the tree operation has many histories and error paths.",
  "pyx/canvas.py", [("layer creation and positioning", "pyx/canvas.py canvas.layer"), ("insertion", "pyx/canvas.py canvas.insert")],
  [("layer tree", "sequence of items and named sub-canvases", "pyx/canvas.py canvas.items/layers")], ["canvas.layer", "order of drawings in written files"],
  "TLA+ layer-tree model checked exhaustively with TLC; all its behaviours replayed into the code, random histories trace-validated",
  "Exhaustive for all histories of 3 (quick) or 4 (thorough) operations over 6 layer names; longer random histories are validated.")
P("O06", "PDF files are well-formed object graphs",
  "Every written PDF has a cross-reference table whose offsets point at the objects they name, stream lengths that match, a consistent page tree with the requested number of pages, and no dangling or duplicate object references. "
  "Every resource a content stream uses is declared by its page (or form, pattern, font) under that name with the right kind, and no two different resources share a name.",
  "programs inputs configurations", "every document of pages using paths, colours, transparency, patterns, bitmaps, meshes, text and inserted PDF features, compressed or not",
  "The tests never parse the written PDF.",
  "pyx/pdfwriter.py pyx/document.py pyx/bitmap.py pyx/pattern.py pyx/font/font.py pyx/mesh.py pyx/pdfextra.py",
  [("object registry", "pyx/pdfwriter.py PDFregistry"), ("resource naming", "pyx/pdfwriter.py PDFregistry.addresource")],
  [("registry", "objects, resource dictionaries", "pyx/pdfwriter.py")], ["writePDFfile output bytes"],
  "TLA+ object-graph invariants evaluated by TLC on parsed real files; registry machine")
P("O07", "PostScript files are well-formed documents",
  "Every written EPS/PS file has document-structure comments that match its content: page count and page ordinals, bounding boxes rounded outwards, and balanced sections. "
  "Every procedure, font, form or other named resource a page uses is defined exactly once in the file, before its use.",
  "programs inputs", "every document of pages using paths, text, patterns, bitmaps, meshes and embedded EPS files",
  "The tests never read the PostScript files back.",
  "pyx/pswriter.py pyx/document.py pyx/bitmap.py pyx/pattern.py pyx/font/font.py",
  [("resource registry", "pyx/pswriter.py PSregistry"), ("header writing", "pyx/pswriter.py")], [], ["writePSfile / writeEPSfile output bytes"],
  "TLA+ document-structure machine; TLC validates the line events of real files")
P("O08", "SVG files are well-formed and self-contained",
  "Every written SVG file is well-formed, with properly nested elements, unique ids, and every reference pointing to an element of the right kind defined in the file; a resource that is used twice is defined once, and distinct resources never share an id.",
  "programs inputs", "every canvas using clips, gradients, patterns, bitmaps, text and nested canvases",
  "The tests never parse the SVG output.",
  "pyx/svgwriter.py pyx/canvas.py pyx/pattern.py pyx/bitmap.py pyx/font/font.py",
  [("resource registry", "pyx/svgwriter.py SVGregistry"), ("clip path ids", "pyx/canvas.py SVGclippath")], [], ["writeSVGfile output bytes"],
  "TLA+ document-structure machine; TLC validates the element events of real files")
P("O09", "Pages place their content on the paper as requested",
  "For every combination of paper format, rotation, centring, fitting, margin and box enlargement the page content is transformed by exactly the rotation, uniform scaling and translation those options prescribe: a fitted content fills the printable area without leaving it, a centred one is centred on it, and otherwise the content stays unmoved. "
  "The page box written is the paper's when a paper format is given and the (enlarged, transformed) content's otherwise, identically in PS, PDF and SVG.",
  "configurations inputs", "every page option combination and content extent",
  "The tests write a handful of option combinations and check nothing.",
  "pyx/document.py pyx/pswriter.py pyx/pdfwriter.py pyx/svgwriter.py", [("page transformation", "pyx/document.py page.calctrafo / process*")], [], ["page boxes and page transformations in written files"],
  "TLA+ page-placement model; TLC judges boxes and transformations recorded from the written files")

# ------------------------------------------------------------------------------------- attributes
P("A01", "Attribute lists combine by one precedence rule",
  "In a list of attributes a later attribute replaces an earlier one of the same exclusive kind, clearing marks remove exactly the attributes of their kind that precede them, attributes that must precede others (line widths before dashes, boxes and sizes before local text attributes) are put in front of them, and everything else keeps its order. Combining style or decoration lists step by step or all at once gives the same result, and lists passed by the caller are never modified.",
  "inputs", "every attribute list", "The unit tests check a few lists.",
  "pyx/attr.py", [("merging", "pyx/attr.py mergeattrs"), ("selection", "pyx/attr.py getattrs/checkattrs")], [], ["attr.mergeattrs", "attributes in effect in written files"],
  "TLA+ merge algebra checked with TLC over all short lists; every case replayed into the code")
P("A02", "Changing attributes cycle and interpolate as documented",
  "When one attribute list styles several plots, the n-th plot gets the n-th value of every changing attribute (cycling through list values, interpolating gradients by position), each changing attribute being evaluated independently of the others, of its position and of earlier uses.",
  "histories inputs", "every list of fixed and changing attributes and every number of plots", "The tests use changing attributes once without checking.",
  "pyx/attr.py pyx/color.py", [("selection", "pyx/attr.py selectattrs/changelist"), ("gradient selection", "pyx/color.py gradient")], [], ["attr.selectattrs", "attributes in written graphs"],
  "TLA+ selection model; TLC enumerates lists, each replayed into the code")

# --------------------------------------------------------------------------------------- geometry
P("B01", "Bounding boxes form a lattice",
  "Uniting boxes gives the smallest box containing both, intersecting gives the common part (empty when there is none), empty boxes are neutral for union and absorbing for intersection, and enlarging and transforming act on the box's corners. "
  "Operators returning a new box never modify their operands, in-place operators modify only their left operand.",
  "inputs histories", "every pair of boxes, empty ones included", "The unit tests check a handful of boxes.",
  "pyx/bbox.py", [("algebra", "pyx/bbox.py bbox_pt")], [], ["bbox operations"],
  "TLA+ box algebra; TLC enumerates small boxes, laws model-checked, all cases replayed into the code")
P("T01", "Transformations compose like affine maps",
  "Multiplying transformations composes their effect on points right to left, the inverse undoes a transformation on both sides, singular transformations are refused, and the chained convenience methods equal multiplying by the corresponding transformation from the left. "
  "Applying a transformation to a path, a box or a canvas maps every point by the same affine map, however it is applied.",
  "inputs histories", "every sequence of compositions, inversions and applications", "The unit tests sample some compositions numerically.",
  "pyx/trafo.py pyx/path.py pyx/bbox.py pyx/canvas.py", [("group operations", "pyx/trafo.py trafo_pt")], [], ["trafo application and written transformations"],
  "TLA+ integer affine group; TLC checks the laws and validates recorded histories of real trafo operations")
P("U01", "Lengths are linear combinations of independently scaled unit kinds",
  "A length is a sum of true, user, visual, width and TeX components; adding, negating, scaling and comparing lengths act component-wise and converting to a true length multiplies every kind by its current scale, so rescaling one kind changes exactly the components of that kind of every length, past or future.",
  "histories inputs", "every history of length arithmetic and rescaling", "The tests never change unit scales.",
  "pyx/unit.py", [("components", "pyx/unit.py length"), ("scales", "pyx/unit.py set/scale")], [("scale per kind", "conversion factors", "pyx/unit.py scale")], ["unit.tom and friends"],
  "TLA+ length algebra; TLC validates recorded histories of real length operations")
P("P01", "A path means the same in every output and in its normalised form",
  "A path built from any sequence of path elements follows the PostScript path-construction rules, and the PostScript, PDF and SVG forms written for it and its normalised form describe the same subpaths: same start points, segments, closed subpaths and current point. "
  "A sequence that uses the current point before one exists is refused everywhere.",
  "programs", "every sequence of path elements", "The tests construct a few paths.",
  "pyx/path.py pyx/normpath.py", [("path elements", "pyx/path.py pathitem subclasses"), ("normalisation", "pyx/normpath.py normpath.append")], [("construction context", "current point and subpath start", "pyx/path.py context")], ["written path data", "path.normpath()"],
  "TLA+ path-construction machine; TLC enumerates all short element sequences, replayed into all four renderings")
P("P02", "Path parameters, arc lengths and positions are mutually consistent",
  "For every path, positions, directions and arc lengths at a parameter, and the parameter found for an arc length, agree with the polyline geometry of the path, reversing maps parameters consistently, and the begin and end of every subpath are as drawn. "
  "Splitting a path at any parameters and joining the pieces reproduces the path: each piece starts where the previous ended and carries the piece's arc length.",
  "inputs", "every path and every list of parameters", "The unit tests sample a few paths.",
  "pyx/path.py pyx/normpath.py", [("parametrisation", "pyx/normpath.py normsubpath/normpathparam"), ("splitting", "pyx/normpath.py normpath.split")], [], ["path.at/arclen/arclentoparam/split/joined/reversed"],
  "TLA+ polyline model; TLC validates recorded results of real path queries")
P("P03", "Path operations do not disturb other paths",
  "Operations that return a new path, point, split or transformed path leave their operands unchanged, also after the result is modified, and in-place operations change only the path they are applied to.",
  "histories", "every history of path-producing and path-modifying operations over several paths", "No test mutates a path derived from another one.",
  "pyx/path.py pyx/normpath.py", [("copying", "pyx/normpath.py normsubpath.copy, normpath"), ("in-place operations", "pyx/normpath.py append/reverse/join/transform")], [("subpath lists", "shared between paths", "pyx/normpath.py normpath.normsubpaths")], ["paths after each operation"],
  "TLA+ value-semantics model of paths; recorded histories with full observations of every path trace-validated by TLC")
P("P04", "Intersections are found completely and on both paths",
  "Intersecting two paths reports each crossing exactly once, as a pair of parameters that denote the same point on both paths, in increasing order along the first path (for each pair of subpaths), and reports nothing else; swapping the operands swaps the reported parameters.",
  "inputs", "all pairs of paths in general position", "The unit tests intersect a few shapes.",
  "pyx/normpath.py pyx/path.py", [("intersection", "pyx/normpath.py _intersectnormcurves, normsubpath.intersect")], [], ["path.intersect"],
  "TLA+ integer segment-intersection model; TLC judges the real intersection lists of grid polylines")

# ------------------------------------------------------------------------------------------- text
P("X01", "DVI pages are typeset exactly as the DVI program says",
  "Interpreting a DVI file places every character, rule and special at the position the DVI program computes with its stack, its w/x/y/z registers and the font in force, for every legal program; pages are delivered one by one in file order with the parameters of their begin-of-page command.",
  "programs", "every legal DVI program", "The tests read a few TeX-produced files.",
  "pyx/dvi/dvifile.py", [("interpreter", "pyx/dvi/dvifile.py DVIfile")], [("registers and stack", "h, v, w, x, y, z", "pyx/dvi/dvifile.py")], ["the canvas built from a page"],
  "TLA+ DVI machine generates programs with their typesetting (TLC), assembled to bytes and interpreted by the code; random programs trace-validated")
P("X02", "Virtual fonts expand like their packet programs",
  "A character of a virtual font is typeset by running its packet as a nested DVI program at the current position with fresh registers and the virtual font's first local font, scaled by the size it is used at, and afterwards the outer state continues unchanged except for the advance by the character's width.",
  "programs", "every virtual font packet program and use", "The tests do not cover virtual fonts systematically.",
  "pyx/dvi/dvifile.py pyx/dvi/vffile.py", [("packet interpretation", "pyx/dvi/dvifile.py putchar")], [], ["the canvas built from a page"],
  "TLA+ DVI machine with virtual-font frames; generated programs replayed into the code")
P("X03", "Colour and transformation specials nest properly",
  "Colour and rotation/scaling specials in the typeset material apply to exactly the material between their begin and end, nest to any depth, and a group left open ends with its page; included graphics are placed at the current position in the requested size; marker specials record the position at which they occur.",
  "programs", "every nesting of specials", "The tests use one or two specials.",
  "pyx/dvi/dvifile.py pyx/dvi/texfont.py", [("special handling", "pyx/dvi/dvifile.py special")], [("action stack", "open colour/transformation groups", "pyx/dvi/dvifile.py")], ["the canvas built from a page"],
  "TLA+ DVI machine with special stack; generated programs replayed into the code")
P("X05", "Each text box shows its own text whatever happens around it",
  "Every text created gets a box with the extent of its own material, in any interleaving of text creation, preambles, error handling, restarts and output, and its output shows its own material; a failing text reports an error and leaves earlier and later texts unaffected.",
  "histories fault_sequences", "every history of text creation, preamble, failing text, reset and output on text engines", "The tests use the engine in straight-line scripts.",
  "pyx/text.py", [("engine states", "pyx/text.py SingleEngine"), ("page numbering", "pyx/text.py do_finish/do_typeset")], [("engine state", "not started, typesetting, done", "pyx/text.py")], ["text box extents and written glyphs"],
  "TLA+ text-engine lifecycle model; recorded histories against a real TeX validated by TLC")
P("X07", "TeX's messages are consumed exactly by the parsers that understand them",
  "The output of the typesetter is accepted only if the configured message parsers consume all of it, each parser removes exactly the passages it is documented to recognise and nothing around them, and anything left is reported as an error or warning as configured.",
  "inputs", "every message text composed of known and unknown passages", "The doctests show a few messages.",
  "pyx/text.py", [("parsers", "pyx/text.py texmessage")], [], ["texmessage parsers"],
  "TLA+ message-grammar model enumerates message texts with their remainders (TLC); replayed into the parsers")

# ------------------------------------------------------------------------------------------ graphs
P("R01", "Ticks merge by exact rational comparison",
  "Tick positions are exact rational numbers: arithmetic, comparison and equality agree with the mathematical value for every sign and representation. Merging tick lists gives one ordered list with every position once, carrying the strongest tick and label level of its occurrences, and does not depend on how the lists were given.",
  "inputs", "every pair of tick lists", "The doctests check a few rationals.",
  "pyx/graph/axis/tick.py", [("rational", "pyx/graph/axis/tick.py rational"), ("merging", "pyx/graph/axis/tick.py mergeticklists")], [], ["tick lists"],
  "TLA+ rational and merge algebra; TLC enumerates tick lists, replayed into the code")
P("R02", "Partitions put ticks exactly where they belong",
  "A partition places ticks at exactly the multiples of its tick distances (or the requested mantissas per decade) inside the axis range, sub-levels included, never outside; automatic partitions only choose among those, and an axis range is extended to full ticks exactly when allowed.",
  "inputs configurations", "every axis range and tick distance", "The unit tests check a few ranges.",
  "pyx/graph/axis/parter.py pyx/graph/axis/rater.py pyx/graph/axis/axis.py", [("linear and logarithmic partition", "pyx/graph/axis/parter.py")], [], ["tick lists of axes"],
  "TLA+ partition model over exact rationals; TLC judges the tick lists produced by the code")
P("R03", "Tick labels denote the value of their tick",
  "The label produced for a tick, read back as a number by its notation (decimal with separators, exponential, rational with prefixes and suffixes), equals the tick's value exactly or to the stated precision, and all labels of an axis follow the requested format.",
  "inputs configurations", "every tick position and label formatting option", "The tests only run label creation.",
  "pyx/graph/axis/texter.py", [("label texts", "pyx/graph/axis/texter.py")], [], ["tick labels"],
  "TLA+ label semantics; TLC judges the labels the real texters produce")
P("R04", "Axes map values monotonically between their ends",
  "An axis maps its minimum to the begin and its maximum to the end of the axis, values in between linearly (or logarithmically), reversed when asked to; fixed ends stay fixed whatever the data, free ends enclose all the data and only widen to reach full ticks. Linked axes agree with the axis they are linked to.",
  "inputs configurations histories", "every axis configuration and data history", "The tests check few configurations.",
  "pyx/graph/axis/axis.py", [("range adjustment", "pyx/graph/axis/axis.py"), ("conversion", "pyx/graph/axis/axis.py _linmap/_logmap")], [("axis data", "range and ticks", "pyx/graph/axis/axis.py axisdata")], ["axis conversion", "graph.pos"],
  "TLA+ axis life-cycle model; TLC validates recorded axis histories")
P("R05", "Bar and split axes partition their range among sub-axes",
  "A bar or split axis gives every sub-axis a share of its length in the proportions of the sub-axis sizes, separated by the configured distances, without overlap and in order; a value is placed at its relative position in its own sub-axis, to any nesting depth.",
  "inputs configurations", "every nesting and sizing of sub-axes", "The tests draw a few bar graphs without checking.",
  "pyx/graph/axis/axis.py", [("sub-axes", "pyx/graph/axis/axis.py _subaxes/bar/split")], [], ["axis conversion"],
  "TLA+ sub-axis layout model over exact rationals; TLC validates recorded conversions")
P("R06", "Graphs do each step once, in order, whatever the call order",
  "A graph accepts plots until its axes are fixed, fixes ranges once from all the data, and finishing it by any entry point - explicit layout, axes, data, key or writing it in any format - in any order and repeatedly gives the same drawing; operations that come too late are refused without damaging the graph.",
  "histories", "every order of plotting, layout, drawing and writing calls", "The tests call these in the usual order only.",
  "pyx/graph/graph.py", [("call-once bookkeeping", "pyx/graph/graph.py graph.didmethods/doaxes/finish")], [("done steps", "which steps were performed", "pyx/graph/graph.py")], ["graph methods", "written output"],
  "TLA+ graph life-cycle model; TLC enumerates call orders which are replayed into the code")
P("R07", "Graph lines are clipped exactly at the graph boundary",
  "A line plotted through data points shows exactly the parts of the straight connections that lie inside of the graph, connected where the data stay inside and interrupted where they leave it or a value is invalid; symbols appear exactly at the points inside.",
  "inputs", "every sequence of points inside, outside, on the boundary or invalid", "The tests plot data inside of the graph.",
  "pyx/graph/graph.py pyx/graph/style.py", [("line clipping", "pyx/graph/style.py line / graph.graphxy.vgeodesic"), ("point validity", "pyx/graph/style.py pos")], [], ["written paths of a graph"],
  "TLA+ clipping model over exact rationals; TLC judges the paths of real graphs")
P("R08", "Error bars, areas, bars and histograms show exactly their data",
  "Error bars with their caps, rectangles, impulses, histograms in all their forms, bars and stacked bars, and arrows mark exactly the values of their data rows: the part inside of the graph, cut at its boundary on every side and for every kind and direction of the axes, nothing for missing values, and unaffected by the rows before.",
  "inputs", "every sequence of values, ranges and missing values inside, outside and on the boundary", "The tests plot few data inside of the graph and compare nothing.",
  "pyx/graph/style.py", [("ranges", "pyx/graph/style.py range"), ("marks", "pyx/graph/style.py errorbar, rect, impulses, histogram, barpos, stackedbarpos, bar, arrow")], [], ["written paths of a graph"],
  "TLA+ model of marks as sets of unit edges and cells; TLC enumerates histograms and error bars which are replayed, and judges recorded plots")
P("R09", "Plot data deliver the same columns by every access path",
  "A data set gives every column by name or number, copied, joined, computed or read from a file, the same value for the same row, with rows and comments of files interpreted as documented: every row kept in order, short rows padded, non-numbers kept as text, skipping and every-n selection applied.",
  "inputs", "every table and column specification", "The tests read few files.",
  "pyx/graph/data.py", [("data classes", "pyx/graph/data.py")], [], ["graph data columns"],
  "TLA+ table model; TLC judges the columns recorded from the real data classes")
P("R10", "Reusing axes, styles, data or attributes never couples graphs",
  "Axes, styles, data sets, painters and attribute lists given to a graph are not changed by it: plotting with them in a second graph gives the same result as with fresh ones, and the order in which graphs are written does not matter.",
  "histories", "every history of sharing such objects among graphs", "No test reuses them.",
  "pyx/graph/graph.py pyx/graph/axis/axis.py pyx/graph/style.py pyx/graph/axis/tick.py", [("per-graph data", "pyx/graph/axis/axis.py anchoredaxis, pyx/graph/style.py privatedata/sharedata")], [], ["written output of graphs"],
  "TLA+ sharing model; TLC enumerates sharing histories, replayed into the code and compared")
P("R12", "Axes are painted exactly where and how their painter says",
  "Each tick, grid line, base line, label, bar name and title of an axis is painted once, at its position on its side of the graph (or along its path), with the length, attributes, direction and distance the painter gives for its level; labels lie outside of the axis and titles outside of the labels, and further axes are placed beyond the complete extent of the axis before.",
  "inputs configurations", "every painter configuration, list of ticks and arrangement of axes", "The tests draw some axes without looking at them.",
  "pyx/graph/axis/painter.py pyx/graph/axis/positioner.py pyx/graph/graph.py", [("painting", "pyx/graph/axis/painter.py regular, bar, linked, _title"), ("placement", "pyx/graph/graph.py doaxispositioner, axisatv")], [], ["written output of graphs"],
  "TLA+ model of axis painting; TLC enumerates painter options and judges the strokes and texts of written files")
P("R11", "The key lists exactly the titled plots with their styles",
  "A graph key has exactly one entry per titled plot, in plot order, laid out in the configured columns, each showing the plot's own symbol and line attributes next to its title.",
  "inputs configurations", "every list of plots and key configuration", "The tests only draw keys.",
  "pyx/graph/key.py pyx/graph/graph.py", [("layout", "pyx/graph/key.py")], [], ["written output"],
  "TLA+ key-layout model; TLC judges recorded key canvases")

# --------------------------------------------------------------------------------- inputs and files
P("I01", "The bounding box of an included EPS file is the one it declares",
  "Reading the bounding box of an EPS file finds the one declared in its header, or in its trailer when deferred, for all line-end conventions and any other header, embedded-document or comment lines around, and refuses files that declare none; an included EPS file is scaled, aligned and clipped with respect to exactly that box.",
  "inputs", "every layout of structured comments", "The tests include one file.",
  "pyx/epsfile.py", [("comment parser", "pyx/epsfile.py _readbbox")], [], ["epsfile bounding boxes"],
  "TLA+ DSC-scanner model generates header layouts with their box (TLC); files replayed into the reader")
P("I02", "SVG documents are read as SVG prescribes",
  "Reading an SVG file turns every path data string and transformation list into the same geometry the SVG rules prescribe - relative and absolute commands, implicit repetitions, smooth curves, arcs, closing - and paints shapes and groups in document order with nested transformations, inherited fill and stroke properties, units and view boxes as SVG prescribes; the picture is placed with the requested size at the requested position.",
  "inputs", "every path data string, transformation list and document of shapes and groups", "The tests read one file.",
  "pyx/svgfile.py", [("path parser", "pyx/svgfile.py svgPath"), ("transformation parser", "pyx/svgfile.py"), ("documents", "pyx/svgfile.py svg handlers")], [], ["the canvas of an SVG file"],
  "TLA+ SVG path machine and document model: TLC generates command sequences with their geometry, replayed into the reader, and judges recorded paints of generated documents")
P("I04", "Files and configuration options are looked up in the configured order",
  "A file is opened from the first configured locator and name extension that provides it and from no other; a configuration option has the value of the last file defining it, else the default; reading formatted text gives every token once, in order.",
  "configurations inputs", "every arrangement of files, locators and options", "The tests use one arrangement.",
  "pyx/config.py pyx/reader.py", [("locators", "pyx/config.py open"), ("options", "pyx/config.py get")], [], ["config.open", "config.get"],
  "TLA+ lookup model; TLC enumerates arrangements, replayed into the code")

# ------------------------------------------------------------------------------------------- boxes
P("K01", "Boxes align and tile exactly",
  "Aligning a box to a circle or line puts it so that it just touches from the requested side, in the requested direction, and no part is on the other side; aligning or tiling a list of boxes keeps sizes and order with exactly the requested spacing.",
  "inputs", "every convex box and alignment request", "The tests only draw boxes.",
  "pyx/box.py", [("alignment", "pyx/box.py polygon_pt.*align*"), ("tiling", "pyx/box.py tile")], [], ["box positions"],
  "TLA+ integer box geometry; TLC judges recorded positions")
P("K02", "Connectors join box to box without entering them",
  "A connector starts on the outline of its first box and ends on the outline of its second box (moved by the requested distances), along the path between the requested anchors, for every connector shape.",
  "inputs", "every pair of boxes and connector kind", "The tests only draw connectors.",
  "pyx/connector.py", [("cutting", "pyx/connector.py connector_pt")], [], ["connector paths"],
  "TLA+ rectilinear connector model; TLC judges recorded connector paths")
P("E01", "Path decorations cut and place exactly where requested",
  "Decorating a path places each arrow, text or mark at the requested position and direction along the path, strokes exactly the part of the path the decorations leave, and paints path and decorations in the requested order.",
  "inputs", "every list of decorations and paths", "The tests only draw decorations.",
  "pyx/deco.py", [("excluded ranges", "pyx/deco.py decoratedpath.excluderange/strokepath"), ("arrows", "pyx/deco.py arrow")], [], ["written paths"],
  "TLA+ exclusion-interval model; TLC judges the stroked parts of real decorated paths")
P("F01", "Type 1 glyph programs are executed as the format prescribes",
  "The outline and width of a glyph are exactly those its program describes, including hint replacement, flex, accented composites, nested subroutines and arithmetic, and the glyphs found to be referenced by a glyph are all that its execution needs.",
  "programs", "every glyph program", "The tests use existing fonts.",
  "pyx/font/t1file.py", [("charstring interpreter", "pyx/font/t1file.py T1cmd")], [("execution state", "stacks and current point", "pyx/font/t1file.py T1context")], ["glyph paths"],
  "TLA+ charstring machine generates programs with outlines (TLC); replayed into the interpreter")
P("F02", "Fonts in the output contain and address exactly the glyphs used",
  "Every font written contains every glyph the document shows with it, each shown character code maps to the glyph meant, also when several texts, pages or virtual fonts share a font, and stripping the font keeps the shown glyphs' programs intact with everything they call.",
  "histories inputs", "every set of texts and glyphs", "The tests never inspect embedded fonts.",
  "pyx/font/font.py pyx/font/t1file.py pyx/dvi/texfont.py", [("glyph registration", "pyx/font/font.py"), ("stripping", "pyx/font/t1file.py getstrippedfont")], [], ["fonts in written PS/PDF/SVG"],
  "TLA+ font-subset model; TLC validates glyph use events against the embedded fonts of real files")
