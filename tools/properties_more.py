TECHNIQUE_MORE = {}
NOTE_MORE = {}
NOT_APPLICABLE = {}

def na(id, title, statement, text, why, files, reason):
    prop(id, title, statement, ['inputs'], text, why, files, [('functions of their arguments', files[0])])
    NOT_APPLICABLE[id] = reason


GS = G + 'GraphicScene/'
E = 'Patro/GeometryEngine/'
PA = G + 'Painter/'

prop('C09', 'Valentina measurement files are read faithfully, each one on its own',
     'A Valentina measurement file gives its unit, pattern making system, personal data and all its measurements, in order, '
     'with their name, expression, description and value, whatever the order of the definitions in the file. Files which are '
     'read in one process, by several threads, with short or failing reads, and sets which are edited meanwhile, never '
     'influence each other: a read which fails raises and can be repeated.',
     ['inputs', 'schedules', 'fault_sequences'],
     'every measurement file, every interleaving of readers and editors, every read fault',
     'The tests read one sample file once and look at few of its values.',
     [V + 'Measurement.py', V + 'VitFormat.py', 'Patro/Measurement/ValentinaMeasurement.py',
      'Patro/Measurement/Measurement.py', 'Patro/Measurement/PersonalData.py', 'Patro/Common/Xml/Objectivity.py'],
     [('XML attribute mapping', V + 'VitFormat.py'), ('reader', V + 'Measurement.py'),
      ('shared standard measurements', 'Patro/Measurement/ValentinaMeasurement.py')],
     ['VitFile.measurements', 'measurement.value', 'measurements.personal'])
TECHNIQUE_MORE['C09'] = ('deterministic simulation: seeded thread interleavings and read faults over generated files, '
                         'reference evaluator')
NOTE_MORE['C09'] = ('Seeded search over files, interleavings and read faults; independent evaluator in plain Python. Not '
                    'exhaustive.')

prop('C11', 'An evaluated sketch has the geometry which its operations define',
     'After an evaluation, each operation of a sketch has the coordinates which its definition gives from its references and '
     'its expressions (measurements, lengths and angles of lines, current length), and the bounding box and the look-ups by '
     'name and identifier agree; the current length is known within the operation it belongs to and nowhere else. It does not depend on the history: operations added after an evaluation, operations '
     'which were rejected, evaluations which were repeated, interrupted, or done in other sketches by other threads.',
     ['histories', 'schedules', 'fault_sequences', 'inputs'],
     'every sketch of supported operations, every history of edits and evaluations, interrupts at any line, every '
     'interleaving of threads on distinct sketches',
     'The tests evaluate one or two sketches once, on one thread, without failure.',
     ['Patro/Pattern/Sketch.py', 'Patro/Pattern/SketchOperation.py', 'Patro/Pattern/Calculator.py',
      'Patro/GeometryEngine/Line.py', 'Patro/GeometryEngine/Segment.py', 'Patro/GeometryEngine/Conic.py'],
     [('evaluation order', 'Patro/Pattern/Sketch.py'), ('expression cache', 'Patro/Pattern/Calculator.py'),
      ('construction geometry', 'Patro/Pattern/SketchOperation.py')],
     ['operation.vector', 'operation.control_point1', 'Sketch.bounding_box', 'Sketch.get_operation'])
TECHNIQUE_MORE['C11'] = ('deterministic simulation: seeded histories with rejected and interrupted steps and threads, '
                         'reference geometry')
NOTE_MORE['C11'] = ('Seeded search over histories, interrupts and interleavings; the reference geometry is independent; '
                    'ill-conditioned constructions are not generated.')

prop('C12', 'Dependency graphs stay right under any history and any hash order',
     'A dependency graph has the nodes and edges which were added and not removed; its roots, leafs, ancestors, '
     'descendants, traversals and topological order agree with them, and a cycle is refused or reported. The graph of a sketch '
     'has an edge for each reference of an operation, in an expression too. It depends neither on the '
     'order of hash tables nor on failed or interrupted steps before.',
     ['histories', 'configurations', 'fault_sequences'],
     'every graph, every history of changes and failed changes, every hash order of the nodes',
     'The tests build one or two graphs under the hash order the process happens to have.',
     ['Patro/Common/Graph/DirectedAcyclicGraph.py', 'Patro/Pattern/SketchOperation.py', 'Patro/Pattern/Calculator.py'],
     [('graph', 'Patro/Common/Graph/DirectedAcyclicGraph.py'), ('connection of ancestors',
                                                               'Patro/Pattern/SketchOperation.py')],
     ['DirectedAcyclicGraph', 'operation.dag_node', 'Sketch dag'])
TECHNIQUE_MORE['C12'] = ('deterministic simulation: recorded hash order of the nodes, seeded histories with failed and '
                         'interrupted steps, model graph')
NOTE_MORE['C12'] = 'Seeded search over graphs, histories and hash orders; chains are shorter than the recursion limit.'

prop('C13', 'Picking in a scene finds exactly the items which are there',
     'Whatever items were added, moved (and marked as dirty), removed, hidden, raised or selected, once the index of a scene is '
     'updated, a search at a position gives each visible item within the radius, with its distance, sorted, and a search '
     'in a box gives each item which is in it, and never a removed or distant item. The iterations in insertion and z '
     'order, the selection and the items of a user data agree with the history. A failed '
     'update or an interrupted search leaves the scene usable, and threads can search together.',
     ['histories', 'schedules', 'fault_sequences'],
     'every history of changes, updates and searches of a scene, failed updates, interrupted searches, searching threads',
     'The tests build no history: the index is a cache which goes stale only after moves, removals and failures.',
     [GS + 'Scene.py', GS + 'GraphicItemMixin.py', GS + 'GraphicItem.py', 'Patro/GeometryEngine/Segment.py',
      'Patro/GeometryEngine/Conic.py', 'Patro/GeometryEngine/Bezier.py', 'Patro/GeometryEngine/Polygon.py'],
     [('index', GS + 'Scene.py'), ('dirty flag and caches', GS + 'GraphicItemMixin.py')],
     ['item_at', 'item_in_bounding_box', 'z_value_iter', 'selected_items', 'item_for_user_data'])
TECHNIQUE_MORE['C13'] = ('deterministic simulation: seeded histories with failed updates, interrupts and threads, against '
                         'brute force reference geometry')
NOTE_MORE['C13'] = ('Seeded search over histories; the reference is a brute force search with its own geometry; distances '
                    'within 1e-4 of the radius are not judged.')

prop('C14', 'An export shows the drawing as it is at that time',
     'A scene exported to SVG, LaTeX, PDF or DXF, or to a figure of Matplotlib, gives a well-formed file (or figure) which shows each visible item once, at its place and '
     'scale, with its text, and its line style, width and colour where that format has them, in painting order, on '
     'the paper asked for. That is the '
     'drawing at the time of the export, whatever was edited, exported, refused, failed or interrupted before, also '
     'when exports run in threads. A drawing with an item which the format does not support is refused, not cut.',
     ['histories', 'inputs', 'fault_sequences', 'schedules'],
     'every drawing of supported items, every history of edits and exports, disk errors and interrupts at any point, '
     'every interleaving of exporting threads',
     'The tests export one fixed drawing and do not read the files.',
     [PA + 'SvgPainter.py', PA + 'TexPainter.py', PA + 'PdfPainter.py', PA + 'DxfPainter.py', PA + 'MplPainter.py',
      PA + 'Painter.py', PA + 'Paper.py', G + 'TeX/Document.py', G + 'TeX/Tikz.py', 'Patro/FileFormat/Svg/SvgFile.py',
      'Patro/Pattern/Sketch.py'],
     [('painters', PA + 'Painter.py'), ('detail scene', 'Patro/Pattern/Sketch.py')],
     ['exported files', 'Sketch.detail_scene'])
TECHNIQUE_MORE['C14'] = ('deterministic simulation: seeded histories of edits and exports with disk faults, interrupts and '
                         'threads, files read by independent parsers')
NOTE_MORE['C14'] = ('Seeded search over drawings, histories and faults; independent readers of SVG, TikZ and PDF; DXF is '
                    'read by ezdxf. PDF styles and lines without pen are not judged.')

prop('C15', 'An export changes nothing but its file and gives the same each time',
     'Exporting a drawing in any format, with success, failure or interruption, alone or together with other exports, leaves '
     'scenes, items, coordinates, picking index, bounding boxes and sketches as they were, and does not disturb iterations over '
     'the items which are in progress. '
     'Exporting the same drawing again, to the same or another file, after any such history, gives the same content.',
     ['histories', 'fault_sequences', 'schedules'],
     'every history of exports of several drawings in all formats, disk errors and interrupts at any point, every '
     'interleaving of exporting threads',
     'The tests export once per process, and never after a failure.',
     [PA + 'Painter.py', PA + 'SvgPainter.py', PA + 'TexPainter.py', PA + 'PdfPainter.py', PA + 'DxfPainter.py',
      G + 'TeX/Document.py', G + 'TeX/Buffer.py', 'Patro/Pattern/Sketch.py', GS + 'Scene.py'],
     [('painters', PA + 'Painter.py'), ('document buffers', G + 'TeX/Buffer.py')],
     ['scene items, coordinates and bounding box', 'exported files'])
TECHNIQUE_MORE['C15'] = ('deterministic simulation: seeded histories of exports with disk faults, interrupts and threads, '
                         'snapshots before and after')
NOTE_MORE['C15'] = ('Seeded search over histories and faults; only what the API of the scene shows is compared; dates and '
                    'identifiers of PDF and DXF are free.')

prop('C16', 'A tiled printout covers the whole drawing, each tile fits its page',
     'The tiled LaTeX printout of a drawing is a grid of tiles at scale 1 which covers its bounding box and a margin of 1 cm '
     'around without gap or overlap, has no tile outside, fits each tile in the printable area of the paper in its '
     'orientation, labels each tile with its row and column, and shows every visible item in each tile. It holds for any paper, '
     'any drawing, after any history of edits, printouts, failures and interruptions, also in threads; '
     'the bounding box of the drawing is left as it was.',
     ['inputs', 'histories', 'fault_sequences', 'schedules'],
     'every drawing and paper, every history of edits and printouts, disk errors and interrupts at any point, every '
     'interleaving of printing threads',
     'The tests print one drawing on one paper and do not read the file.',
     [PA + 'Painter.py', PA + 'TexPainter.py', PA + 'Paper.py', G + 'TeX/Document.py', G + 'TeX/Environment.py'],
     [('Tiler', PA + 'Painter.py'), ('figures', PA + 'TexPainter.py')],
     ['exported files', 'scene.bounding_box'])
TECHNIQUE_MORE['C16'] = ('deterministic simulation: seeded histories of edits and printouts with disk faults, interrupts '
                         'and threads, grid checked from the file')
NOTE_MORE['C16'] = ('Seeded search over drawings, papers, histories and faults; LaTeX itself is not run, the page is computed '
                    'from the preamble.')


prop('C17', 'The viewer shows the scene, and a click selects what is under it',
     'After any sequence of edits, resizes (also to an empty window, or a scene set before the window has a size), scene '
     'switches, zooms, pans and fits, the viewer paints exactly the visible items of its scene in z order, each with its '
     'own stroke, fill and width (the selected ones in red), at the place given by the current centre and scale, over a grid '
     'of whole steps. The coordinate shown for a pixel is the inverse of that mapping, and a click selects the nearest item '
     'within ten pixels, and only it. Painting twice gives the same picture, and a painting or an action which failed or was '
     'interrupted does not spoil the following ones.',
     ['inputs', 'histories', 'fault_sequences'],
     'every scene, every history of edits and actions on the viewer, window sizes, interrupts at any point',
     'No test creates the viewer.',
     [PA + 'QtPainter.py', PA + 'Painter.py', 'Patro/GraphicEngine/GraphicScene/GraphicItem.py'],
     [('QtQuickPaintedSceneItem', PA + 'QtPainter.py'), ('ViewportArea', PA + 'QtPainter.py')],
     ['painted items', 'zoom', 'coordinate under the cursor', 'selection'])
TECHNIQUE_MORE['C17'] = ('deterministic simulation: seeded histories of edits and viewer actions on an offscreen Qt, with '
                         'empty windows, unsupported items and interrupts, paintings compared with a viewport model')
NOTE_MORE['C17'] = ('Seeded search over scenes, histories and interrupts; the slots are called as QML calls them, the QML files '
                    'and the native event loop are not run.')


prop('C18', 'A geometric object answers from what it is, not from what happened to it',
     'A vector, line, segment, triangle, rectangle, polygon, polyline, Bézier curve, spline, circle or ellipse answers each '
     'query (bounding box, area, length, barycenter, hull, intersections, distances ...) as an object just built from its '
     'present points, radii, angle and domain would, whatever it answered before and whatever was done to it: transformations '
     'in place or of a copy, new values, interrupted queries, queries by several threads, a returned box which the receiver '
     'extends. A transformation moves its points, or its center and radii, accordingly, a rejected one leaves it unchanged; '
     'queries never change the object nor their operands, and copies and derived objects share nothing with the original.',
     ['histories', 'schedules', 'fault_sequences', 'inputs'],
     'every object, every history of queries and changes, interrupts at any line of a query, every interleaving of queries',
     'The tests query each object once, just after it was built.',
     [E + 'Primitive.py', E + 'Polygon.py', E + 'Polyline.py', E + 'Conic.py', E + 'Segment.py', E + 'Triangle.py',
      E + 'Rectangle.py', E + 'Bezier.py', E + 'Spline.py', E + 'Vector.py', E + 'Line.py'],
     [('cached answers', E + 'Polygon.py'), ('points and copies', E + 'Primitive.py'), ('angular domains', E + 'Conic.py')],
     ['answers of the objects', 'points', 'copies'])
TECHNIQUE_MORE['C18'] = ('deterministic simulation: seeded histories of queries and changes with rejected and interrupted '
                         'steps and threads, answers compared with freshly built objects')
NOTE_MORE['C18'] = ('Seeded search over histories, interrupts and interleavings; the new objects are the oracle of the answers, '
                    'the definitions follow an independent model; that a single answer is exact is not judged.')

prop('C19', 'A transformation does what its steps do one after the other',
     'A transformation, made by any history of compositions with * and *=, copies and reuse of results as operands, '
     'maps each point, vector and object as its steps applied one after the other do (a * b applies b first, a *= b applies b '
     'last), and has the type it declares. A length, or the radius of a circle, is multiplied by the factor which '
     'the distances really are, or refused when there is none. Operands are never changed, and a composition which is refused '
     'or interrupted, or done by several threads over the same operands, changes nothing else.',
     ['histories', 'schedules', 'fault_sequences', 'inputs'],
     'every sequence of steps, every history of compositions, every interleaving of threads over the same operands',
     'The tests compose three transformations once and map one point.',
     [E + 'Transformation.py', E + 'Vector.py', E + 'Primitive.py', E + 'Conic.py'],
     [('composition and types', E + 'Transformation.py'), ('transformed objects', E + 'Primitive.py')],
     ['transformed points', 'transformed lengths', 'transformation.type'])
TECHNIQUE_MORE['C19'] = ('deterministic simulation: seeded histories of compositions with rejected and interrupted steps and '
                         'threads, points followed step by step')
NOTE_MORE['C19'] = ('Seeded search over histories, interrupts and interleavings; matrices are modelled independently.')


prop('C20', 'A path is what its steps describe, whatever was done to it',
     'A path built from any sequence of steps (absolute and relative lines, horizontal, vertical and compass lines, quadratic '
     'and cubic curves, rounded corners, a closing line) has the segments, the rounded corners, the bounding box, the distance '
     'and, when a scene draws it, the items which these steps describe. This stays so through every history of further steps, '
     'moved points, new lengths and radii, copies, transformations and interrupted or concurrent queries: the answers always '
     'are the ones of the present path. A rejected step or transformation leaves the path unchanged, and a copy shares '
     'nothing with the original.',
     ['histories', 'schedules', 'fault_sequences', 'inputs'],
     'every sequence of steps, every history of changes and queries, interrupts at any line of a query',
     'The tests build two paths and draw them in a figure which nobody compares.',
     [E + 'Path.py', E + 'Primitive.py', 'Patro/GraphicEngine/GraphicScene/Scene.py',
      'Patro/GraphicEngine/GraphicScene/GraphicItem.py'],
     [('steps and corners', E + 'Path.py'), ('items of a path', 'Patro/GraphicEngine/GraphicScene/Scene.py')],
     ['points and geometry of the parts', 'corners', 'bounding box', 'items of the scene'])
TECHNIQUE_MORE['C20'] = ('deterministic simulation: seeded histories of steps, changes and queries with rejected and '
                         'interrupted steps and threads, compared with an independent model of paths')
NOTE_MORE['C20'] = ('Seeded search over histories, interrupts and interleavings; rounded corners between lines which are not '
                    'nearly parallel, no elliptical arcs and no smooth curves.')



prop('C21', 'Reading an SVG document gives its items with what they inherit, or fails',
     'Reading an SVG document calls back for each group and graphic item, in the order of the document, with the values of '
     'its attributes, its path, and the state which its ancestors and itself define (transformations composed from the top to '
     'the item, colours, strokes and fonts by attribute or style), and nothing from items and groups which ended before. '
     'A reading gives the whole document or raises: disk errors, truncated or malformed files, interrupts and callbacks which '
     'raise never give a part of it silently nor show in another reading. Readings of several threads, nested ones, and what '
     'a caller does with the states and items it got, are independent; Patro reads back the documents which it writes.',
     ['histories', 'schedules', 'fault_sequences', 'inputs'],
     'every document, every history of readings and changes by callers, every fault position, every interleaving of readers',
     'The test reads one document with simple transformations once.',
     ['Patro/FileFormat/Svg/SvgFile.py', 'Patro/FileFormat/Svg/SvgFormat.py', 'Patro/Common/Xml/XmlFile.py',
      'Patro/Common/Xml/Objectivity.py'],
     [('states', 'Patro/FileFormat/Svg/SvgFile.py'), ('attributes and paths', 'Patro/FileFormat/Svg/SvgFormat.py')],
     ['items and states of the callbacks', 'path data', 'view box'])
TECHNIQUE_MORE['C21'] = ('deterministic simulation: seeded histories of readings with disk faults, truncation, interrupts, '
                         'raising and nested callbacks, threads and changing callers, compared with a model of the document')
NOTE_MORE['C21'] = ('Seeded search; paths of one subpath without elliptical arcs and smooth curves, no skew, no "inherit".')



prop('C22', 'Importing a DXF drawing gives its entities with their geometry, or fails',
     'Importing a DXF drawing gives, for each line, circle, arc, ellipse, lightweight polyline and open uniform spline of its '
     'model space, in the order of the drawing, an item with the same geometry (positions, radii, counterclockwise angular '
     'domains and their lengths, an arc for each bulge of a polyline, degree and control points), and nothing for other '
     'entities, blocks and paper space. An import gives the whole drawing or raises when a disk error, a truncated, damaged or '
     'missing file or an interrupt hits it, and it gives what the file has at this time. Imports, also concurrent ones, and '
     'what callers do with their items are independent; the items keep their geometry in a scene, and the segments and cubic '
     'curves of a scene which is exported are imported again.',
     ['histories', 'schedules', 'fault_sequences', 'inputs'],
     'every drawing, every history of imports and changes by callers, every fault position, every interleaving of imports',
     'The test does not import a drawing; splines, polylines and 3D points failed or were wrong without being noticed.',
     ['Patro/FileFormat/Dxf/Importer.py', 'Patro/FileFormat/Dxf/Polyline.py', 'Patro/GeometryEngine/Conic.py',
      'Patro/GeometryEngine/Spline.py', 'Patro/GeometryEngine/Mixin.py', 'Patro/GraphicEngine/GraphicScene/Scene.py'],
     [('items', 'Patro/FileFormat/Dxf/Importer.py'), ('bulges', 'Patro/FileFormat/Dxf/Polyline.py')],
     ['items of the importer', 'items of a scene', 'exported drawing'])
TECHNIQUE_MORE['C22'] = ('deterministic simulation: seeded histories of imports with disk faults, truncated and damaged files, '
                         'interrupts, rewritten files, threads, changing callers, scenes and exports, compared with a model of '
                         'the drawing')
NOTE_MORE['C22'] = ('Seeded search; splines are open, uniform, not rational, of degree 2 or 3, no extrusion.')



prop('C23', 'Reference tables, colours and styles are whole and have one owner',
     'Loading the standard measurements or a table of fibres (the shipped one, or a file of the user, where the first definition '
     'of a name wins) gives the whole table, or raises and leaves a table as it was when the disk fails; it can be done again '
     'after an error or an interrupt, several times, and in several threads. A table, colour, graphic style or personal data '
     'which is edited, copied or used for drawing and exporting changes nothing else, in particular not the colours of the '
     'library, and wrong values are refused without effect. A copy or clone is equal to its source in all its properties, and a '
     'colour given back as text, name, hue/light/saturation or hue/saturation/value is the same colour.',
     ['histories', 'fault_sequences', 'schedules', 'inputs'],
     'every history of loads, edits, copies and uses, every fault position in a load, every interleaving of loads',
     'No test loads a table, copies a style or reads a colour back.',
     ['Patro/Measurement/ValentinaStandardMeasurement.py', 'Patro/Measurement/StandardMeasurement.py',
      'Patro/TextileTechnology/Database.py', 'Patro/TextileTechnology/Fiber.py', 'Patro/GraphicStyle/Color/ColorDataBase.py',
      'Patro/GraphicStyle/Color/__init__.py', 'Patro/GraphicEngine/GraphicScene/GraphicStyle.py',
      'Patro/Measurement/PersonalData.py'],
     [('tables', 'Patro/TextileTechnology/Database.py'), ('colours', 'Patro/GraphicStyle/Color/ColorDataBase.py'),
      ('styles', 'Patro/GraphicEngine/GraphicScene/GraphicStyle.py')],
     ['content of a table', 'value of a colour or a style'])
TECHNIQUE_MORE['C23'] = ('deterministic simulation: seeded histories of loads with disk faults, interrupts and threads, edits, '
                         'copies and uses, compared with a model of everything alive')
NOTE_MORE['C23'] = ('Seeded search; the data files of the tree are taken as they are; stitches are not claimed (their loader '
                    'is not finished).')



PURE = ('Pure function of its arguments: no concurrency, time, I/O or history for a simulated schedule or fault to act '
        'on; only generated inputs would decide it, which is another technique.')
na('C90', 'Bézier curves, conics and polygons are geometrically exact',
   'Evaluation, splitting, length, closest point and intersection of Bézier curves, conics, polygons and segments '
   'agree with their mathematical definitions within numerical tolerance.',
   'every curve and parameter', 'The tests sample a few curves.',
   ['Patro/GeometryEngine/Bezier.py', 'Patro/GeometryEngine/Conic.py', 'Patro/GeometryEngine/Polygon.py'], PURE)
na('C93', 'The Qt application opens its documents and dialogs',
   'The QML application starts, opens a document and its menus, dialogs and pages have their documented effects.',
   'every sequence of user actions', 'No test starts the application.', ['Patro/QtApplication/QmlApplication.py'],
   'The QML pages run in the native event loop and JavaScript engine of Qt, which cannot be put under a simulator, and are '
   'demonstration pages without specification; the viewer which they embed is decided by C17.')
