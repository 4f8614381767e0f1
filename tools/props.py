# Tables behind properties.jsonl, MANIFEST.json and known_findings.jsonl (see gen.py).
MC = "stateless bounded-exhaustive exploration of the real code against a reference model"
TRUST = " Assurance is exactly the enumerated space (the evidence file counts it); trusted: the Go toolchain, the explorer and the reference model in mc/."

PROPS = [
 dict(id="C01", title="Layers are exactly the cross-sections of the solid",
  statement="For a closed mesh and a printing direction, slicing returns ceil(height/thickness) layers on evenly spaced planes (every plane in the middle of its slab), and only empty layers at the two ends may be dropped. The contours of each layer, as a whole, are exactly the oriented boundary of the mesh cut by that plane: outer contours and holes run in opposite, consistent directions, nothing is missing, doubled or invented. Every contour is closed and lies in its plane.",
  over=["inputs", "configurations"],
  quant="every closed mesh x placement x printing direction x layer height",
  why="The tests slice one tetrahedron and compare a handful of coordinates; holes, concave and touching contours, planes through vertices, edges and faces, tilted directions and several bodies are never reached.",
  files=["slicers/slice_by_vector.go", "primitives/triangle.go", "primitives/path.go", "primitives/point.go"],
  mech=[("layer planes and worker loop", "slicers/slice_by_vector.go:SliceByVector"), ("triangle/plane intersection", "primitives/triangle.go:IntersectTriangle"), ("joining of segments into contours", "primitives/path.go:JoinPaths2")],
  observe=["slicers.SliceByVector"],
  technique=MC + " (signed 1-chain comparison of every layer)",
  note="Exhaustive over 2x2x2 poly-cubes, a 34-solid catalogue, placements, 26 directions and layer heights, including planes through vertices." + TRUST),
 dict(id="C02", title="Results do not depend on the schedule or the number of processors",
  statement="Slicing a mesh into layers, loading a binary STL, copying triangles and every whole slicing pipeline give byte for byte the same result for every interleaving of their goroutines and every number of processors. No schedule deadlocks, panics, accesses memory without synchronisation (data race), or leaves a goroutine behind.",
  over=["schedules", "inputs"],
  quant="every interleaving of synchronisation operations x number of processors x number of layers x mesh",
  why="A test run sees one of thousands of schedules; lost layers, wrong order, deadlocks and races depend on which goroutine is delayed where.",
  files=["slicers/slice_by_vector.go", "primitives/utils.go", "primitives/mesh.go", "primitives/stl.go"],
  mech=[("worker pool and collection of layers", "slicers/slice_by_vector.go:SliceByVector"), ("parallel for", "primitives/utils.go:DoInParallelAndWait"), ("parallel copy", "primitives/mesh.go:CopyTriangles"), ("parallel parsing", "primitives/stl.go:LoadSTL")],
  observe=["slicers.SliceByVector", "slicers.SliceByVectorToGcode", "vip.Slice", "slicers.Slice5Axes", "slicers.SliceByProfile", "primitives.LoadSTL", "primitives.Mesh.CopyTriangles"],
  technique="stateless model checking of the real code under a controlled scheduler: source-set DPOR with sleep sets over all interleavings, race check of every schedule",
  note="All interleavings (up to independence) for up to 4 processors and 12 (16 thorough) layers x processors; whole pipelines with up to 1 (2 thorough) delays per run. The explorer is checked against brute force on 23000 small programs in every run." + TRUST),
 dict(id="C03", title="Operations are pure: no history, no hidden order, arguments stay as they are",
  statement="The result of slicing, cutting, colouring, analyzing, simplifying a line or rotating is a function of its arguments alone: any sequence of operations executed before it on the same mesh, in the same process, does not change it, and no operation changes the mesh, path or settings it was given. Rendering a program twice gives the same text. The order of the triangles in a mesh does not change what is printed (contours, walls, volumes), only at most the order of equal parts.",
  over=["histories", "inputs"],
  quant="every sequence of operations up to the depth on one shared mesh x every permutation of its triangles",
  why="Every test starts from a fresh process and a fresh mesh; aliasing of slices, package level state and map order show only after particular earlier operations.",
  files=["primitives/mesh.go", "slicers/slice_by_vector.go", "helpers/cut_mesh.go", "gcode/gcode.go", "slicers/vip/utils.go", "primitives/path.go"],
  mech=[("copying of meshes and paths", "primitives/mesh.go"), ("pipelines", "slicers/vip/slice_main.go")],
  observe=["slicers.SliceByVector", "slicers.SliceByVectorToGcode", "vip.Slice", "slicers.SliceByProfile", "slicers.Slice5Axes", "helpers.CutMesh", "vip.Analyze", "gcode.Gcode"],
  technique=MC + " (all operation histories, all triangle permutations of small meshes)",
  note="All histories up to the depth over the operation alphabet; all permutations of meshes of few triangles, patterned ones of larger ones." + TRUST),
 dict(id="C04", title="Joining of segments into contours does not depend on their order",
  statement="However the segments of a section are ordered, grouped or perturbed by rounding noise, joining them yields the same closed contours with the same direction, covering every segment exactly once. Removing collinear points from a contour never changes its shape, wherever the contour starts. A mesh cut by a plane gives contours equal to the section of the solid.",
  over=["inputs", "histories"],
  quant="every permutation and grouping of the pieces of every contour set, every start vertex and distribution of extra collinear points",
  why="The tests join a few fixed lists; the result depends on the order in which pieces arrive, which is factorial in their number.",
  files=["primitives/path.go", "primitives/line.go"],
  mech=[("greedy joining", "primitives/path.go:JoinPaths2"), ("joining with map order", "primitives/path.go:JoinPaths3"), ("removal of collinear points", "primitives/path.go:simplifyLine")],
  observe=["primitives.JoinPaths2", "primitives.JoinPaths3", "primitives.Path.MinimizeLines", "helpers.IntersectMesh"],
  technique=MC + " (all permutations of the pieces)",
  note="All permutations up to 6 pieces (8 thorough), 9 order patterns for larger contours." + TRUST),
 dict(id="C05", title="Cutting a solid partitions it into two closed solids",
  statement="Cutting a closed mesh by a plane gives two meshes that lie on their own sides of the plane, each closed with outward normals, whose volumes are the volumes of the two parts of the solid and whose outer surfaces together are the original surface. Both caps are the section of the solid, with opposite normals. Repeated cuts keep these properties, and a plane that misses the mesh leaves one part equal to the input and the other empty.",
  over=["inputs", "histories"],
  quant="every closed mesh x cutting plane, including planes through vertices, edges and faces, and every sequence of cuts up to the depth",
  why="There is no test of cutting at all; the boundary cases (touching triangles, holes, concave caps) are a continuum.",
  files=["helpers/cut_mesh.go", "primitives/triangle.go", "primitives/path.go"],
  mech=[("triangle splitting and capping", "helpers/cut_mesh.go:CutMesh")],
  observe=["helpers.CutMesh"],
  technique=MC + " (exact clipped volume and boundary chains)",
  note="34 solids x placements x plane normals x offsets, all vertex heights, all cut sequences up to depth 3; cap slivers below 2e-6 mm2 are ignored." + TRUST),
 dict(id="C06", title="STL files round-trip and ASCII equals binary",
  statement="Loading a saved mesh returns the same triangles in the same order with the same vertices to single precision. An ASCII file and a binary file that describe the same facets load as the same mesh, whatever the header bytes, comments, spacing, letter case of numbers or line ends are.",
  over=["inputs"],
  quant="every mesh x header x text style",
  why="Tests load two files and count triangles; format detection and parsing depend on header and text style.",
  files=["primitives/stl.go", "primitives/mesh.go", "primitives/utils.go"],
  mech=[("detection and parsing", "primitives/stl.go:LoadSTL"), ("writer", "primitives/stl.go:SaveSTL")],
  observe=["primitives.LoadSTL", "primitives.SaveSTL"],
  technique=MC + " (independent STL codec as the oracle)",
  note="Mesh catalogue x header kinds x all combinations of text styles." + TRUST),
 dict(id="C07", title="I/O faults and damaged files are reported, never silently accepted",
  statement="When writing stops at any byte, saving reports an error; when an STL file is cut at any byte, or its text is damaged so that a number or the facet structure is no longer readable, loading reports an error instead of returning another model. The command line tools exit with a non-zero status when their result could not be written completely, and with zero only when it was.",
  over=["fault_sequences", "crash_points", "inputs"],
  quant="every byte position at which writing stops or a file ends, every single-byte damage of the alphabet, every faulty output target of every command",
  why="Tests never make a write fail and never read a damaged file.",
  files=["primitives/stl.go", "cmd/goosli/goosli.go", "cmd/goosli_cutter/goosli_cutter.go", "cmd/goosli_colorizer/goosli_colorizer.go", "cmd/goosli_simplifier/goosli_simplifier.go"],
  mech=[("writer error", "primitives/stl.go:SaveSTL"), ("reader validation", "primitives/stl.go:LoadSTL"), ("exit status", "cmd/goosli/goosli.go:main")],
  observe=["primitives.SaveSTL", "primitives.LoadSTL", "exit status of the commands"],
  technique="exhaustive fault injection: every crash point of a write, every truncation, every single-byte damage", level="fault_enumeration",
  note="Real files, RLIMIT_FSIZE and /dev/full in a private scratch directory; all byte positions of the stated files." + TRUST),
 dict(id="C08", title="G-code moves the head along every path point, in order",
  statement="Executed by a printer, the generated G-code visits every point of every path of every layer in order, each at its exact place to the printed precision, under the marker of the section it belongs to (walls, inner wall, fill). Nothing printed is left out, repeated, or connected by a printing move that is not in a path. Rounding never accumulates: after any number of moves the head is where the path says.",
  over=["histories", "inputs", "configurations"],
  quant="every command sequence up to the depth x layer contents x settings",
  why="No test executes the G-code; text of one layer cannot show what state the printer is in after another.",
  files=["gcode/cmds.go", "gcode/gcode.go", "primitives/path.go"],
  mech=[("move generation", "gcode/cmds.go:LayersMoving"), ("string builder with current position", "gcode/gcode.go:Gcode")],
  observe=["gcode.Gcode.String, executed by the reference printer"],
  technique=MC + " (reference printer executes every generated program)",
  note="All command sequences up to depth 2-4 (3-5 thorough) over the command, layer and settings alphabets." + TRUST),
 dict(id="C09", title="Extruded filament equals line volume for every printed segment",
  statement="For every printed segment the filament pushed in is length x layer thickness x line width x extrusion multiplier (flow) divided by the filament cross-section, to the printed precision and without accumulating error. Travel, tool and bed moves push nothing, and retraction is always paid back exactly before the next print move.",
  over=["histories", "inputs", "configurations"],
  quant="every command sequence up to the depth x settings",
  why="No test looks at E values; they depend on the whole history of the program.",
  files=["gcode/cmds.go", "gcode/gcode.go"],
  mech=[("extrusion calculation", "gcode/cmds.go:LayersMoving")],
  observe=["E coordinate of the reference printer"],
  technique=MC + " (reference printer accounts for filament)",
  note="Same space as C08." + TRUST),
 dict(id="C10", title="Layer numbering, fan and feedrates are what the settings say",
  statement="Layers are numbered consecutively across the whole program without gaps or repeats. The fan is off in the first layer when that is configured and on in every other layer, and only layers switch it. Every printing move runs at the speed configured for it (first layer, walls, fill), also right after travel, retraction, bed rotation or tool commands.",
  over=["histories", "configurations"],
  quant="every command sequence up to the depth x settings",
  why="No test looks at feedrates; they are modal state of the printer set by earlier commands.",
  files=["gcode/cmds.go", "gcode/gcode.go"],
  mech=[("modal state", "gcode/gcode.go:Gcode"), ("layer loop", "gcode/cmds.go:LayersMoving")],
  observe=["modal state of the reference printer"],
  technique=MC + " (reference printer tracks modal state)",
  note="Same space as C08." + TRUST),
 dict(id="C11", title="Travel moves never drag the nozzle and retract when configured",
  statement="Between two printed paths the head moves sideways only while it is lifted by 0.5 mm above both ends, moves no filament while it moves, and comes down exactly on the start of the next path. When retraction is on, the configured length is pulled back before the sideways move and pushed back before printing, at the retraction speed; when it is off, no filament moves between paths.",
  over=["histories", "configurations"],
  quant="every command sequence up to the depth x settings",
  why="No test executes travel; the decision depends on the previous position, left by earlier commands.",
  files=["gcode/cmds.go", "gcode/gcode.go"],
  mech=[("travel between paths", "gcode/cmds.go:LayersMoving")],
  observe=["moves of the reference printer"],
  technique=MC + " (reference printer records travels)",
  note="Same space as C08." + TRUST),
 dict(id="C12", title="Bed rotation and inclination are executed safely and tracked",
  statement="Bed rotation and inclination commands turn the bed to exactly the commanded angle, slowly and only while the head is up at a safe height (200 mm), and return to the first tool with the filament register unchanged. After them the generator knows where the head is, so that the next path is reached without touching the model. No layer is ever printed with another tool selected.",
  over=["histories", "configurations"],
  quant="every command sequence up to the depth with bed commands in every position",
  why="No test executes bed commands together with layers.",
  files=["gcode/cmds.go", "gcode/gcode.go"],
  mech=[("bed commands", "gcode/cmds.go:RotateZ, InclineX, InclineXBack")],
  observe=["tool axes and position of the reference printer"],
  technique=MC + " (reference printer with tools T0-T2)",
  note="Same space as C08." + TRUST),
 dict(id="C13", title="Infill lines lie exactly inside the region to be filled",
  statement="For every set of closed non-crossing contours, every filling pattern (lines, squares, triangles) and every density, the infill of the region consists of exactly those parts of the pattern's lines that lie inside the region (outside holes): no piece of a line inside the region is missing, nothing is printed outside of it, and nothing is printed twice. The pattern's lines keep their distance (line width x 100 / density per direction), are parallel to the layer and stand still from layer to layer. A density of 0 gives no infill. The order of contours and their starting points do not matter. The same holds for the contours of real layers after walls.",
  over=["inputs", "configurations"],
  quant="every region of the cell grid x pattern x density x placement, every section of the solids",
  why="The tests fill one square; parity of crossings fails only where a pattern line meets a vertex, an edge or a contour that touches itself.",
  files=["slicers/fill_layer.go", "slicers/utils.go", "primitives/path.go"],
  mech=[("pattern lines", "slicers/fill_layer.go:FillLayers"), ("clipping of a line by contours", "slicers/fill_layer.go:intersectByPlane")],
  observe=["slicers.FillLayers"],
  technique=MC + " (interval arithmetic of every pattern line against the region)",
  note="Every union of cells of a small grid (all masks), sections of the solids, and the whole pipeline." + TRUST),
 dict(id="C14", title="Top and bottom layers are full, all others follow the pattern",
  statement="The first bottom-layers and the last top-layers of a print are filled fully (lines one line width apart, across the whole region); every other layer is filled with the configured pattern and density. This holds for every number of layers including fewer than top+bottom, for every printing direction, and the filling covers the whole region wherever the model stands. Filling does not change the contours of the layers.",
  over=["inputs", "configurations"],
  quant="every number of layers x top x bottom x pattern x printing direction x placement",
  why="One test with fixed counts; boundaries between full and sparse layers, tilted planes and far placements are not reached.",
  files=["slicers/fill_layer.go", "slicers/settings.go"],
  mech=[("choice of full layers", "slicers/fill_layer.go:FillLayers")],
  observe=["slicers.FillLayers"],
  technique=MC + " (interval arithmetic of every pattern line against the region)",
  note="All layer counts, top and bottom counts of the stated ranges, 26 directions." + TRUST),
 dict(id="C15", title="Walls are parallel offsets of the outer contour",
  statement="Inside every outer contour of a layer there are floor(wall thickness / line width)-1 further walls, each one line width from the previous one, as closed contours with the direction of their source, mitred at corners and without the edges that vanish on the way; contours of holes are offset to the other side. Only whole contours that have no room left are dropped. All but the last go to the middle walls, the last one is the inner wall which bounds the infill. Outer contours are never changed, and the result does not depend on the starting points and the order of contours. The skirt consists of the requested number of offsets outside of the first layer.",
  over=["inputs", "configurations"],
  quant="every contour of the stated families x line width x wall thickness x skirt lines",
  why="The tests offset two squares; vanishing edges, concave corners, starting points and nested contours are not reached.",
  files=["slicers/vip/offset_path.go", "slicers/vip/utils.go", "primitives/line.go"],
  mech=[("offset of a contour", "slicers/vip/offset_path.go:MakeOffset"), ("walls of layers", "slicers/vip/utils.go:PrepareLayers")],
  observe=["vip.PrepareLayers", "vip.SkirtPathes"],
  technique=MC + " (event-exact mitre offset as the oracle)",
  note="Polygons of a vertex grid, staircase and notch families, sections of solids; sharp tips below 25 degrees (2 mm mitre limit) are outside the domain." + TRUST),
 dict(id="C16", title="Parts cut by planes are printed completely, each in its own bed pose",
  statement="Printing by a file of planes prints every part of the model: what is in front of a plane and behind all later ones is printed with the bed turned and inclined as that plane says, layer by layer from bottom to top, with walls and infill equal to those of the part in the pose of the bed, and nothing else is printed. The parts come in the order of the planes and the first tool is active at the end. A plane written as text is read back as the same plane, and so is every plane proposed by the analyzer.",
  over=["inputs", "configurations", "histories"],
  quant="every solid x sequence of planes x rotation center x pattern",
  why="The tests compare nothing but the number of layers of one file.",
  files=["slicers/vip/slice_by_planes.go", "slicers/vip/analyze.go", "slicers/vip/utils.go", "helpers/cut_mesh.go", "gcode/cmds.go"],
  mech=[("cut and rotation of parts", "slicers/vip/slice_by_planes.go:SliceByPlanes"), ("plane text", "slicers/vip/analyze.go:ParsePlane")],
  observe=["vip.Slice, executed by the reference printer", "vip.ParsePlane"],
  technique=MC + " (reference printer output compared with the transformed solid)",
  note="12 solids x all sequences of up to 2 (3 thorough) planes of 7 (9) x centers x patterns." + TRUST),
 dict(id="C17", title="Overhangs are found, and where they lean",
  statement="A triangle is marked as an overhang exactly when its outward normal looks down more steeply than the given angle allows, whatever its size, position and order of vertices, and the command line tool writes exactly these marks. Between two consecutive layers an overhang plane is proposed exactly when the upper contour reaches out over the lower one by more than the limit angle in some direction; layers that stay or narrow never give one. The plane passes through the lower contour on that side and leans to the overhang by 60 degrees.",
  over=["inputs", "configurations"],
  quant="every triangle direction x printing direction x angle x size, every pair of layers of the families x direction and amount of the overhang",
  why="The tests look at one plane for one model; the sign of an angle, opposite vectors, directions on the other side and narrowing layers are separate cases on a sphere of directions.",
  files=["helpers/colorize_triangles.go", "slicers/slice_5axes.go", "primitives/vector.go"],
  mech=[("marking of triangles", "helpers/colorize_triangles.go:ColorizeTriangles"), ("overhang between layers", "slicers/slice_5axes.go:CalculateFails")],
  observe=["helpers.ColorizeTriangles", "goosli_colorizer", "slicers.CalculateFails"],
  technique=MC + " (exact angle by atan2, reach of both contours in every direction)",
  note="All primitive integer directions of a grid x printing directions x angles x sizes; pairs of convex, concave and nested layers x 36 directions x reaches away from the limit." + TRUST),
 dict(id="C18", title="Simplification keeps the shape",
  statement="A simplified line keeps its first and last point, is a subsequence of the original points, is left with exactly the points the Douglas-Peucker rule keeps (nothing farther than epsilon from what replaces it is removed, nothing needless is kept), and the original is untouched. A simplified mesh has no more triangles than asked for as long as half of them may stay, is closed, keeps its normals right and the shape of flat-faced solids (volume and extent); a mesh that is small enough already is returned as it is.",
  over=["inputs", "configurations"],
  quant="every polyline over a vertex grid x epsilon, every mesh of the catalogue x number of triangles to leave",
  why="The tests simplify one line and count points; ties, zero-length chords, epsilon bounds and the recursion's joints are a combinatorial space.",
  files=["helpers/simplify_line.go", "helpers/simplify_mesh.go", "primitives/point.go"],
  mech=[("Douglas-Peucker", "helpers/simplify_line.go:SimplifyLine"), ("conversion to and from the decimation library", "helpers/simplify_mesh.go:SimplifyMesh")],
  observe=["helpers.SimplifyLine", "helpers.SimplifyMesh", "goosli_simplifier"],
  technique=MC + " (declarative Douglas-Peucker validity, invariants of the mesh)",
  note="All lines of up to 5 (6 thorough) points of a 3x3 grid, families of long lines; mesh decimation is a third-party library with random tie breaks, only invariants that hold for all of them are required." + TRUST),
 dict(id="C19", title="Turning and moving is rigid",
  statement="Rotating a mesh about X or Z around a centre and shifting it move every vertex of every triangle as the rigid motion says (rotation matrices turn clockwise seen from the tip of the axis, RotateAbout counterclockwise about any axis), in any sequence and for any angle. Normals turn with the triangles, the extent of the mesh along every direction follows, no triangle is lost, nothing accumulates beyond rounding, and the original mesh keeps its triangles. Planes and vectors turn the same way as meshes.",
  over=["inputs", "histories"],
  quant="every sequence of rigid motions up to the depth x mesh; every vector x axis x angle",
  why="Tests rotate one or two vectors by right angles; a wrong centre, normal or sign shows only for a motion that is not symmetric, or in the second step of a sequence.",
  files=["primitives/mesh.go", "primitives/triangle.go", "primitives/vector.go", "primitives/rotation_matrix.go", "primitives/plane.go"],
  mech=[("rotation of meshes", "primitives/mesh.go:Rotate"), ("rotation matrices", "primitives/rotation_matrix.go:RotationAroundX"), ("rotation about an axis", "primitives/vector.go:RotateAbout")],
  observe=["primitives.Mesh.Rotate", "primitives.Mesh.Shift", "primitives.Vector.Rotate", "primitives.Vector.RotateAbout", "primitives.Plane.Rotate", "primitives.Mesh.MinMaxZ"],
  technique=MC + " (exact rigid motions composed step by step)",
  note="All sequences of up to 2 (3 thorough) motions over a motion alphabet; all vectors of an integer grid x 18 angles." + TRUST),
 dict(id="C20", title="Supports stand under the rims of overhangs, and only there",
  statement="With supports on, every layer has, beside the contours of the model, which stay exactly what they are without supports, the sections of walls that stand on the bed under the edges at the rim of the overhanging faces (the faces the colorizer marks for the same angle and direction), lowered by the support offset. Walls that are clear of the model are all there, from the bed to their top; halves of walls that go through the model are left out; nothing else is printed. The common segment of two triangles, by which this is decided, is exact for every position of the two, and the mesh is not changed.",
  over=["inputs", "configurations"],
  quant="every solid and obstacle x overhang angle x offset x layer height x turn x direction of printing and of overhangs; every triangle of a grid against a fixed one in five frames",
  why="Supports have no tests: they fail for rims seen from one side only, for upright triangles, or where a support touches a wall of the model.",
  files=["slicers/slice_by_vector.go", "helpers/supports_by_vector.go", "helpers/colorize_triangles.go", "primitives/triangle.go"],
  mech=[("support walls", "slicers/slice_by_vector.go:SliceByVector"), ("rim of the overhangs", "helpers/supports_by_vector.go:MakeUndoubledLinesFromTriangles"), ("collision with the model", "helpers/supports_by_vector.go:IntersectTriangles"), ("common segment of two triangles", "primitives/triangle.go:IntersectTriangle")],
  observe=["slicers.SliceByVector", "primitives.Triangle.IntersectTriangle", "primitives.Triangle.PointBelongs"],
  technique=MC + " (independent support walls, layers compared as chains)",
  note="All combinations; walls that touch the model without going through it may be printed or not." + TRUST),
 dict(id="C21", title="The commands do what their flags say",
  statement="Every flag of every command has its documented meaning, default and unit, alone and combined with every other: the file written is exactly what the library gives for the model moved by the origin flags and the settings the flags spell out, with header and footer templates filled in, and a printer can execute it. A wrong command line, an unknown slicing type or a missing file ends with a non-zero status and no output; a right one writes exactly the files it was asked for, and nothing else.",
  over=["configurations", "inputs"],
  quant="every flag and pair of flags x slicing type x command; every listed wrong command line",
  why="No test runs a command; a swapped, ignored or wrongly scaled flag is invisible to unit tests of the library.",
  files=["cmd/goosli/goosli.go", "cmd/goosli_cutter/goosli_cutter.go", "cmd/goosli_colorizer/goosli_colorizer.go", "cmd/goosli_analyzer/goosli_analyzer.go", "slicers/utils.go", "slicers/settings.go"],
  mech=[("flags to settings", "cmd/goosli/goosli.go"), ("header and footer templates", "slicers/settings.go:ToMap")],
  observe=["goosli", "goosli_cutter", "goosli_colorizer", "goosli_analyzer", "goosli_simplifier"],
  technique=MC + " (built commands, every flag combination, against the library and a G-code machine)",
  note="All flags and (thorough: all, quick: a quarter of) pairs of flags x 4 slicing types." + TRUST),
 dict(id="C22", title="No model and no settings make a command crash or hang",
  statement="Whatever the solid, its orientation and position, the slicing type and the settings, slicing ends in time, with status 0, and writes a program that a printer can execute (only finite, well formed words, known codes) and that prints something. Damaged meshes (open, inverted, flat, doubled, degenerate, empty, self-intersecting) make no command crash or hang.",
  over=["inputs", "configurations"],
  quant="every solid of the catalogue x turn x slicing type x settings; every damage x command",
  why="Tests use three friendly models with default settings; empty layers, walls wider than the part, single layers and degenerate cuts are corner cases of combinations.",
  files=["slicers/slice_5axes.go", "slicers/vip/slice_default.go", "slicers/vip/slice_bridge.go", "slicers/vip/slice_rotation.go", "slicers/vip/utils.go", "slicers/slice_by_profile.go", "gcode/gcode.go"],
  mech=[("dispatch of vip slicing", "slicers/vip/slice_main.go:Slice"), ("cutting and turning loop", "slicers/vip/slice_default.go:SliceDefault2"), ("overhang planes", "slicers/slice_5axes.go:CalculateFails")],
  observe=["goosli", "goosli_cutter", "goosli_simplifier", "goosli_colorizer", "goosli_analyzer"],
  technique=MC + " (built commands run on every combination, output executed by a G-code machine)",
  note="All combinations of a 35-solid catalogue, 14 settings and 4 slicing types (quick: half of the settings and turns); 12 kinds of damage x 4 solids x 8 commands." + TRUST),
 dict(id="C23", title="What is inside, what is a hole, where the middle is",
  statement="A point is inside a contour exactly when it is by the even-odd rule, for every simple contour, any start vertex and direction, in horizontal, inclined and upright planes, also when the point is level with vertices or edges. Contours are nested exactly when one lies inside the other. Winding, hole and solid tests agree with the signed area; the contours of a section of a solid are told apart rightly (material inside or outside). The centroid is the centroid of the area. Closing, reversing and comparing contours obey their laws.",
  over=["inputs"],
  quant="every simple lattice polygon x start x direction x frame x every point of the half grid; every pair of nested or crossing shapes and placements",
  why="Tests ask about a few points of a square; rays through vertices and along edges, concave corners and upright planes need all of them.",
  files=["primitives/point.go", "primitives/path.go"],
  mech=[("point in contour", "primitives/point.go:Inside"), ("nesting and winding", "primitives/path.go:IsInside"), ("centroid", "primitives/path.go:FindCentroid")],
  observe=["primitives.Point.Inside", "primitives.Path.IsInside", "primitives.Path.IsWindingCW", "primitives.Path.IsHole", "primitives.FindCentroid", "primitives.Path.Close", "primitives.Path.Reverse", "primitives.Path.Equal"],
  technique=MC + " (exact integer predicates)",
  note="All simple polygons of 3 to 6 (8 thorough) vertices on small grids in 6 frames, every half-grid point; 6x6 shapes x 100 placements; sections of all catalogue solids." + TRUST),
 dict(id="C24", title="The analyzer suggests planes that support every overhang",
  statement="The analyzer returns at most six planes, inclined and level in turn, each through the lowest point of the lowest overhang that is left above the planes before, an inclined one turned by exactly 60 degrees towards where this overhang faces; after the last plane no overhang is left (or there are six). What is on the bed, on the cut before, or faces straight down asks for no plane. The text of a plane (X Y Z T R) says the same point and normal, and the mesh is not changed.",
  over=["inputs"],
  quant="every tower of up to three stretches leaning into every direction of a fan, every solid of the catalogue x turn x place x angle; every list is replayed plane by plane",
  why="One test looks at one model; wrong quadrants, wrong lowest points or a plane relative to the wrong direction show only for particular directions or in the second plane.",
  files=["slicers/vip/analyze.go", "helpers/colorize_triangles.go", "helpers/cut_mesh.go", "cmd/goosli_analyzer/goosli_analyzer.go"],
  mech=[("choice of the planes", "slicers/vip/analyze.go:Analyze"), ("overhanging faces", "helpers/colorize_triangles.go:ColorizeTriangles")],
  observe=["vip.Analyze", "vip.AnalyzedPlane.String"],
  technique=MC + " (the list of planes replayed against independently found overhangs)",
  note="All towers and solids of the alphabets." + TRUST),
 dict(id="C25", title="Slicing by profile follows the profile of the model",
  statement="Slicing by profile simplifies the line of the centres of the sections with the given epsilon, cuts the model by level planes at the joints of this line, in order, and prints every part in the pose (bed angles X and Z) in which its stretch of the line is upright: the layers of a part are exactly the sections of this part of the model in this pose, every part is printed once, none is lost, and the mesh is not changed.",
  over=["inputs", "configurations"],
  quant="every tower of up to three stretches leaning into every direction of a fan x layer height x epsilon; every solid of the catalogue x placement x layer height x epsilon",
  why="The tests compare no output; a pose wrong in one quadrant, a cut at the wrong joint or a lost part shows only for profiles with several stretches in particular directions.",
  files=["slicers/slice_by_profile.go", "helpers/simplify_line.go", "helpers/cut_mesh.go"],
  mech=[("profile and poses", "slicers/slice_by_profile.go:SliceByProfile"), ("centres", "slicers/slice_by_profile.go:calculateCenters"), ("simplification", "helpers/simplify_line.go:SimplifyLine")],
  observe=["slicers.SliceByProfile"],
  technique=MC + " (printed parts mapped back and compared with independent sections)",
  note="All towers and solids of the alphabets; inputs on which rounding decides the profile are left out." + TRUST),
 dict(id="C26", title="Geometric primitives agree with exact geometry",
  statement="Intersections of segments, of planes with segments and triangles, side and membership tests, projections, distances, angles, extents and products give the exact result (up to the stated tolerance), for every position, including shared ends, collinear overlap, planes through vertices and edges; the direction of a section line always has the material on the same side. Rounding, conversion and number text are right to half a unit of the last place.",
  over=["inputs"],
  quant="every pair of segments, every triangle x plane, every point x line of integer grids at several scales; every number of a decimal grid",
  why="Each primitive has one or two example tests; degenerate positions decide whether contours close and whether cuts are watertight.",
  files=["primitives/line.go", "primitives/plane.go", "primitives/point.go", "primitives/vector.go", "primitives/triangle.go", "primitives/utils.go"],
  mech=[("segment intersection", "primitives/line.go:IntersectLine"), ("plane and triangle", "primitives/plane.go:IntersectTriangle"), ("distance and projection", "primitives/point.go:DistanceToLine")],
  observe=["primitives.Line", "primitives.Plane", "primitives.Point", "primitives.Vector", "primitives.Triangle"],
  technique=MC + " (exact integer predicates and closed forms)",
  note="All configurations of the grids (hundreds of thousands)." + TRUST),
 dict(id="C27", title="Automatic modes print the whole model, each part in its pose",
  statement="5-axes mode and vip mode without planes (default, bridge and rotation slicing) cut the model where the next layer hangs over, turn the bed to the side of the overhang and back, and print: every part once, in the pose it was cut for, sliced at the layer height over its own extent, with its outer walls on the section of that part, inner walls and filling inside it; nothing is lost between the parts, nothing is printed twice, the loaded mesh stays as it was.",
  over=["inputs", "histories"],
  quant="every tower of 1 to 3 stretches leaning into every direction of a ring, every body of rotation of 1 to 3 stretches, every two-legged bridge of an alphabet of leanings in every direction, every solid of the catalogue in every turn; layer heights and fill patterns",
  why="Tests of these modes only look at goldens of one or two models; a part lost at a cut, printed in the pose of the neighbour, or filled for another pose shows only for particular leanings.",
  files=["slicers/slice_5axes.go", "slicers/vip/slice_default.go", "slicers/vip/slice_bridge.go", "slicers/vip/slice_rotation.go", "slicers/vip/slice_main.go"],
  mech=[("detection of overhangs", "slicers/slice_5axes.go:CalculateFails"), ("cut, turn and turn back", "slicers/vip/slice_default.go:SliceDefault2"), ("two legs", "slicers/vip/slice_bridge.go:SliceBridge"), ("bodies of rotation", "slicers/vip/slice_rotation.go:SliceRotation")],
  observe=["slicers.Slice5Axes", "slicers/vip.Slice", "gcode (executed by the printer model)"],
  technique=MC + " (the plan of parts is derived step by step, executed G-code is compared part by part)",
  note="All models of the alphabets; inputs for which a deformation of 1e-9 or the order of contours changes the decisions are left out. Where a cut is needed is decided with the detection and the mesh cutter of the code itself, whose own properties are C17 and C05." + TRUST),
]

NA = []
NOTES = "All checks share one explorer (mc/), compiled against /repo's working tree through a go build overlay; no hooks are needed in /repo."

FIXED = [
 ("C05", "7668547", "triangles that only touch the cutting plane were dropped, leaving open parts"),
 ("C05", "f685de8", "caps of concave sections and of holes had mixed orientation"),
 ("C01", "5c1ffc4", "slicing a flat mesh or a mesh missed by all planes panicked"),
 ("C17", "623f5de", "angle between opposite vectors was NaN when rounding overshoots"),
 ("C07", "0c54747", "SaveSTL ignored the error of the last flush"),
 ("C15", "febe6ee", "first corner of an offset of a closed path was not trimmed"),
 ("C15", "27c58d3", "wall thickness that is a multiple of the line width lost one wall"),
 ("C08", "6261250", "steps below 0.001 mm accumulated into lost motion"),
 ("C11", "3af233c", "retraction was absolute, never primed back, and kept the wrong speed"),
 ("C12", "f7c3d3c", "bed rotations lost head position and feedrate: plunge through the model and slow print"),
 ("C14", "f03ff5d", "diagonal filling did not cover the corners of the model"),
 ("C14", "d202aed", "odd densities of squares and triangles filling were truncated"),
 ("C13", "caa01c5", "filling lines through contour vertices lost inside/outside parity"),
 ("C07", "7926494", "damaged STL files were loaded as something else"),
 ("C04", "1d539d9", "contours that touch in a point were not joined and closed"),
 ("C25", "8794063", "slicing by profile failed for vertical profiles and profiles going to negative Y"),
 ("C12", "15c7948", "bed rotation sign for planes inclined to negative Y"),
 ("C17", "1d4b720", "cutting planes never leant to an overhang on the positive Y side"),
 ("C15", "20a67b5", "concave contours were taken for holes when outside paths were looked for"),
 ("C22", "880a88b", "vip slicing of models without overhangs panicked"),
 ("C22", "7555131", "models and parts of one layer were not printed in vip and 5axes modes"),
 ("C24", "88f115b", "analyzer looked at removed triangles and printed a wrong angle"),
 ("C18", "933393a", "simplification of an empty line panicked"),
 ("C09", "1a9daa9", "printing flow was ignored"),
 ("C01", "c123faa", "layer planes through mesh vertices doubled the contours"),
 ("C05", "dd94c99", "side of a point near a plane disagreed with the intersection of segments"),
 ("C05", "64bf455", "cut triangles with long sides were split wrongly"),
 ("C05", "2c72e68", "degenerate triangles over the cutting plane"),
 ("C07", "7fe4b8e", "flush error of the colorizer was not reported"),
 ("C15", "917c9da", "neighbours of a vanished offset edge were not joined, walls had spikes"),
 ("C15", "7a9cbc6", "offset edges that vanish after their neighbours were kept reversed"),
 ("C16", "bdb11f5", "filling of rotated parts did not cover the whole part"),
 ("C05", "bb6c7c4", "caps of concave sections overlapped themselves, so slices of cut parts had double lines"),
 ("C05", "3ded450", "rounding noise let caps overlap themselves"),
 ("C17", "2b7d802", "contours that narrow upwards were taken for overhangs, so roofs were cut and tilted"),
 ("C23", "3f0331b", "point inside a path was wrong when the ray passes through vertices or along its first edge"),
 ("C22", "2993e3d", "overhang at a contour through its own centroid gave a plane and bed angle of NaN"),
 ("C20", "5fb1a8c", "upright triangles were compared by their XY projection, so supports were dropped or went through the model"),
 ("C20", "842018f", "supports that touch the model damaged its contours"),
 ("C07", "4bcf7ad", "cut off or unreadable ASCII STL was loaded as something else"),
 ("C27", "1217792", "filling of parts printed in other poses did not cover the whole part in default and bridge slicing"),
 ("C27", "adaca63", "half a layer was lost where bridge, rotation and 5axes slicing cut the model"),
 ("C27", "3ae6b95", "legs of a bridge that narrow upwards were taken for overhangs"),
 ("C17", "c6bce83", "concave contours were taken for holes when overhangs are looked for"),
 ("C17", "8e24b6e", "overhangs of concave contours depended on where the contour starts"),
 ("C17", "56f5dc7", "contour of the layer below was not found when the centroid is out of the contour, and for thin contours"),
 ("C17", "62b2826", "contour of the layer below was any of nested contours"),
 ("C17", "648f44c", "an overhang was not found when the contour below is met before its own centroid"),
 ("C22", "4ad63a7", "a blank line in a planes file panicked"),
 ("C20", "7608a87", "supports were lowered by the offset times the length of the given normal"),
 ("C05", "3e15fa0", "a triangle with two vertices on (a hair beside) the cutting plane went to both parts"),
 ("C05", "9bab6c0", "contours stayed open, and cuts uncapped, where segments too short to be seen are missing"),
 ("C04", "9bab6c0", "contours stayed open where segments too short to be seen are missing"),
 ("C16", "b829000", "the same plane twice in a file left slivers that were printed"),
 ("C23", "025d79c", "the centroid of a contour closed only within the tolerance of points was up to a third too low"),
 ("C27", "025d79c", "towers far from the origin were cut where nothing hangs over: centroids of their contours were wrong"),
]
OPEN = []
