From 76685476b698b4695a04bf12fe1e193c9068be41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:00 +0000
Subject: [PATCH 01/54] fix: cutting a mesh no longer drops triangles that only
 touch the plane

---
 helpers/cut_mesh.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/helpers/cut_mesh.go b/helpers/cut_mesh.go
index c84ee5c..43eb8cb 100644
--- a/helpers/cut_mesh.go
+++ b/helpers/cut_mesh.go
@@ -41,6 +41,7 @@ func CutMesh(mesh *Mesh, p Plane) (*Mesh, *Mesh, error) {
 			line := p.IntersectTriangle(&t)
 			if line == nil {
 				log.Printf("failed to intersect triangle by plane2, skip it: %v, %v\n", t, p)
+				up = append(up, t) // no cross section: the triangle as a whole stays on the side of its bulk
 				continue
 			}
 			inters = append(inters, Path{Points: []Point{line.P1, line.P2}})
@@ -55,6 +56,7 @@ func CutMesh(mesh *Mesh, p Plane) (*Mesh, *Mesh, error) {
 			line := p.IntersectTriangle(&t)
 			if line == nil {
 				log.Printf("failed to intersect triangle by plane1, skip it: %v, %v\n", t, p)
+				down = append(down, t) // it only touches the plane, do not lose it
 				continue
 			}
 			inters = append(inters, Path{Points: []Point{line.P1, line.P2}})
-- 
2.43.0


From f685de8dd92d8fb95e138a2078ef17510c0eec3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:01 +0000
Subject: [PATCH 02/54] fix: caps of concave sections and holes keep one
 orientation when a mesh is cut

---
 helpers/cut_mesh.go | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/helpers/cut_mesh.go b/helpers/cut_mesh.go
index 43eb8cb..4924df1 100644
--- a/helpers/cut_mesh.go
+++ b/helpers/cut_mesh.go
@@ -84,13 +84,10 @@ func CutMesh(mesh *Mesh, p Plane) (*Mesh, *Mesh, error) {
 		for j := 1; j < len(pth.Points)-1; j++ {
 			t := NewTriangle(pth.Points[0], pth.Points[j], pth.Points[j+1])
 			t2 := NewTriangle(pth.Points[j+1], pth.Points[j], pth.Points[0]) //with reverse normal
-			if t.N.CodirectedWith(p.N) { //triangle normal should go inside the mesh
-				up = append(up, t2)
-				down = append(down, t)
-			} else {
-				up = append(up, t)
-				down = append(down, t2)
-			}
+			// sections are oriented (outer ones clockwise, holes the other way), so the whole fan
+			// keeps one orientation: per triangle flips would break caps of concave sections and holes
+			up = append(up, t)
+			down = append(down, t2)
 		}
 	}
 
-- 
2.43.0


From 5c1ffc45c6b3fe534bcfc4bd412720296f003fd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:01 +0000
Subject: [PATCH 03/54] fix: slicing a flat or crossless mesh returns no layers
 instead of panicking

---
 slicers/slice_by_vector.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/slicers/slice_by_vector.go b/slicers/slice_by_vector.go
index 932b607..3b87cef 100644
--- a/slicers/slice_by_vector.go
+++ b/slicers/slice_by_vector.go
@@ -127,10 +127,16 @@ func SliceByVector(mesh *Mesh, Z Vector, settings Settings) []Layer {
 		return layers[i].Order < layers[j].Order
 	})
 
+	if n == 0 { // flat mesh
+		return nil
+	}
 	// filter out empty layers
 	if len(layers[0].Paths) == 0 {
 		layers = layers[1:]
 	}
+	if len(layers) == 0 {
+		return layers
+	}
 	if len(layers[len(layers)-1].Paths) == 0 {
 		layers = layers[:len(layers)-1]
 	}
-- 
2.43.0


From 623f5de3bb6bf53ab290100fc68169d21c8186ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:02 +0000
Subject: [PATCH 04/54] fix: angle between opposite vectors is 180 even when
 rounding overshoots

---
 primitives/vector.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/primitives/vector.go b/primitives/vector.go
index 6b59534..96aa5a9 100644
--- a/primitives/vector.go
+++ b/primitives/vector.go
@@ -82,6 +82,9 @@ func (a Vector) Reverse() Vector {
 
 func (a Vector) Angle(b Vector) float64 {
 	v := a.Dot(b) / a.Length() / b.Length()
+	if v < -1 && AlmostZero(v+1) { // rounding noise of opposite vectors
+		return 180
+	}
 	if v < -1 || v > 1 {
 		return 0
 	}
-- 
2.43.0


From 0c54747e87189fcbf9d481c40778aae2c859cccf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:03 +0000
Subject: [PATCH 05/54] fix: SaveSTL reports the error of the final flush

---
 primitives/stl.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/primitives/stl.go b/primitives/stl.go
index 8cbcddc..9ccaa77 100644
--- a/primitives/stl.go
+++ b/primitives/stl.go
@@ -142,6 +142,5 @@ func SaveSTL(path string, mesh *Mesh) error {
 			return err
 		}
 	}
-	w.Flush()
-	return nil
+	return w.Flush()
 }
-- 
2.43.0


From febe6eeb6fd2b613964c96361bb2edb90f230c17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:04 +0000
Subject: [PATCH 06/54] fix: first corner of an offset of a closed path is
 trimmed

---
 slicers/vip/offset_path.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/slicers/vip/offset_path.go b/slicers/vip/offset_path.go
index 689a430..11432b2 100644
--- a/slicers/vip/offset_path.go
+++ b/slicers/vip/offset_path.go
@@ -41,6 +41,7 @@ func MakeOffset(pth Path, nozzle float64, norm Vector) *Path {
 		}
 	}
 	if closedPath {
+		newPth[len(newPth)-1].P2 = newPth[0].P2 // keep the already trimmed end of the first line
 		newPth[0] = newPth[len(newPth)-1]
 		newPth = newPth[:len(newPth)-1] //remove added line
 	}
-- 
2.43.0


From 27c58d360b429d3086c765952f3298bca6469638 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:04 +0000
Subject: [PATCH 07/54] fix: wall thickness that is a multiple of the line
 width gets all its walls

---
 slicers/vip/utils.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/slicers/vip/utils.go b/slicers/vip/utils.go
index 51677c8..61d2d53 100644
--- a/slicers/vip/utils.go
+++ b/slicers/vip/utils.go
@@ -2,6 +2,7 @@ package vip
 
 import (
 	"bufio"
+	"math"
 	"os"
 
 	. "github.com/l1va/goosli/primitives"
@@ -11,6 +12,9 @@ import (
 //PrepareLayers add Walls and fill layers
 func PrepareLayers(layers []Layer, settings Settings, planes []Plane, fullPanes []Plane) []Layer {
 	addWallsCount := int(settings.WallThickness/settings.GcodeSettings.LineWidth) - 1
+	if lines := settings.WallThickness / settings.GcodeSettings.LineWidth; AlmostZero(math.Round(lines) - lines) {
+		addWallsCount = int(math.Round(lines)) - 1 // 1.2/0.4 is 2.9999999999999996
+	}
 	if addWallsCount > 0 {
 		for i, layer := range layers { //TODO: in parallel
 			for _, pt := range layer.Paths {
-- 
2.43.0


From 62612508f394c11075bd5f0da282ccaad8ec61e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:52 +0000
Subject: [PATCH 08/54] fix: steps below 0.001 do not accumulate into lost
 motion

---
 primitives/point.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/primitives/point.go b/primitives/point.go
index 681115b..313d6d0 100644
--- a/primitives/point.go
+++ b/primitives/point.go
@@ -28,15 +28,15 @@ func (a Point) MapKey() Point {
 
 func (a Point) StringGcode(b Point) string {
 	s_form := ""
-	if math.Abs(a.X-b.X) >= 0.001 {
+	if math.Abs(a.X-b.X) >= 0.001 || StrF(a.X) != StrF(b.X) {
 		s_form = fmt.Sprintf("%sX%s ", s_form, StrF(a.X))
 	}
 
-	if math.Abs(a.Y-b.Y) >= 0.001 {
+	if math.Abs(a.Y-b.Y) >= 0.001 || StrF(a.Y) != StrF(b.Y) {
 		s_form = fmt.Sprintf("%sY%s ", s_form, StrF(a.Y))
 	}
 
-	if math.Abs(a.Z-b.Z) >= 0.001 {
+	if math.Abs(a.Z-b.Z) >= 0.001 || StrF(a.Z) != StrF(b.Z) {
 		s_form = fmt.Sprintf("%sZ%s", s_form, StrF(a.Z))
 	}
 	return s_form
-- 
2.43.0


From 3af233c40fdd3ff51fd7592b08625d75b84a8ea8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:52 +0000
Subject: [PATCH 09/54] fix: retraction is relative to the extruded length,
 primed back and keeps the print speed

---
 gcode/cmds.go | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/gcode/cmds.go b/gcode/cmds.go
index 009be9c..b0b2494 100644
--- a/gcode/cmds.go
+++ b/gcode/cmds.go
@@ -176,12 +176,15 @@ func printSpeedToGCode(state State, sett GcodeSettings, b *bytes.Buffer) State {
 	return state
 }
 
-func retractionToGCode(b *bytes.Buffer, sett GcodeSettings) {
+// retractionToGCode moves the filament to the absolute position e and restores the printing speed
+func retractionToGCode(e float64, state State, sett GcodeSettings, b *bytes.Buffer) State {
 	if !sett.Retraction {
-		return
+		return state
 	}
 
-	b.WriteString("G1 F" + strconv.Itoa(sett.RetractionSpeed) + " E" + StrF(-sett.RetractionDistance) + "\n")
+	b.WriteString("G1 F" + strconv.Itoa(sett.RetractionSpeed) + " E" + StrF(e) + "\n")
+	state.feedrate = sett.RetractionSpeed
+	return printSpeedToGCode(state, sett, b)
 }
 
 func pathesToGCode(pths []Path, comment string, sett GcodeSettings, state State, b *bytes.Buffer) State {
@@ -193,9 +196,10 @@ func pathesToGCode(pths []Path, comment string, sett GcodeSettings, state State,
 	for _, p := range pths {
 		// Retraction first
 		b.WriteString("G0 " + state.pos.StringDeltaZ(0.5) + "\n") //z up a little during retract
-		retractionToGCode(b, sett)
+		state = retractionToGCode(state.eOff-sett.RetractionDistance, state, sett, b)
 		b.WriteString("G0 " + p.Points[0].StringDelta(0, 0, 0.5) + "\n")
 		b.WriteString("G0 " + p.Points[0].StringDeltaZ(0) + "\n")
+		state = retractionToGCode(state.eOff, state, sett, b) // prime back what was pulled in
 
 		for i := 1; i < len(p.Points); i++ {
 			p1 := p.Points[i-1]
-- 
2.43.0


From f7c3d3cf3e2d30b0e4170e5f47f0682db3557cd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:53 +0000
Subject: [PATCH 10/54] fix: bed rotations track head position and feedrate, no
 plunge and no slow print afterwards

---
 gcode/cmds.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/gcode/cmds.go b/gcode/cmds.go
index b0b2494..d8eecd5 100644
--- a/gcode/cmds.go
+++ b/gcode/cmds.go
@@ -49,6 +49,7 @@ func (r InclineXBack) ToGCode(b *bytes.Buffer, state State, sett GcodeSettings)
 	b.WriteString("T0 \n")
 	b.WriteString("G92 E" + StrF(state.eOff) + "\n")
 	state.t2 = 0
+	state = afterBedMove(state)
 	return state
 }
 func (r InclineXBack) LayersCount() int {
@@ -67,6 +68,7 @@ func (r InclineX) ToGCode(b *bytes.Buffer, state State, sett GcodeSettings) Stat
 	b.WriteString("T0 \n")
 	b.WriteString("G92 E" + StrF(state.eOff) + "\n")
 	state.t2 = 60
+	state = afterBedMove(state)
 	return state
 
 }
@@ -102,6 +104,7 @@ func (r RotateZ) ToGCode(b *bytes.Buffer, state State, sett GcodeSettings) State
 	b.WriteString("T0 \n")
 	b.WriteString("G92 E" + StrF(state.eOff) + "\n")
 	state.t1 = r.Angle
+	state = afterBedMove(state)
 	return state
 
 }
@@ -109,6 +112,13 @@ func (r RotateZ) LayersCount() int {
 	return 0
 }
 
+// afterBedMove tracks where the bed commands leave the head and the feedrate
+func afterBedMove(state State) State {
+	state.pos = Point{X: 0, Y: 0, Z: 200}
+	state.feedrate = 300
+	return state
+}
+
 type LayersMoving struct {
 	Layers []Layer
 }
-- 
2.43.0


From f03ff5d957fab2c4a688d044a07f3998cfb16eeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:54 +0000
Subject: [PATCH 11/54] fix: diagonal filling covers all the corners of the
 model

---
 slicers/fill_layer.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/slicers/fill_layer.go b/slicers/fill_layer.go
index 14ed9eb..0396b29 100644
--- a/slicers/fill_layer.go
+++ b/slicers/fill_layer.go
@@ -12,6 +12,9 @@ func calcFillPlanesCommon(mesh *Mesh, settings Settings, MyAxis Vector, step flo
 	minb, maxb := mesh.MinMaxZ(AxisY)
 	a, b := math.Sqrt(mina*mina+minb*minb), math.Sqrt(maxa*maxa+maxb*maxb)
 
+	// the opposite corners can be farther than these two
+	a, b = math.Max(a, math.Hypot(mina, maxb)), math.Max(b, math.Hypot(maxa, minb))
+
 	minx, maxx := - math.Max(a, b), math.Max(a, b) //TODO: hack, seems will work not always (rotations and inclinations)
 	//get minx which is  "k * step"
 	minx_step := float64(math.Floor((minx)/step)) * step
-- 
2.43.0


From d202aed8379084afca432d3189a5e76f89aa6703 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:55 +0000
Subject: [PATCH 12/54] fix: odd densities of squares and triangles filling are
 not truncated

---
 slicers/fill_layer.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/slicers/fill_layer.go b/slicers/fill_layer.go
index 0396b29..7fd72aa 100644
--- a/slicers/fill_layer.go
+++ b/slicers/fill_layer.go
@@ -40,7 +40,7 @@ func CalcFillPlanesLines(mesh *Mesh, settings Settings) []Plane {
 
 // filling with squares
 func CalcFillPlanesSquares(mesh *Mesh, settings Settings) []Plane {
-	step := (100 / float64(settings.FillDensity/2)) * settings.GcodeSettings.LineWidth
+	step := (100 / (float64(settings.FillDensity)/2)) * settings.GcodeSettings.LineWidth
 
 	//planes := calcFillPlanesCommon(mesh, settings, V(1, 0, 0), step)
 	//planes = append(planes, CalcFillPlanes0(mesh, settings, V(0, 1, 0), step)...)
@@ -53,7 +53,7 @@ func CalcFillPlanesSquares(mesh *Mesh, settings Settings) []Plane {
 
 // filling with triangles
 func CalcFillPlanesTriangles(mesh *Mesh, settings Settings) []Plane {
-	step := (100 / float64(settings.FillDensity/3)) * settings.GcodeSettings.LineWidth
+	step := (100 / (float64(settings.FillDensity)/3)) * settings.GcodeSettings.LineWidth
 
 	planes := calcFillPlanesCommon(mesh, settings, V(1, 0, 0), step)
 	planes = append(planes, calcFillPlanesCommon(mesh, settings, V(0.5, 0.8660254038, 0), step)...)
-- 
2.43.0


From caa01c599c5a76006c90f046745f50326e8c5a6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:55 +0000
Subject: [PATCH 13/54] fix: filling lines through contour vertices keep the
 inside/outside parity

---
 slicers/fill_layer.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/slicers/fill_layer.go b/slicers/fill_layer.go
index 7fd72aa..f901d84 100644
--- a/slicers/fill_layer.go
+++ b/slicers/fill_layer.go
@@ -215,6 +215,9 @@ func intersectByPlane(pathes []Path, plane Plane) []Path {
 	pts := []Point{}
 	for _, pth := range pathes {
 		for i := 1; i < len(pth.Points); i++ {
+			if plane.PointInFront(pth.Points[i-1]) == plane.PointInFront(pth.Points[i]) {
+				continue // does not change the side: a vertex on the plane must count once
+			}
 
 			p := plane.IntersectSegment(pth.Points[i-1], pth.Points[i])
 			if p != nil {
-- 
2.43.0


From 79264942717f04a6e72c85383e1c9761212369c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:27 +0000
Subject: [PATCH 14/54] fix: damaged stl files are reported instead of being
 loaded as something else

---
 primitives/stl.go | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/primitives/stl.go b/primitives/stl.go
index 9ccaa77..560daf7 100644
--- a/primitives/stl.go
+++ b/primitives/stl.go
@@ -3,6 +3,7 @@ package primitives
 import (
 	"bufio"
 	"encoding/binary"
+	"fmt"
 	"io"
 	"math"
 	"os"
@@ -43,6 +44,9 @@ func LoadSTL(path string) (*Mesh, error) {
 	if info.Size() == expectedSize {
 		return loadSTLBinary(file, int(header.Count))
 	}
+	if info.Size() > 0 && !looksLikeASCII(file) {
+		return nil, fmt.Errorf("%s: not an ascii stl and not a complete binary one, size %d instead of %d", path, info.Size(), expectedSize)
+	}
 	// rewind to start of file
 	_, err = file.Seek(0, 0)
 	if err != nil {
@@ -52,6 +56,21 @@ func LoadSTL(path string) (*Mesh, error) {
 
 }
 
+// looksLikeASCII tells a text stl ("solid ...", at least one facet or its end) from a damaged binary one
+func looksLikeASCII(file *os.File) bool {
+	if _, err := file.Seek(0, 0); err != nil {
+		return false
+	}
+	scanner := bufio.NewScanner(file)
+	for scanner.Scan() {
+		line := strings.TrimSpace(scanner.Text())
+		if strings.HasPrefix(line, "vertex") || strings.HasPrefix(line, "facet") || strings.HasPrefix(line, "endsolid") {
+			return true
+		}
+	}
+	return false
+}
+
 func loadSTLAscii(file *os.File) (*Mesh, error) {
 	var triangles []Triangle
 	var p1, p2, p3, px Point
@@ -78,6 +97,12 @@ func loadSTLAscii(file *os.File) (*Mesh, error) {
 		}
 		i++
 	}
+	if err := scanner.Err(); err != nil {
+		return nil, err
+	}
+	if i%3 != 0 {
+		return nil, io.ErrUnexpectedEOF // the last facet is cut off
+	}
 	mesh := NewMesh(triangles)
 	return &mesh, scanner.Err()
 }
-- 
2.43.0


From 1d539d9d03d8ba6f4f22999c3f41b6e9480fb4f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:28 +0000
Subject: [PATCH 15/54] fix: contours that touch each other in a point are
 joined and closed

---
 primitives/path.go | 33 ++++++++++++++++++++++++++++++++-
 1 file changed, 32 insertions(+), 1 deletion(-)

diff --git a/primitives/path.go b/primitives/path.go
index e1b1cd0..b9d880c 100644
--- a/primitives/path.go
+++ b/primitives/path.go
@@ -128,6 +128,12 @@ func JoinPaths3(p []Path) []Path {
 	sort.Slice(a, func(i, j int) bool {
 		b := a[i].P
 		c := a[j].P
+		if !AlmostZero(b.X - c.X) {
+			return b.X < c.X
+		}
+		if !AlmostZero(b.Y - c.Y) { // rounding noise of X should not decide
+			return b.Y < c.Y
+		}
 		return b.X < c.X || (AlmostZero(b.X-c.X) && b.Y < c.Y) || (AlmostZero(b.X-c.X) && AlmostZero(b.Y-c.Y) && b.Z < c.Z)
 	})
 
@@ -156,12 +162,37 @@ func JoinPaths3(p []Path) []Path {
 		}
 	}
 	res := []Path{}
+	var open []Path
 	for i := 0; i < n; i++ {
 		if w[i] == i {
+			if !p[i].IsClosed() {
+				open = append(open, p[i])
+				continue
+			}
 			res = append(res, p[i])
 		}
 	}
-	return res
+	return append(res, joinRest(open)...)
+}
+
+//joinRest joins what is left after neighbours are joined: more than two pathes can meet in one point
+func joinRest(p []Path) []Path {
+	for i := 0; i < len(p); i++ {
+		for j := 0; j < len(p) && !p[i].IsClosed(); j++ {
+			if i == j {
+				continue
+			}
+			if res := tryJoin(p[i], p[j]); res != nil {
+				p[i] = *res
+				p = append(p[:j], p[j+1:]...)
+				if j < i {
+					i--
+				}
+				j = -1
+			}
+		}
+	}
+	return p
 }
 
 func JoinPaths3AndMinimize(p []Path) []Path {
-- 
2.43.0


From 8794063d14c2ba2e56a4fa78efe364ad9d89863a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:28 +0000
Subject: [PATCH 16/54] fix: slicing by profile handles vertical profiles and
 profiles going to negative Y

---
 slicers/slice_by_profile.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/slicers/slice_by_profile.go b/slicers/slice_by_profile.go
index 6313364..4433f08 100644
--- a/slicers/slice_by_profile.go
+++ b/slicers/slice_by_profile.go
@@ -36,6 +36,12 @@ func SliceByProfile(mesh *Mesh, settings Settings) gcode.Gcode {
 		}
 		angleZ := v.ProjectOnPlane(PlaneXY).Angle(AxisX) + 90
 		angleX := v.Angle(AxisZ)
+		if v.Y < 0 { // angle has no sign
+			angleZ = 180 - angleZ
+		}
+		if AlmostZero(v.ProjectOnPlane(PlaneXY).Length()) { // straight up, nothing to rotate
+			angleZ, angleX = 0, 0
+		}
 
 		println("angles: ", angleX, " ", angleZ, "")
 		down = down.Rotate(RotationAroundZ(angleZ), OriginPoint)
-- 
2.43.0


From 15c79480253d1c4bea197b4e40aabc5eab5d51a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:29 +0000
Subject: [PATCH 17/54] fix: bed rotation for planes inclined to negative Y

---
 slicers/slice_5axes.go       | 3 +++
 slicers/vip/slice_bridge.go  | 3 +++
 slicers/vip/slice_default.go | 3 +++
 3 files changed, 9 insertions(+)

diff --git a/slicers/slice_5axes.go b/slicers/slice_5axes.go
index d2cc184..115bddf 100644
--- a/slicers/slice_5axes.go
+++ b/slicers/slice_5axes.go
@@ -114,6 +114,9 @@ func Slice5Axes(mesh *Mesh, settings Settings) gcode.Gcode {
 				rotated = false
 			} else {
 				angleZ = newPlane.N.ProjectOnPlane(PlaneXY).Angle(AxisX) + 90
+				if newPlane.N.Y < 0 { // angle has no sign
+					angleZ = 180 - angleZ
+				}
 				print(angleZ)
 				simpMesh = simpMesh.Rotate(RotationAroundZ(angleZ), OriginPoint)
 				simpMesh = simpMesh.Rotate(RotationAroundX(angleX), OriginPoint)
diff --git a/slicers/vip/slice_bridge.go b/slicers/vip/slice_bridge.go
index 29d302d..9b41a4d 100644
--- a/slicers/vip/slice_bridge.go
+++ b/slicers/vip/slice_bridge.go
@@ -49,6 +49,9 @@ func SliceBridge(mesh *Mesh, settings Settings, layers []Layer) gcode.Gcode {
 
 	// Rotate bed
 	angleZ := newPlane.N.ProjectOnPlane(PlaneXY).Angle(AxisX) + 90
+	if newPlane.N.Y < 0 { // angle has no sign
+		angleZ = 180 - angleZ
+	}
 	mesh = mesh.Rotate(RotationAroundZ(angleZ), OriginPoint)
 	mesh = mesh.Rotate(RotationAroundX(angleX), OriginPoint)
 	gcd.Add(gcode.RotateZ{Angle: angleZ})
diff --git a/slicers/vip/slice_default.go b/slicers/vip/slice_default.go
index 238cb40..325d796 100644
--- a/slicers/vip/slice_default.go
+++ b/slicers/vip/slice_default.go
@@ -70,6 +70,9 @@ func SliceDefault2(mesh *Mesh, settings Settings, layers []Layer) gcode.Gcode {
 				}
 			} else {
 				angleZ = newPlane.N.ProjectOnPlane(PlaneXY).Angle(AxisX) + 90
+				if newPlane.N.Y < 0 { // angle has no sign
+					angleZ = 180 - angleZ
+				}
 				println(angleZ)
 				mesh = mesh.Rotate(RotationAroundZ(angleZ), OriginPoint)
 				mesh = mesh.Rotate(RotationAroundX(angleX), OriginPoint)
-- 
2.43.0


From 1d4b720febf96930c7178fb6952e083a9ff7b42c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:16 +0000
Subject: [PATCH 18/54] fix: cutting planes lean to the overhang also when it
 goes to positive Y

---
 slicers/slice_5axes.go      | 3 +++
 slicers/vip/slice_bridge.go | 6 ++++++
 2 files changed, 9 insertions(+)

diff --git a/slicers/slice_5axes.go b/slicers/slice_5axes.go
index 115bddf..775aa22 100644
--- a/slicers/slice_5axes.go
+++ b/slicers/slice_5axes.go
@@ -162,6 +162,9 @@ func CalculateFails(prevLayer, curLayer Layer) *Plane {
 				pi := pl.IntersectPathCodirectedWith(prevPath, v)
 				if pi != nil {
 					angleZ := prevCp.VectorTo(*pi).Angle(AxisX) + 90
+					if prevCp.VectorTo(*pi).Y > 0 { // angle has no sign, rotation matrix turns clockwise
+						angleZ = 180 - angleZ
+					}
 					norm := AxisZ.Rotate(RotationAroundX(angleX)).Rotate(RotationAroundZ(angleZ))
 					return &Plane{P: *pi, N: norm}
 				}
diff --git a/slicers/vip/slice_bridge.go b/slicers/vip/slice_bridge.go
index 9b41a4d..4afa6a6 100644
--- a/slicers/vip/slice_bridge.go
+++ b/slicers/vip/slice_bridge.go
@@ -97,6 +97,9 @@ func failExistBridge(prevLayer, curLayer Layer) *Plane {
 	} else if AxisZ.Angle(prevIp1.VectorTo(*ip1)) > failAngle {
 		println(AxisZ.Angle(prevIp1.VectorTo(*ip1)))
 		angle := AxisX.Angle(cp1.VectorTo(cp2))
+		if cp1.VectorTo(cp2).Y > 0 { // angle has no sign, rotation matrix turns clockwise
+			angle = -angle
+		}
 		norm := AxisZ.Rotate(RotationAroundX(angleX)).Rotate(RotationAroundZ(angle + 90))
 		pl := Plane{*prevIp1, norm}
 		return &pl
@@ -110,6 +113,9 @@ func failExistBridge(prevLayer, curLayer Layer) *Plane {
 	} else if AxisZ.Angle(prevIp2.VectorTo(*ip2)) > failAngle {
 		println(AxisZ.Angle(prevIp2.VectorTo(*ip2)))
 		angle := AxisX.Angle(cp2.VectorTo(cp1))
+		if cp2.VectorTo(cp1).Y > 0 {
+			angle = -angle
+		}
 		norm := AxisZ.Rotate(RotationAroundX(angleX)).Rotate(RotationAroundZ(angle + 90))
 		pl := Plane{*prevIp2, norm}
 		return &pl
-- 
2.43.0


From 20a67b5c0026548e0a29c2601028aa976dcd3683 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:16 +0000
Subject: [PATCH 19/54] fix: concave contours are not taken for holes when
 outside pathes are looked for

---
 slicers/vip/slice_bridge.go | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/slicers/vip/slice_bridge.go b/slicers/vip/slice_bridge.go
index 4afa6a6..0c9b92f 100644
--- a/slicers/vip/slice_bridge.go
+++ b/slicers/vip/slice_bridge.go
@@ -135,14 +135,8 @@ func getTwoOutsidePathes(layer Layer) (Path, Path) {
 func getAllOutsidePathes(layer Layer) []Path { //for horizontal pathes
 	var res []Path
 	for i, pth := range layer.Paths {
-		curP := FindCentroid(pth)
-
-		if len(pth.Points) > 1 { //skip path if it is just an inner hole
-			p1 := pth.Points[0]
-			p2 := pth.Points[1]
-			if p1.VectorTo(p2).Cross(AxisZ).CodirectedWith(curP.VectorTo(p1)) {
-				continue
-			}
+		if len(pth.Points) > 1 && pth.IsHole() { //skip path if it is just an inner hole
+			continue
 		}
 		res = append(res, layer.Paths[i])
 	}
-- 
2.43.0


From 880a88bd94df4ff687e1dcb90f1b3a36ed18941a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:17 +0000
Subject: [PATCH 20/54] fix: vip slicing of models without overhangs does not
 panic

---
 slicers/vip/slice_bridge.go   | 6 ++++++
 slicers/vip/slice_main.go     | 7 ++++++-
 slicers/vip/slice_rotation.go | 6 ++++++
 3 files changed, 18 insertions(+), 1 deletion(-)

diff --git a/slicers/vip/slice_bridge.go b/slicers/vip/slice_bridge.go
index 0c9b92f..bfcbb91 100644
--- a/slicers/vip/slice_bridge.go
+++ b/slicers/vip/slice_bridge.go
@@ -34,6 +34,9 @@ func SliceBridge(mesh *Mesh, settings Settings, layers []Layer) gcode.Gcode {
 	// Add horizontal layers
 	gcd.AddLayers(PrepareLayers(layers[:i], settings, fillPlanes, fullFillPlanes))
 
+	if i == len(layers) { // nothing hangs over, no rotation is needed
+		return gcd
+	}
 	anyPoint := layers[i].Paths[0].Points[0]
 	mesh, down, err := helpers.CutMesh(mesh, Plane{anyPoint, AxisZ})
 	if err != nil {
@@ -76,6 +79,9 @@ func SliceBridge(mesh *Mesh, settings Settings, layers []Layer) gcode.Gcode {
 
 func failExistBridge(prevLayer, curLayer Layer) *Plane {
 
+	if len(getAllOutsidePathes(prevLayer)) != 2 || len(getAllOutsidePathes(curLayer)) != 2 {
+		return nil // legs are joined already or not started
+	}
 	prevP1, prevP2 := getTwoOutsidePathes(prevLayer)
 	p1, p2 := getTwoOutsidePathes(curLayer)
 	prevCp1 := FindCentroid(prevP1)
diff --git a/slicers/vip/slice_main.go b/slicers/vip/slice_main.go
index 4e3786e..a113f67 100644
--- a/slicers/vip/slice_main.go
+++ b/slicers/vip/slice_main.go
@@ -27,14 +27,19 @@ func Slice(mesh *Mesh, settings Settings) gcode.Gcode {
 
 	layers := SliceByVector(mesh, AxisZ, settings)
 
+	if len(layers) == 0 {
+		return gcode.NewGcode(*settings.GcodeSettings)
+	}
 	op := getAllOutsidePathes(layers[0])
+	if len(op) == 0 {
+		return SliceDefault2(mesh, settings, layers)
+	}
 	if len(op) == 2 {
 		return SliceBridge(mesh, settings, layers)
 	}
 	println("outside pathes: ", len(op), len(op[0].Points))
 	if len(op) == 1 && isRotation(op[0]) {
 		op = getAllOutsidePathes(layers[len(layers)-1])
-		println("outside pathes: ", len(op), len(op[0].Points))
 		if len(op) == 1 && isRotation(op[0]) {
 			return SliceRotation(mesh, settings, layers)
 		}
diff --git a/slicers/vip/slice_rotation.go b/slicers/vip/slice_rotation.go
index ec8bf0c..5244fe1 100644
--- a/slicers/vip/slice_rotation.go
+++ b/slicers/vip/slice_rotation.go
@@ -32,6 +32,9 @@ func SliceRotation(mesh *Mesh, settings Settings, layers []Layer) gcode.Gcode {
 	// Add horizontal layers
 	gcd.AddLayers(PrepareLayers(layers[:i], settings, fillPlanes, fullFillPlanes))
 
+	if i == len(layers) { // nothing hangs over, no rotation is needed
+		return gcd
+	}
 	anyPoint := layers[i].Paths[0].Points[0]
 	mesh, _, err := helpers.CutMesh(mesh, Plane{anyPoint, AxisZ})
 	if err != nil {
@@ -66,6 +69,9 @@ func failRotaion(prevLayer, curLayer Layer) bool {
 		println("curLayer has not one path: ", len(curLayer.Paths))
 	}
 
+	if len(prevLayer.Paths) == 0 || len(curLayer.Paths) == 0 {
+		return false
+	}
 	anyP := prevLayer.Paths[0].Points[0]
 	//nearestP := curLayer.Paths[0].Lines[0].P1
 	//d := anyP.DistanceTo(nearestP)
-- 
2.43.0


From 7555131601d3e13c47b42445571f20e0643d219d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:17 +0000
Subject: [PATCH 21/54] fix: models and parts of one layer are printed in vip
 and 5axes modes

---
 slicers/slice_5axes.go       | 3 +++
 slicers/vip/slice_default.go | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/slicers/slice_5axes.go b/slicers/slice_5axes.go
index 775aa22..84cb148 100644
--- a/slicers/slice_5axes.go
+++ b/slicers/slice_5axes.go
@@ -45,6 +45,9 @@ func Slice5Axes(mesh *Mesh, settings Settings) gcode.Gcode {
 	for i < len(layers) {
 		if i == 0 {
 			i++
+			if i == len(layers) { // the only layer, there is nothing to compare it with
+				gcd.AddLayers(toAdd)
+			}
 			continue
 		}
 
diff --git a/slicers/vip/slice_default.go b/slicers/vip/slice_default.go
index 325d796..5369fc0 100644
--- a/slicers/vip/slice_default.go
+++ b/slicers/vip/slice_default.go
@@ -93,6 +93,9 @@ func SliceDefault2(mesh *Mesh, settings Settings, layers []Layer) gcode.Gcode {
 			i = 1
 		}
 	}
+	if len(layers) == 1 { // there was nothing to compare it with
+		gcd.AddLayers(PrepareLayers(layers, settings, fillPlanes, fullFillPlanes))
+	}
 	return gcd
 
 }
-- 
2.43.0


From 88f115bcfee1957de5bbdf3e1e705fc39c9d76dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:18 +0000
Subject: [PATCH 22/54] fix: analyzer looks at the triangles that are left and
 prints the angle of the plane it cuts by

---
 slicers/vip/analyze.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/slicers/vip/analyze.go b/slicers/vip/analyze.go
index f6bedd7..84b0367 100644
--- a/slicers/vip/analyze.go
+++ b/slicers/vip/analyze.go
@@ -60,10 +60,16 @@ func Analyze(mesh *Mesh, angle float64) []AnalyzedPlane {
 		var t *Triangle
 		for i, fail := range fails {
 			if fail {
-				t2 := mesh.Triangles[i]
+				t2 := curMesh.Triangles[i]
 				if t2.P1.Z < 0.01 && t2.P2.Z < 0.01 && t2.P3.Z < 0.01 { // it is first layer, skip
 					continue
 				}
+				if len(ans) > 0 && curPlane.PointBelongs(t2.P1) && curPlane.PointBelongs(t2.P2) && curPlane.PointBelongs(t2.P3) { // it lies on what is printed before
+					continue
+				}
+				if AlmostZero(t2.N.ProjectOnPlane(PlaneXY).Length()) { // horizontal, no direction to incline to
+					continue
+				}
 				if t == nil || t.MinZ(curPlaneV) > t2.MinZ(curPlaneV) {
 					t = &t2
 				}
@@ -90,9 +96,12 @@ func Analyze(mesh *Mesh, angle float64) []AnalyzedPlane {
 			curPlane = AnalyzedPlane{Plane{P: p, N: AxisZ}, false, 0}
 		} else {
 			angle := t.N.ProjectOnPlane(PlaneXY).Angle(AxisX) - 90
+			if t.N.Y < 0 { // angle has no sign
+				angle = -180 - angle
+			}
 			a := t.N.ProjectOnPlane(PlaneXY)
 			b := a.Rotate(RotationAroundZ(90))
-			norm := a.RotateAbout(b, 90-angleX)
+			norm := a.RotateAbout(b, 90-angleX).Normalize()
 			println("angle x:", angle, norm.Angle(AxisX), norm.ProjectOnPlane(PlaneXY).Angle(AxisX))
 			curPlane = AnalyzedPlane{Plane{P: p, N: norm}, true, angle}
 		}
-- 
2.43.0


From 933393a62d91d16de23a8c76e209000f1e60a5ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:18 +0000
Subject: [PATCH 23/54] fix: simplification of an empty line does not panic

---
 helpers/simplify_line.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/helpers/simplify_line.go b/helpers/simplify_line.go
index 408512b..dbf3599 100644
--- a/helpers/simplify_line.go
+++ b/helpers/simplify_line.go
@@ -6,6 +6,9 @@ import (
 
 //SimplifyLine - DouglasPeucker algorithm of line simplification
 func SimplifyLine(ps []Point, epsilon float64) []Point {
+	if len(ps) == 0 {
+		return ps
+	}
 	// Find the point with the maximum distance
 	dmax := 0.0
 	index := 0
-- 
2.43.0


From 1a9daa90d9dd02ef0ba0a85fff207c1f602f0de6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:19 +0000
Subject: [PATCH 24/54] fix: printing flow is taken into account

---
 gcode/cmds.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/gcode/cmds.go b/gcode/cmds.go
index d8eecd5..f94d420 100644
--- a/gcode/cmds.go
+++ b/gcode/cmds.go
@@ -215,6 +215,9 @@ func pathesToGCode(pths []Path, comment string, sett GcodeSettings, state State,
 			p1 := p.Points[i-1]
 			p2 := p.Points[i]
 			lDist := math.Sqrt(math.Pow(p2.X-p1.X, 2) + math.Pow(p2.Y-p1.Y, 2) + math.Pow(p2.Z-p1.Z, 2))
+			if sett.Flow > 0 { // flow scales the amount of plastic
+				lDist *= sett.Flow
+			}
 			state.eOff += (4 * sett.LineWidth * sett.LayerHeight * lDist) / (math.Pow(sett.BarDiameter, 2) * math.Pi)
 			b.WriteString("G1 " + p2.StringGcode(p1) + " E" + StrF(state.eOff) + "\n")
 		}
-- 
2.43.0


From c123faadf3d0911cee7238e452e785d3187b7396 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:46 +0000
Subject: [PATCH 25/54] fix: layer planes that go through mesh vertices do not
 double the contours

---
 slicers/slice_by_vector.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/slicers/slice_by_vector.go b/slicers/slice_by_vector.go
index 3b87cef..7f4957a 100644
--- a/slicers/slice_by_vector.go
+++ b/slicers/slice_by_vector.go
@@ -156,6 +156,10 @@ func slicingWorker(in chan job, out chan Layer) func(wi, wn int) {
 		for job := range in {
 			paths = paths[:0]
 			for _, t := range job.triangles {
+				front := job.plane.PointInFront(t.P1)
+				if front == job.plane.PointInFront(t.P2) && front == job.plane.PointInFront(t.P3) {
+					continue // only touches the plane, the triangle from the other side of the edge gives the line
+				}
 				if line := job.plane.IntersectTriangle(t); line != nil {
 					paths = append(paths, Path{Points: []Point{line.P1, line.P2}})
 				}
-- 
2.43.0


From dd94c997c084d3d5ba16c5cda6fbf964e9b4522e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:26 +0000
Subject: [PATCH 26/54] fix: side of a point near a plane agrees with the
 intersection of segments

---
 primitives/plane.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/primitives/plane.go b/primitives/plane.go
index 23ccd91..636a4c8 100644
--- a/primitives/plane.go
+++ b/primitives/plane.go
@@ -100,7 +100,8 @@ func (p Plane) IntersectPathCodirectedWith(path Path, v Vector) *Point {
 }
 
 func (p Plane) PointInFront(v Point) bool {
-	return p.P.VectorTo(v).Dot(p.N) >= 0
+	// the same projections as in IntersectSegment, to agree with it about points on the plane
+	return v.ToVector().Dot(p.N) >= p.P.ToVector().Dot(p.N)
 }
 
 func (p Plane) ProectionPointToPlane(M Point) Point {
-- 
2.43.0


From 64bf455277aee82957d087951671ee5c44f49a74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:47 +0000
Subject: [PATCH 27/54] fix: cut triangles with long sides are split correctly

---
 helpers/cut_mesh.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/helpers/cut_mesh.go b/helpers/cut_mesh.go
index 4924df1..3d6186e 100644
--- a/helpers/cut_mesh.go
+++ b/helpers/cut_mesh.go
@@ -111,7 +111,8 @@ func splitOnThree(p1 Point, line Line, t Triangle) []Triangle {
 		t1, t2, t3 = t3, t1, t2
 	}
 
-	if AlmostZero(t1.VectorTo(t2).Cross(t1.VectorTo(lp2)).Length()) {
+	side := t1.VectorTo(t2)
+	if side.Cross(t1.VectorTo(lp2)).Length() < side.Cross(t1.VectorTo(lp1)).Length() { // a fixed limit fails for long sides
 		// lp2 lies on t1->t2 vector, but should lp1 lie
 		lp1, lp2 = lp2, lp1
 	}
-- 
2.43.0


From 2c72e6849c94c9d399436b75807fae7886c2650e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:37 +0000
Subject: [PATCH 28/54] fix: no degenerate triangles over the cutting plane

---
 helpers/cut_mesh.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/helpers/cut_mesh.go b/helpers/cut_mesh.go
index 3d6186e..30633b2 100644
--- a/helpers/cut_mesh.go
+++ b/helpers/cut_mesh.go
@@ -41,7 +41,9 @@ func CutMesh(mesh *Mesh, p Plane) (*Mesh, *Mesh, error) {
 			line := p.IntersectTriangle(&t)
 			if line == nil {
 				log.Printf("failed to intersect triangle by plane2, skip it: %v, %v\n", t, p)
-				up = append(up, t) // no cross section: the triangle as a whole stays on the side of its bulk
+				if !AlmostZero(t.N.Length()) { // degenerate ones would only stretch the part over the plane
+					up = append(up, t) // no cross section: the triangle as a whole stays on the side of its bulk
+				}
 				continue
 			}
 			inters = append(inters, Path{Points: []Point{line.P1, line.P2}})
@@ -56,7 +58,9 @@ func CutMesh(mesh *Mesh, p Plane) (*Mesh, *Mesh, error) {
 			line := p.IntersectTriangle(&t)
 			if line == nil {
 				log.Printf("failed to intersect triangle by plane1, skip it: %v, %v\n", t, p)
-				down = append(down, t) // it only touches the plane, do not lose it
+				if !AlmostZero(t.N.Length()) {
+					down = append(down, t) // it only touches the plane, do not lose it
+				}
 				continue
 			}
 			inters = append(inters, Path{Points: []Point{line.P1, line.P2}})
@@ -82,6 +86,9 @@ func CutMesh(mesh *Mesh, p Plane) (*Mesh, *Mesh, error) {
 	for _, pth := range joined { //generate addition triangles to close the cut
 		//debug.AddPath(pth, debug.GreenColor)
 		for j := 1; j < len(pth.Points)-1; j++ {
+			if pth.Points[j+1].Equal(pth.Points[0]) {
+				continue // closing point of the section, the triangle would be degenerate
+			}
 			t := NewTriangle(pth.Points[0], pth.Points[j], pth.Points[j+1])
 			t2 := NewTriangle(pth.Points[j+1], pth.Points[j], pth.Points[0]) //with reverse normal
 			// sections are oriented (outer ones clockwise, holes the other way), so the whole fan
-- 
2.43.0


From 7fe4b8e2c59b076207df26699edf9217f05491a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:01 +0000
Subject: [PATCH 29/54] fix: flush error of colorizer is reported

---
 cmd/goosli_colorizer/goosli_colorizer.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cmd/goosli_colorizer/goosli_colorizer.go b/cmd/goosli_colorizer/goosli_colorizer.go
index e3aca31..eed917c 100644
--- a/cmd/goosli_colorizer/goosli_colorizer.go
+++ b/cmd/goosli_colorizer/goosli_colorizer.go
@@ -44,5 +44,7 @@ func main() {
 		log.Fatal("failed to write value of colorize triangles: ", err)
 	}
 
-	w.Flush()
+	if err = w.Flush(); err != nil {
+		log.Fatal("failed to save colorize triangles: ", err)
+	}
 }
-- 
2.43.0


From 4bcf7ad531dfef1ac343200cf9017dcfb72d9d94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:01 +0000
Subject: [PATCH 30/54] fix: cut off or unreadable ascii stl is reported
 instead of being loaded as something else

---
 primitives/stl.go | 29 +++++++++++++++++++++++++++--
 1 file changed, 27 insertions(+), 2 deletions(-)

diff --git a/primitives/stl.go b/primitives/stl.go
index 560daf7..9034a08 100644
--- a/primitives/stl.go
+++ b/primitives/stl.go
@@ -7,6 +7,7 @@ import (
 	"io"
 	"math"
 	"os"
+	"strconv"
 	"strings"
 )
 
@@ -75,9 +76,19 @@ func loadSTLAscii(file *os.File) (*Mesh, error) {
 	var triangles []Triangle
 	var p1, p2, p3, px Point
 	i := 0
+	ended := false
 	scanner := bufio.NewScanner(file)
 	for scanner.Scan() {
 		line := strings.TrimSpace(scanner.Text())
+		if strings.HasPrefix(line, "endsolid") {
+			ended = true
+		}
+		if len(line) > 0 && line[0] == 'v' {
+			ended = false
+			if err := checkVertex(line); err != nil {
+				return nil, err
+			}
+		}
 		if len(line) < 12 || line[0] != 'v' {
 			continue
 		}
@@ -100,14 +111,28 @@ func loadSTLAscii(file *os.File) (*Mesh, error) {
 	if err := scanner.Err(); err != nil {
 		return nil, err
 	}
-	if i%3 != 0 {
-		return nil, io.ErrUnexpectedEOF // the last facet is cut off
+	if i%3 != 0 || !ended {
+		return nil, io.ErrUnexpectedEOF // the last facet or the end of the solid is cut off
 	}
 	mesh := NewMesh(triangles)
 	return &mesh, scanner.Err()
 }
 
 
+// checkVertex reports a damaged vertex line of ascii stl
+func checkVertex(line string) error {
+	fields := strings.Fields(line)
+	if len(fields) != 4 || fields[0] != "vertex" {
+		return fmt.Errorf("bad vertex in stl: %q", line)
+	}
+	for _, f := range fields[1:] {
+		if _, err := strconv.ParseFloat(f, 32); err != nil {
+			return fmt.Errorf("bad vertex in stl: %q: %v", line, err)
+		}
+	}
+	return nil
+}
+
 func makeFloat(b []byte) float64 {
 	return float64(math.Float32frombits(binary.LittleEndian.Uint32(b)))
 }
-- 
2.43.0


From 917c9daf03c1e0327b464bb18cfc1dc93311e52c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:53 +0000
Subject: [PATCH 31/54] fix: neighbours of a vanished offset edge meet each
 other

---
 slicers/vip/offset_path.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/slicers/vip/offset_path.go b/slicers/vip/offset_path.go
index 11432b2..d0f31bc 100644
--- a/slicers/vip/offset_path.go
+++ b/slicers/vip/offset_path.go
@@ -61,15 +61,15 @@ func MakeOffset(pth Path, nozzle float64, norm Vector) *Path {
 		num = len(afterRemove)
 	}
 	for i := 0; i < num; i++ {
-		a := afterRemove[i]
-		b := afterRemove[(i+1)%len(afterRemove)]
+		a := &afterRemove[i]
+		b := &afterRemove[(i+1)%len(afterRemove)]
 		if !AlmostZero(a.P2.DistanceTo(b.P1)) {
-			inters := a.IntersectLine2(b)
+			inters := a.IntersectLine2(*b)
 			if inters != nil {
 				a.P2 = *inters
 				b.P1 = *inters
 			} else {
-				debug.AddLine(a, debug.BlueColor)
+				debug.AddLine(*a, debug.BlueColor)
 				debug.AddLine(Line{b.P1, b.P2.Shift(AxisX.MulScalar(15))}, debug.BlackColor)
 				b.P1 = a.P2
 			}
-- 
2.43.0


From 7a9cbc61b6ac57476bb01a55bc20bea5287f2097 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:05 +0000
Subject: [PATCH 32/54] fix: offset edges that vanish after their neighbours
 are removed too

---
 slicers/vip/offset_path.go | 54 +++++++++++++++++++++-----------------
 1 file changed, 30 insertions(+), 24 deletions(-)

diff --git a/slicers/vip/offset_path.go b/slicers/vip/offset_path.go
index d0f31bc..83c0fae 100644
--- a/slicers/vip/offset_path.go
+++ b/slicers/vip/offset_path.go
@@ -45,35 +45,41 @@ func MakeOffset(pth Path, nozzle float64, norm Vector) *Path {
 		newPth[0] = newPth[len(newPth)-1]
 		newPth = newPth[:len(newPth)-1] //remove added line
 	}
-	var remove []bool
 	var afterRemove []Line
-	for i := 0; i < len(newPth); i++ {
-		if newPth[i].ToVector().CodirectedWith(copyNewPth[i].ToVector()) {
-			remove = append(remove, false)
-			afterRemove = append(afterRemove, newPth[i])
-		} else {
-			remove = append(remove, true) //remove if become reversed
+	for {
+		var directions []Line
+		afterRemove = nil
+		for i := 0; i < len(newPth); i++ {
+			if newPth[i].ToVector().CodirectedWith(copyNewPth[i].ToVector()) {
+				afterRemove = append(afterRemove, newPth[i])
+				directions = append(directions, copyNewPth[i])
+			} //remove if become reversed
 		}
-	}
 
-	num := len(afterRemove) - 1
-	if closedPath {
-		num = len(afterRemove)
-	}
-	for i := 0; i < num; i++ {
-		a := &afterRemove[i]
-		b := &afterRemove[(i+1)%len(afterRemove)]
-		if !AlmostZero(a.P2.DistanceTo(b.P1)) {
-			inters := a.IntersectLine2(*b)
-			if inters != nil {
-				a.P2 = *inters
-				b.P1 = *inters
-			} else {
-				debug.AddLine(*a, debug.BlueColor)
-				debug.AddLine(Line{b.P1, b.P2.Shift(AxisX.MulScalar(15))}, debug.BlackColor)
-				b.P1 = a.P2
+		num := len(afterRemove) - 1
+		if closedPath {
+			num = len(afterRemove)
+		}
+		for i := 0; i < num; i++ {
+			a := &afterRemove[i]
+			b := &afterRemove[(i+1)%len(afterRemove)]
+			if !AlmostZero(a.P2.DistanceTo(b.P1)) {
+				inters := a.IntersectLine2(*b)
+				if inters != nil {
+					a.P2 = *inters
+					b.P1 = *inters
+				} else {
+					debug.AddLine(*a, debug.BlueColor)
+					debug.AddLine(Line{b.P1, b.P2.Shift(AxisX.MulScalar(15))}, debug.BlackColor)
+					b.P1 = a.P2
+				}
 			}
 		}
+
+		if len(afterRemove) == len(newPth) {
+			break
+		}
+		newPth, copyNewPth = afterRemove, directions //lines can become reversed without removed neighbours
 	}
 
 	if len(afterRemove) < 2 {
-- 
2.43.0


From bdb11f534843878bc47b68548ae815f2dd8a485c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:29 +0000
Subject: [PATCH 33/54] fix: filling of rotated parts covers the whole part

---
 slicers/vip/slice_by_planes.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/slicers/vip/slice_by_planes.go b/slicers/vip/slice_by_planes.go
index 37e4360..0bf2bfb 100644
--- a/slicers/vip/slice_by_planes.go
+++ b/slicers/vip/slice_by_planes.go
@@ -17,7 +17,6 @@ type BedPlane struct {
 func SliceByPlanes(mesh *Mesh, settings slicers.Settings, cutPlanes []AnalyzedPlane) gcode.Gcode {
 	gcd := gcode.NewGcode(*settings.GcodeSettings)
 	debug.RecreateFile()
-	fillPlanes, fullFillPlanes := slicers.CalcFillPlanes(mesh, settings)
 	var up *Mesh
 	var err error
 
@@ -51,7 +50,8 @@ func SliceByPlanes(mesh *Mesh, settings slicers.Settings, cutPlanes []AnalyzedPl
 			rotated = false
 		}
 		add := slicers.SliceByVector(curmesh, AxisZ, settings)
-		filled := PrepareLayers(add, settings, fillPlanes, fullFillPlanes) //TODO: fillPlanes fix
+		fillPlanes, fullFillPlanes := slicers.CalcFillPlanes(curmesh, settings) // rotated part can be out of the planes of the mesh
+		filled := PrepareLayers(add, settings, fillPlanes, fullFillPlanes)
 		if i == 0 && len(filled) > 0 {
 			filled[0] = SkirtPathes(filled[0], settings.SkirtLineCount, settings.GcodeSettings.LineWidth)
 		}
-- 
2.43.0


From bb6c7c4f9c91613955c312c635b46f7cee9ef608 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:55 +0000
Subject: [PATCH 34/54] fix: caps of concave sections do not overlap themselves

---
 helpers/cut_mesh.go    |  16 +----
 helpers/triangulate.go | 158 +++++++++++++++++++++++++++++++++++++++++
 2 files changed, 161 insertions(+), 13 deletions(-)
 create mode 100644 helpers/triangulate.go

diff --git a/helpers/cut_mesh.go b/helpers/cut_mesh.go
index 30633b2..aebe4a4 100644
--- a/helpers/cut_mesh.go
+++ b/helpers/cut_mesh.go
@@ -83,19 +83,9 @@ func CutMesh(mesh *Mesh, p Plane) (*Mesh, *Mesh, error) {
 	println("cut mesh, init and joined", len(inters), len(joined))
 
 	//debug.RecreateFile()
-	for _, pth := range joined { //generate addition triangles to close the cut
-		//debug.AddPath(pth, debug.GreenColor)
-		for j := 1; j < len(pth.Points)-1; j++ {
-			if pth.Points[j+1].Equal(pth.Points[0]) {
-				continue // closing point of the section, the triangle would be degenerate
-			}
-			t := NewTriangle(pth.Points[0], pth.Points[j], pth.Points[j+1])
-			t2 := NewTriangle(pth.Points[j+1], pth.Points[j], pth.Points[0]) //with reverse normal
-			// sections are oriented (outer ones clockwise, holes the other way), so the whole fan
-			// keeps one orientation: per triangle flips would break caps of concave sections and holes
-			up = append(up, t)
-			down = append(down, t2)
-		}
+	for _, t := range triangulate(joined, p.N.Normalize()) { //generate addition triangles to close the cut
+		up = append(up, t)
+		down = append(down, NewTriangle(t.P3, t.P2, t.P1)) //with reverse normal
 	}
 
 	resUp := NewMesh(up)
diff --git a/helpers/triangulate.go b/helpers/triangulate.go
new file mode 100644
index 0000000..1035c99
--- /dev/null
+++ b/helpers/triangulate.go
@@ -0,0 +1,158 @@
+package helpers
+
+import (
+	. "github.com/l1va/goosli/primitives"
+)
+
+// triangulate closes sections with triangles: outer contours go clockwise around n, holes the other way.
+// Any triangle cut off leaves the border right, so parts that have no proper ear are closed with a fan.
+func triangulate(pths []Path, n Vector) []Triangle {
+	var outers, holes, rest [][]Point
+	for _, pth := range pths {
+		pts := pth.Points
+		if len(pts) < 4 || !pth.IsClosed() {
+			rest = append(rest, pts)
+			continue
+		}
+		pts = pts[:len(pts)-1]
+		if area(pts, n) < 0 {
+			outers = append(outers, pts)
+		} else {
+			holes = append(holes, pts)
+		}
+	}
+	for len(holes) > 0 { // the nearest hole first, so that it is joined before the ones it can hide
+		hi, oi, hp, op, best := -1, -1, 0, 0, 0.0
+		for i, h := range holes {
+			for o, out := range outers {
+				if !insideContour(h[0], out, n) {
+					continue
+				}
+				for a := range h {
+					for b := range out {
+						d := h[a].DistanceTo(out[b])
+						if (hi < 0 || d < best) && visible(h[a], out[b], outers, holes, n) {
+							hi, oi, hp, op, best = i, o, a, b, d
+						}
+					}
+				}
+			}
+		}
+		if hi < 0 {
+			rest = append(rest, holes...)
+			break
+		}
+		h, out := holes[hi], outers[oi]
+		var joined []Point
+		joined = append(joined, out[:op+1]...)
+		joined = append(joined, h[hp:]...)
+		joined = append(joined, h[:hp+1]...)
+		joined = append(joined, out[op:]...)
+		outers[oi] = joined
+		holes = append(holes[:hi:hi], holes[hi+1:]...)
+	}
+	var res []Triangle
+	for _, pts := range outers {
+		res = append(res, cutEars(pts, n)...)
+	}
+	for _, pts := range rest {
+		res = append(res, fan(pts)...)
+	}
+	return res
+}
+
+func cutEars(pts []Point, n Vector) []Triangle {
+	var res []Triangle
+	pts = append([]Point{}, pts...)
+	for len(pts) > 3 {
+		ear := -1
+		for i := range pts {
+			if isEar(pts, i, n) {
+				ear = i
+				break
+			}
+		}
+		if ear < 0 {
+			break
+		}
+		res = append(res, NewTriangle(pts[(ear+len(pts)-1)%len(pts)], pts[ear], pts[(ear+1)%len(pts)]))
+		pts = append(pts[:ear], pts[ear+1:]...)
+	}
+	return append(res, fan(pts)...)
+}
+
+func isEar(pts []Point, i int, n Vector) bool {
+	a, b, c := pts[(i+len(pts)-1)%len(pts)], pts[i], pts[(i+1)%len(pts)]
+	if side(a, b, c, n) >= 0 {
+		return false
+	}
+	for _, p := range pts {
+		if p == a || p == b || p == c {
+			continue
+		}
+		if side(a, b, p, n) <= 0 && side(b, c, p, n) <= 0 && side(c, a, p, n) <= 0 {
+			return false
+		}
+	}
+	return true
+}
+
+// visible checks that a-b crosses no contour
+func visible(a, b Point, outers, holes [][]Point, n Vector) bool {
+	for _, contours := range [][][]Point{outers, holes} {
+		for _, pts := range contours {
+			for i := range pts {
+				p, q := pts[i], pts[(i+1)%len(pts)]
+				if p == a || p == b || q == a || q == b {
+					continue
+				}
+				if side(a, b, p, n)*side(a, b, q, n) <= 0 && side(p, q, a, n)*side(p, q, b, n) <= 0 {
+					return false
+				}
+			}
+		}
+	}
+	return true
+}
+
+func insideContour(p Point, pts []Point, n Vector) bool {
+	u, v := basis(n)
+	x, y := p.ToVector().Dot(u), p.ToVector().Dot(v)
+	in := false
+	for i := range pts {
+		a, b := pts[i].ToVector(), pts[(i+1)%len(pts)].ToVector()
+		if (a.Dot(v) > y) != (b.Dot(v) > y) && x < a.Dot(u)+(b.Dot(u)-a.Dot(u))*(y-a.Dot(v))/(b.Dot(v)-a.Dot(v)) {
+			in = !in
+		}
+	}
+	return in
+}
+
+func basis(n Vector) (Vector, Vector) {
+	u := n.Cross(AxisX)
+	if u.Length() < 0.5 {
+		u = n.Cross(AxisY)
+	}
+	u = u.Normalize()
+	return u, n.Cross(u)
+}
+
+func side(a, b, c Point, n Vector) float64 {
+	return a.VectorTo(b).Cross(a.VectorTo(c)).Dot(n)
+}
+
+func area(pts []Point, n Vector) float64 {
+	res := 0.0
+	for i := 1; i+1 < len(pts); i++ {
+		res += side(pts[0], pts[i], pts[i+1], n)
+	}
+	return res
+}
+
+func fan(pts []Point) []Triangle {
+	var res []Triangle
+	for i := 1; i+1 < len(pts); i++ {
+		res = append(res, NewTriangle(pts[0], pts[i], pts[i+1]))
+	}
+	return res
+}
-- 
2.43.0


From 3ded450225007f2bc6b7d0599ccf3bb574074c97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:18 +0000
Subject: [PATCH 35/54] fix: caps keep off points on the border of a triangle

---
 helpers/triangulate.go | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/helpers/triangulate.go b/helpers/triangulate.go
index 1035c99..6235664 100644
--- a/helpers/triangulate.go
+++ b/helpers/triangulate.go
@@ -66,10 +66,11 @@ func cutEars(pts []Point, n Vector) []Triangle {
 	pts = append([]Point{}, pts...)
 	for len(pts) > 3 {
 		ear := -1
-		for i := range pts {
-			if isEar(pts, i, n) {
-				ear = i
-				break
+		for _, tol := range []float64{1e-6, 0, -1e-6} { // prefer ears that keep off other points
+			for i := 0; i < len(pts) && ear < 0; i++ {
+				if isEar(pts, i, n, tol) {
+					ear = i
+				}
 			}
 		}
 		if ear < 0 {
@@ -81,7 +82,7 @@ func cutEars(pts []Point, n Vector) []Triangle {
 	return append(res, fan(pts)...)
 }
 
-func isEar(pts []Point, i int, n Vector) bool {
+func isEar(pts []Point, i int, n Vector, tol float64) bool {
 	a, b, c := pts[(i+len(pts)-1)%len(pts)], pts[i], pts[(i+1)%len(pts)]
 	if side(a, b, c, n) >= 0 {
 		return false
@@ -90,7 +91,7 @@ func isEar(pts []Point, i int, n Vector) bool {
 		if p == a || p == b || p == c {
 			continue
 		}
-		if side(a, b, p, n) <= 0 && side(b, c, p, n) <= 0 && side(c, a, p, n) <= 0 {
+		if side(a, b, p, n) <= tol*a.DistanceTo(b) && side(b, c, p, n) <= tol*b.DistanceTo(c) && side(c, a, p, n) <= tol*c.DistanceTo(a) {
 			return false
 		}
 	}
-- 
2.43.0


From 2b7d8025bf6779e7eb1d49986a1f5bd4c0415ab4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:34 +0000
Subject: [PATCH 36/54] fix: contours that narrow upwards are not overhangs

---
 slicers/slice_5axes.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/slicers/slice_5axes.go b/slicers/slice_5axes.go
index 84cb148..f3c5e18 100644
--- a/slicers/slice_5axes.go
+++ b/slicers/slice_5axes.go
@@ -180,7 +180,8 @@ func CalculateFails(prevLayer, curLayer Layer) *Plane {
 				if curPi != nil {
 					prevPi := pl.IntersectPathCodirectedWith(*prevPath, curX)
 					if prevPi != nil {
-						if AxisZ.Angle(prevPi.VectorTo(*curPi)) > failAngle {
+						v := prevPi.VectorTo(*curPi)
+						if v.Dot(curX) > 0 && AxisZ.Angle(v) > failAngle { // what narrows upwards does not hang over
 							failsCur = append(failsCur, float64(j*angleDist))
 						}
 					}
-- 
2.43.0


From 3f0331bee095b16f1911f330bbb4bd5db05e5e6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:37 +0000
Subject: [PATCH 37/54] fix: point inside a path, when the ray passes through
 its vertices or along its first edge

---
 primitives/point.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/primitives/point.go b/primitives/point.go
index 313d6d0..0dcbecb 100644
--- a/primitives/point.go
+++ b/primitives/point.go
@@ -89,11 +89,21 @@ func (a Point) Inside(path Path) bool {
 	}
 	n := path.Points[0].VectorTo(path.Points[1])
 	pl := Plane{a, n}
-	v := a.VectorTo(path.Points[0]).ProjectOnPlane(pl)
+	var v *Vector // direction of the ray, to the first crossing
 	c := 0
 	for i := 1; i < len(path.Points); i++ {
+		if pl.PointInFront(path.Points[i-1]) == pl.PointInFront(path.Points[i]) {
+			continue // a vertex on the plane belongs to one of its sides
+		}
 		inters := pl.IntersectSegment(path.Points[i-1], path.Points[i])
-		if inters != nil && a.VectorTo(*inters).CodirectedWith(v) {
+		if inters == nil {
+			continue
+		}
+		d := a.VectorTo(*inters)
+		if v == nil {
+			v = &d
+		}
+		if d.CodirectedWith(*v) {
 			c += 1
 		}
 	}
-- 
2.43.0


From 2993e3d09c2f9667f2be597fa35403c3ec11ad24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:55 +0000
Subject: [PATCH 38/54] fix: overhang at a point where the contour goes through
 its own centroid has no direction

---
 slicers/slice_5axes.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/slicers/slice_5axes.go b/slicers/slice_5axes.go
index f3c5e18..4fa12ed 100644
--- a/slicers/slice_5axes.go
+++ b/slicers/slice_5axes.go
@@ -163,7 +163,7 @@ func CalculateFails(prevLayer, curLayer Layer) *Plane {
 				v := prevCp.VectorTo(curCp).ProjectOnPlane(PlaneXY)
 				pl := Plane{P: prevCp, N: v.Cross(AxisZ)}
 				pi := pl.IntersectPathCodirectedWith(prevPath, v)
-				if pi != nil {
+				if pi != nil && !AlmostZero(prevCp.VectorTo(*pi).Length()) { // border may go through the centroid itself
 					angleZ := prevCp.VectorTo(*pi).Angle(AxisX) + 90
 					if prevCp.VectorTo(*pi).Y > 0 { // angle has no sign, rotation matrix turns clockwise
 						angleZ = 180 - angleZ
-- 
2.43.0


From 5fb1a8c0651232b6a5f5adcbe4de03a9298ad07f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:13 +0000
Subject: [PATCH 39/54] fix: common segment of two triangles when one of them
 stands upright

---
 primitives/triangle.go | 88 ++++++++++--------------------------------
 1 file changed, 21 insertions(+), 67 deletions(-)

diff --git a/primitives/triangle.go b/primitives/triangle.go
index f35b713..5f0ecb3 100644
--- a/primitives/triangle.go
+++ b/primitives/triangle.go
@@ -63,74 +63,27 @@ func (t *Triangle)IntersectTriangle(t2 *Triangle) *Line {
 		return nil
 	}
 
-	b1 := t.PointBelongs(line.P1)
-	b2 := t.PointBelongs(line.P2)
-
-	//if line is inside of triangle
-	if b1 && b2 {
-		return line
-	}
-
-	p1 := Line{P1: t.P1, P2: t.P2}.IntersectLine(line)
-	p2 := Line{P1: t.P1, P2: t.P3}.IntersectLine(line)
-	p3 := Line{P1: t.P2, P2: t.P3}.IntersectLine(line)
-
-	//if line crosses the one side of triangle
-	if b1 || b2 {
-		if p1 != nil{
-			if b1{
-				return &Line{P1: line.P1, P2: *p1}
-			}
-			if b2{
-				return &Line{P1: *p1, P2: line.P2}
-			}
+	// leave the part of the line that is inside of triangle
+	from, to := 0.0, 1.0
+	for _, edge := range []Line{{t.P1, t.P2}, {t.P2, t.P3}, {t.P3, t.P1}} {
+		inside := t.N.Cross(edge.ToVector())
+		d1 := edge.P1.VectorTo(line.P1).Dot(inside)
+		d2 := edge.P1.VectorTo(line.P2).Dot(inside)
+		if d1 < 0 && d2 < 0 {
+			return nil
 		}
-		if p2 != nil{
-			if b1{
-				return &Line{P1: line.P1, P2: *p2}
-			}
-			if b2{
-				return &Line{P1: *p2, P2: line.P2}
-			}
+		if d1 < 0 {
+			from = math.Max(from, d1/(d1-d2))
 		}
-		if p3 != nil{
-			if b1{
-				return &Line{P1: line.P1, P2: *p3}
-			}
-			if b2{
-				return &Line{P1: *p3, P2: line.P2}
-			}
+		if d2 < 0 {
+			to = math.Min(to, d1/(d1-d2))
 		}
-
-	}
-
-	// if line crosses 2 sides of triangle
-	if p1 == nil && p2 != nil && p3 != nil{
-		return &Line{P1: *p2, P2: *p3}
-	}
-
-	if p1 != nil && p2 == nil && p3 != nil{
-		return &Line{P1: *p1, P2: *p3}
 	}
-
-	if p1 != nil && p2 != nil && p3 == nil{
-		return &Line{P1: *p1, P2: *p2}
-	}
-
-	// if line cross all siides of triangle (one edge and one vertex)
-	if p1 != nil && p2 != nil && p3 != nil {
-		if p1 == p2 {
-			return &Line{P1: *p1, P2: *p3}
-		}
-		if p1  == p3 {
-			return &Line{P1: *p1, P2: *p2}
-		}
-		if p2  == p3 {
-			return &Line{P1: *p1, P2: *p2}
-		}
+	if from >= to {
+		return nil
 	}
-
-	return nil
+	v := line.ToVector()
+	return &Line{P1: line.P1.Shift(v.MulScalar(from)), P2: line.P1.Shift(v.MulScalar(to))}
 }
 
 func (t *Triangle) PointBelongs(p Point) bool {
@@ -142,11 +95,12 @@ func (t *Triangle) PointBelongs(p Point) bool {
 		B := t.P2
 		C := t.P3
 
-		w1 := (A.X - p.X)*(B.Y - A.Y) - (B.X - A.X)*(A.Y - p.Y)
-		w2 := (B.X - p.X)*(C.Y - B.Y) - (C.X - B.X)*(B.Y - p.Y)
-		w3 := (C.X - p.X)*(A.Y - C.Y) - (A.X - C.X)*(C.Y - p.Y)
+		// the triangle may stand upright, so its projection is not enough
+		w1 := A.VectorTo(B).Cross(A.VectorTo(p)).Dot(t.N)
+		w2 := B.VectorTo(C).Cross(B.VectorTo(p)).Dot(t.N)
+		w3 := C.VectorTo(A).Cross(C.VectorTo(p)).Dot(t.N)
 
-		if w1>=0 && w2>=0 && w3 >=0 || w1<=0 && w2<=0 && w3 <=0 {
+		if (w1 >= 0 || AlmostZero(w1)) && (w2 >= 0 || AlmostZero(w2)) && (w3 >= 0 || AlmostZero(w3)) {
 			return true
 		}
 	}
-- 
2.43.0


From 842018fe721ce8eda58b60004164b1af7c58b1f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:13 +0000
Subject: [PATCH 40/54] fix: supports that touch the model do not damage its
 contours

---
 slicers/slice_by_vector.go | 37 +++++++++++++++++++++++--------------
 1 file changed, 23 insertions(+), 14 deletions(-)

diff --git a/slicers/slice_by_vector.go b/slicers/slice_by_vector.go
index 7f4957a..e41f462 100644
--- a/slicers/slice_by_vector.go
+++ b/slicers/slice_by_vector.go
@@ -50,6 +50,7 @@ func SliceByVector(mesh *Mesh, Z Vector, settings Settings) []Layer {
 	DoInParallel(slicingWorker(in, out))
 
 	//make support triangles
+	var supTriangles []*Triangle // apart from the model: they touch it, but do not belong to its contours
 	if supports {
 		temp := mesh.CopyTriangles()
 		sort.Slice(temp, func(i, j int) bool {
@@ -85,7 +86,9 @@ func SliceByVector(mesh *Mesh, Z Vector, settings Settings) []Layer {
 				sup_triangles = append(sup_triangles, Tr2)
 			}
 		}
-		triangles = append(sup_triangles, triangles...)
+		for i := range sup_triangles {
+			supTriangles = append(supTriangles, &sup_triangles[i])
+		}
 	}
 
 	index := 0
@@ -111,7 +114,7 @@ func SliceByVector(mesh *Mesh, Z Vector, settings Settings) []Layer {
 		// copy triangles for worker job
 		activeCopy := make([]*Triangle, len(active))
 		copy(activeCopy, active)
-		in <- job{order: i, plane: plane, triangles: activeCopy}
+		in <- job{order: i, plane: plane, triangles: activeCopy, supports: supTriangles}
 		curP = curP.Shift(sh)
 	}
 	close(in)
@@ -148,23 +151,29 @@ type job struct {
 	order     int
 	plane     Plane
 	triangles []*Triangle
+	supports  []*Triangle
 }
 
 func slicingWorker(in chan job, out chan Layer) func(wi, wn int) {
 	return func(_, _ int) {
-		var paths []Path
 		for job := range in {
-			paths = paths[:0]
-			for _, t := range job.triangles {
-				front := job.plane.PointInFront(t.P1)
-				if front == job.plane.PointInFront(t.P2) && front == job.plane.PointInFront(t.P3) {
-					continue // only touches the plane, the triangle from the other side of the edge gives the line
-				}
-				if line := job.plane.IntersectTriangle(t); line != nil {
-					paths = append(paths, Path{Points: []Point{line.P1, line.P2}})
-				}
-			}
-			out <- Layer{Order: job.order, Norm: job.plane.N, Paths: JoinPaths3AndMinimize(paths)}
+			paths := JoinPaths3AndMinimize(intersectTriangles(job.plane, job.triangles))
+			paths = append(paths, JoinPaths3(intersectTriangles(job.plane, job.supports))...) // not minimized: they may lie over each other
+			out <- Layer{Order: job.order, Norm: job.plane.N, Paths: paths}
+		}
+	}
+}
+
+func intersectTriangles(plane Plane, triangles []*Triangle) []Path {
+	var paths []Path
+	for _, t := range triangles {
+		front := plane.PointInFront(t.P1)
+		if front == plane.PointInFront(t.P2) && front == plane.PointInFront(t.P3) {
+			continue // only touches the plane, the triangle from the other side of the edge gives the line
+		}
+		if line := plane.IntersectTriangle(t); line != nil {
+			paths = append(paths, Path{Points: []Point{line.P1, line.P2}})
 		}
 	}
+	return paths
 }
-- 
2.43.0


From 1217792ec28b1204491fb5803bfeb259ccbc368d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:28 +0000
Subject: [PATCH 41/54] fix: filling covers parts printed in other poses in
 default and bridge slicing

---
 slicers/vip/slice_bridge.go  |  9 +--------
 slicers/vip/slice_default.go | 15 ++-------------
 2 files changed, 3 insertions(+), 21 deletions(-)

diff --git a/slicers/vip/slice_bridge.go b/slicers/vip/slice_bridge.go
index bfcbb91..5dfaea2 100644
--- a/slicers/vip/slice_bridge.go
+++ b/slicers/vip/slice_bridge.go
@@ -60,14 +60,7 @@ func SliceBridge(mesh *Mesh, settings Settings, layers []Layer) gcode.Gcode {
 	gcd.Add(gcode.RotateZ{Angle: angleZ})
 	gcd.Add(gcode.InclineX{})
 
-	for i, plane := range fillPlanes {
-		fillPlanes[i] = plane.Rotate(RotationAroundZ(angleZ)).Rotate(RotationAroundX(angleX))
-	}
-
-	for i, plane := range fullFillPlanes {
-		fullFillPlanes[i] = plane.Rotate(RotationAroundZ(angleZ)).Rotate(RotationAroundX(angleX))
-	}
-
+	fillPlanes, fullFillPlanes = CalcFillPlanes(mesh, settings) // layers are horizontal in the new pose
 	rest := SliceByVector(mesh, AxisZ, settings)
 	gcd.AddLayers(PrepareLayers(rest, settings, fillPlanes, fullFillPlanes))
 
diff --git a/slicers/vip/slice_default.go b/slicers/vip/slice_default.go
index 5369fc0..e9df9f9 100644
--- a/slicers/vip/slice_default.go
+++ b/slicers/vip/slice_default.go
@@ -16,7 +16,7 @@ func SliceDefault2(mesh *Mesh, settings Settings, layers []Layer) gcode.Gcode {
 
 	gcd := gcode.NewGcode(*settings.GcodeSettings)
 
-	fillPlanes, fullFillPlanes := CalcFillPlanes(mesh, settings)
+	fillPlanes, fullFillPlanes := CalcFillPlanes(mesh, settings) // of what is left, in its current pose
 
 	i := 1
 	rotated := false
@@ -62,12 +62,6 @@ func SliceDefault2(mesh *Mesh, settings Settings, layers []Layer) gcode.Gcode {
 				rotated = false
 				println("triangles: ", len(mesh.Triangles))
 				println("rotate back")
-				for j, plane := range fillPlanes {
-					fillPlanes[j] = plane.Rotate(RotationAroundX(-angleX)).Rotate(RotationAroundZ(-angleZ))
-				}
-				for j, plane := range fullFillPlanes {
-					fullFillPlanes[j] = plane.Rotate(RotationAroundX(-angleX)).Rotate(RotationAroundZ(-angleZ))
-				}
 			} else {
 				angleZ = newPlane.N.ProjectOnPlane(PlaneXY).Angle(AxisX) + 90
 				if newPlane.N.Y < 0 { // angle has no sign
@@ -80,13 +74,8 @@ func SliceDefault2(mesh *Mesh, settings Settings, layers []Layer) gcode.Gcode {
 				gcd.Add(gcode.RotateZ{Angle: angleZ})
 				gcd.Add(gcode.InclineX{})
 				rotated = true
-				for j, plane := range fillPlanes {
-					fillPlanes[j] = plane.Rotate(RotationAroundZ(angleZ)).Rotate(RotationAroundX(angleX))
-				}
-				for j, plane := range fullFillPlanes {
-					fullFillPlanes[j] = plane.Rotate(RotationAroundZ(angleZ)).Rotate(RotationAroundX(angleX))
-				}
 			}
+			fillPlanes, fullFillPlanes = CalcFillPlanes(mesh, settings)
 			layers = SliceByVector(mesh, AxisZ, settings)
 			println("len layers: ", len(layers))
 
-- 
2.43.0


From adaca63596927727d3e19094573bb55da247f3fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:07 +0000
Subject: [PATCH 42/54] fix: half a layer was lost where bridge, rotation and
 5axes slicing cut the model

---
 slicers/slice_5axes.go        | 11 ++++++++---
 slicers/vip/slice_bridge.go   |  3 +--
 slicers/vip/slice_rotation.go |  3 +--
 3 files changed, 10 insertions(+), 7 deletions(-)

diff --git a/slicers/slice_5axes.go b/slicers/slice_5axes.go
index 4fa12ed..c0991d9 100644
--- a/slicers/slice_5axes.go
+++ b/slicers/slice_5axes.go
@@ -66,18 +66,18 @@ func Slice5Axes(mesh *Mesh, settings Settings) gcode.Gcode {
 			//rotated = true
 			debug.AddLayer(layers[i-1], debug.GreenColor)
 			debug.AddLayer(layers[i], debug.GreenColor)
-			curP := calculateCenter(layers[i])
+			curPlane := PlaneBetween(layers[i-1], layers[i])
 			//fmt.Printf("\n %v \n", layers[i])
 			fmt.Printf("\n %v \n", i)
 
 			//SaveSTL("/home/l1va/simp_mesh_before.stl", simpMesh)
 			//debug.TriangleToDebugFile(curP, curP.Shift(AxisX.MulScalar(10)), curP.Shift(AxisY.MulScalar(15)), "debug_simplified.txt")
-			simpMesh, _, err = helpers.CutMesh(simpMesh, Plane{P: curP, N: AxisZ})
+			simpMesh, _, err = helpers.CutMesh(simpMesh, curPlane)
 			if err != nil {
 
 				log.Fatal("failed to cut simpMesh by plane in 5a slicing: ", err)
 			}
-			mesh, _, err = helpers.CutMesh(mesh, Plane{P: curP, N: AxisZ})
+			mesh, _, err = helpers.CutMesh(mesh, curPlane)
 			if err != nil {
 				log.Fatal("failed to cut mesh by plane in 5a slicing: ", err)
 			}
@@ -210,6 +210,11 @@ func CalculateFails(prevLayer, curLayer Layer) *Plane {
 	return nil
 }
 
+// PlaneBetween - horizontal plane in the middle between two layers: what is under it is printed with the first one
+func PlaneBetween(prevLayer, curLayer Layer) Plane {
+	return Plane{P: middlePoint(prevLayer.Paths[0].Points[0], curLayer.Paths[0].Points[0]), N: AxisZ}
+}
+
 func middlePoint(x1, x2 Point) Point {
 	return Point{X: (x1.X + x2.X) / 2, Y: (x1.Y + x2.Y) / 2, Z: (x1.Z + x2.Z) / 2}
 }
diff --git a/slicers/vip/slice_bridge.go b/slicers/vip/slice_bridge.go
index 5dfaea2..cd42b6a 100644
--- a/slicers/vip/slice_bridge.go
+++ b/slicers/vip/slice_bridge.go
@@ -37,8 +37,7 @@ func SliceBridge(mesh *Mesh, settings Settings, layers []Layer) gcode.Gcode {
 	if i == len(layers) { // nothing hangs over, no rotation is needed
 		return gcd
 	}
-	anyPoint := layers[i].Paths[0].Points[0]
-	mesh, down, err := helpers.CutMesh(mesh, Plane{anyPoint, AxisZ})
+	mesh, down, err := helpers.CutMesh(mesh, PlaneBetween(layers[i-1], layers[i]))
 	if err != nil {
 		log.Fatal("failed to cut mesh, before rotation: ", err)
 	}
diff --git a/slicers/vip/slice_rotation.go b/slicers/vip/slice_rotation.go
index 5244fe1..7f1681d 100644
--- a/slicers/vip/slice_rotation.go
+++ b/slicers/vip/slice_rotation.go
@@ -35,8 +35,7 @@ func SliceRotation(mesh *Mesh, settings Settings, layers []Layer) gcode.Gcode {
 	if i == len(layers) { // nothing hangs over, no rotation is needed
 		return gcd
 	}
-	anyPoint := layers[i].Paths[0].Points[0]
-	mesh, _, err := helpers.CutMesh(mesh, Plane{anyPoint, AxisZ})
+	mesh, _, err := helpers.CutMesh(mesh, PlaneBetween(layers[i-1], layers[i]))
 	if err != nil {
 		log.Fatal("failed to cut mesh, before rotation: ", err)
 	}
-- 
2.43.0


From 3ae6b950bc9234ab5357cab1bf2d0f4c5e2b5a2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:09 +0000
Subject: [PATCH 43/54] fix: legs of a bridge that narrow upwards do not hang
 over

---
 slicers/vip/slice_bridge.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/slicers/vip/slice_bridge.go b/slicers/vip/slice_bridge.go
index cd42b6a..e24b71b 100644
--- a/slicers/vip/slice_bridge.go
+++ b/slicers/vip/slice_bridge.go
@@ -92,7 +92,7 @@ func failExistBridge(prevLayer, curLayer Layer) *Plane {
 	prevIp1 := plane.IntersectPathCodirectedWith(prevP1, cp1.VectorTo(cp2))
 	if ip1 == nil || prevIp1 == nil {
 		log.Println("could not find path intersections with plane: ", ip1, prevIp1, plane, p1, prevP1)
-	} else if AxisZ.Angle(prevIp1.VectorTo(*ip1)) > failAngle {
+	} else if prevIp1.VectorTo(*ip1).Dot(cp1.VectorTo(cp2)) > 0 && AxisZ.Angle(prevIp1.VectorTo(*ip1)) > failAngle { // what narrows upwards does not hang over
 		println(AxisZ.Angle(prevIp1.VectorTo(*ip1)))
 		angle := AxisX.Angle(cp1.VectorTo(cp2))
 		if cp1.VectorTo(cp2).Y > 0 { // angle has no sign, rotation matrix turns clockwise
@@ -108,7 +108,7 @@ func failExistBridge(prevLayer, curLayer Layer) *Plane {
 	prevIp2 := plane.IntersectPathCodirectedWith(prevP2, cp2.VectorTo(cp1))
 	if ip2 == nil || prevIp2 == nil {
 		log.Println("could not find path intersections with plane: ", ip2, prevIp2, plane, p2, prevP2)
-	} else if AxisZ.Angle(prevIp2.VectorTo(*ip2)) > failAngle {
+	} else if prevIp2.VectorTo(*ip2).Dot(cp2.VectorTo(cp1)) > 0 && AxisZ.Angle(prevIp2.VectorTo(*ip2)) > failAngle {
 		println(AxisZ.Angle(prevIp2.VectorTo(*ip2)))
 		angle := AxisX.Angle(cp2.VectorTo(cp1))
 		if cp2.VectorTo(cp1).Y > 0 {
-- 
2.43.0


From c6bce83a693914225e7658625061420235075a64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:11 +0000
Subject: [PATCH 44/54] fix: concave contours are not taken for holes when
 overhangs are looked for

---
 slicers/slice_5axes.go | 17 ++++-------------
 1 file changed, 4 insertions(+), 13 deletions(-)

diff --git a/slicers/slice_5axes.go b/slicers/slice_5axes.go
index c0991d9..feae3b7 100644
--- a/slicers/slice_5axes.go
+++ b/slicers/slice_5axes.go
@@ -144,12 +144,8 @@ func CalculateFails(prevLayer, curLayer Layer) *Plane {
 
 	for _, pth := range curLayer.Paths {
 		curCp := FindCentroid(pth)
-		if len(pth.Points) > 1 { //skip pth if it is just a hole
-			p1 := pth.Points[0]
-			p2 := pth.Points[1]
-			if p1.VectorTo(p2).Cross(AxisZ).CodirectedWith(curCp.VectorTo(p1)) {
-				continue
-			}
+		if len(pth.Points) > 1 && pth.IsHole() { //skip pth if it is just a hole
+			continue
 		}
 
 		//prevP := curCp.Shift(sh.Reverse())
@@ -221,13 +217,8 @@ func middlePoint(x1, x2 Point) Point {
 
 func findPrevPath(prevP Point, prevLayer Layer) *Path {
 	for _, pth := range prevLayer.Paths {
-		curP := FindCentroid(pth)
-		if len(pth.Points) > 1 { //skip pth if it is just a hole
-			p1 := pth.Points[0]
-			p2 := pth.Points[1]
-			if p1.VectorTo(p2).Cross(AxisZ).CodirectedWith(curP.VectorTo(p1)) {
-				continue
-			}
+		if len(pth.Points) > 1 && pth.IsHole() { //skip pth if it is just a hole
+			continue
 		}
 		if prevP.Inside(pth) {
 			return &pth
-- 
2.43.0


From 8e24b6e6528ca83ff124e95aed12736294af7987 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:59 +0000
Subject: [PATCH 45/54] fix: overhangs of concave contours do not depend on
 where the contour starts

---
 primitives/plane.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/primitives/plane.go b/primitives/plane.go
index 636a4c8..66a4abe 100644
--- a/primitives/plane.go
+++ b/primitives/plane.go
@@ -90,13 +90,16 @@ func (p Plane) IntersectSegment(p1, p2 Point) *Point {
 
 func (p Plane) IntersectPathCodirectedWith(path Path, v Vector) *Point {
 	cp := FindCentroid(path)
+	var res *Point
 	for i:=1;i<len(path.Points);i++ { //TODO: optimize me
 		pi := p.IntersectSegment(path.Points[i-1],path.Points[i])
 		if pi != nil && cp.VectorTo(*pi).CodirectedWith(v) {
-			return pi
+			if res == nil || res.VectorTo(*pi).Dot(v) > 0 { // concave path can be crossed several times, outer border is needed
+				res = pi
+			}
 		}
 	}
-	return nil
+	return res
 }
 
 func (p Plane) PointInFront(v Point) bool {
-- 
2.43.0


From 56f5dc7e198493b1fa52d093d4ccc6cc7b271b96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:42 +0000
Subject: [PATCH 46/54] fix: contour of the layer below is found when the
 centroid is out of the contour, and for thin contours

---
 slicers/slice_5axes.go | 40 ++++++++++++++++++++++++++++++++++++++--
 1 file changed, 38 insertions(+), 2 deletions(-)

diff --git a/slicers/slice_5axes.go b/slicers/slice_5axes.go
index feae3b7..2977898 100644
--- a/slicers/slice_5axes.go
+++ b/slicers/slice_5axes.go
@@ -7,6 +7,8 @@ import (
 	"github.com/l1va/goosli/helpers"
 	. "github.com/l1va/goosli/primitives"
 	"log"
+	"math"
+	"sort"
 )
 
 var (
@@ -149,7 +151,7 @@ func CalculateFails(prevLayer, curLayer Layer) *Plane {
 		}
 
 		//prevP := curCp.Shift(sh.Reverse())
-		prevPath := findPrevPath(curCp, prevLayer)
+		prevPath := findPrevPath(pointInside(pth, curCp), prevLayer)
 		var failsCur []float64
 		if prevPath == nil {
 			println("prevPath not found")
@@ -220,13 +222,47 @@ func findPrevPath(prevP Point, prevLayer Layer) *Path {
 		if len(pth.Points) > 1 && pth.IsHole() { //skip pth if it is just a hole
 			continue
 		}
-		if prevP.Inside(pth) {
+		if len(pth.Points) == 0 {
+			continue
+		}
+		if (Point{X: prevP.X, Y: prevP.Y, Z: pth.Points[0].Z}).Inside(pth) { // on the height of the path
 			return &pth
 		}
 	}
 	return nil
 }
 
+// pointInside returns the centroid, or, if the path is concave and its centroid is outside of it, a point with some room around
+func pointInside(pth Path, centroid Point) Point {
+	if len(pth.Points) < 4 || centroid.Inside(pth) {
+		return centroid
+	}
+	var ys []float64
+	for _, p := range pth.Points {
+		ys = append(ys, p.Y)
+	}
+	sort.Float64s(ys)
+	res, room := centroid, 0.0
+	for i := 1; i < len(ys); i++ {
+		y := (ys[i-1] + ys[i]) / 2
+		var xs []float64
+		for j := 1; j < len(pth.Points); j++ {
+			p1, p2 := pth.Points[j-1], pth.Points[j]
+			if (p1.Y > y) != (p2.Y > y) {
+				xs = append(xs, p1.X+(p2.X-p1.X)*(y-p1.Y)/(p2.Y-p1.Y))
+			}
+		}
+		sort.Float64s(xs)
+		for j := 1; j < len(xs); j += 2 {
+			if r := math.Min(xs[j]-xs[j-1], ys[i]-ys[i-1]); r > room {
+				room = r
+				res = Point{X: (xs[j] + xs[j-1]) / 2, Y: y, Z: centroid.Z}
+			}
+		}
+	}
+	return res
+}
+
 func MiddleOnTheRing(arr []float64, biggest int) int {
 	// assume that arr is sorted
 	i := 0
-- 
2.43.0


From 62b282631630a55769070cebdfd9d28c9f19f1ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:03 +0000
Subject: [PATCH 47/54] fix: contour of the layer below is the alike one of
 nested contours

---
 slicers/slice_5axes.go | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/slicers/slice_5axes.go b/slicers/slice_5axes.go
index 2977898..5be420e 100644
--- a/slicers/slice_5axes.go
+++ b/slicers/slice_5axes.go
@@ -151,7 +151,7 @@ func CalculateFails(prevLayer, curLayer Layer) *Plane {
 		}
 
 		//prevP := curCp.Shift(sh.Reverse())
-		prevPath := findPrevPath(pointInside(pth, curCp), prevLayer)
+		prevPath := findPrevPath(pth, pointInside(pth, curCp), prevLayer)
 		var failsCur []float64
 		if prevPath == nil {
 			println("prevPath not found")
@@ -217,8 +217,9 @@ func middlePoint(x1, x2 Point) Point {
 	return Point{X: (x1.X + x2.X) / 2, Y: (x1.Y + x2.Y) / 2, Z: (x1.Z + x2.Z) / 2}
 }
 
-func findPrevPath(prevP Point, prevLayer Layer) *Path {
-	for _, pth := range prevLayer.Paths {
+func findPrevPath(curPath Path, prevP Point, prevLayer Layer) *Path {
+	var res *Path
+	for i, pth := range prevLayer.Paths {
 		if len(pth.Points) > 1 && pth.IsHole() { //skip pth if it is just a hole
 			continue
 		}
@@ -226,10 +227,22 @@ func findPrevPath(prevP Point, prevLayer Layer) *Path {
 			continue
 		}
 		if (Point{X: prevP.X, Y: prevP.Y, Z: pth.Points[0].Z}).Inside(pth) { // on the height of the path
-			return &pth
+			// paths can be nested, the alike one is needed
+			if res == nil || math.Abs(area(pth)-area(curPath)) < math.Abs(area(*res)-area(curPath)) {
+				res = &prevLayer.Paths[i]
+			}
 		}
 	}
-	return nil
+	return res
+}
+
+func area(pth Path) float64 { // of a horizontal path
+	sum := 0.0
+	for i := 1; i < len(pth.Points); i++ {
+		p1, p2 := pth.Points[0].VectorTo(pth.Points[i-1]), pth.Points[0].VectorTo(pth.Points[i])
+		sum += p1.X*p2.Y - p2.X*p1.Y
+	}
+	return math.Abs(sum) / 2
 }
 
 // pointInside returns the centroid, or, if the path is concave and its centroid is outside of it, a point with some room around
-- 
2.43.0


From 4ad63a722ddb153589fc1539c263a737f243da9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:21 +0000
Subject: [PATCH 48/54] fix: blank lines of a planes file are skipped

---
 slicers/vip/utils.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/slicers/vip/utils.go b/slicers/vip/utils.go
index 61d2d53..25ab5d0 100644
--- a/slicers/vip/utils.go
+++ b/slicers/vip/utils.go
@@ -4,6 +4,7 @@ import (
 	"bufio"
 	"math"
 	"os"
+	"strings"
 
 	. "github.com/l1va/goosli/primitives"
 	. "github.com/l1va/goosli/slicers"
@@ -80,6 +81,9 @@ func readPlanes(f string) []AnalyzedPlane {
 	scanner := bufio.NewScanner(file)
 	ans := []AnalyzedPlane{}
 	for scanner.Scan() {
+		if strings.TrimSpace(scanner.Text()) == "" {
+			continue
+		}
 		ans = append(ans, ParsePlane(scanner.Text()))
 	}
 
-- 
2.43.0


From 648f44caf6e09eb2104df0b6b4df4b3ed000d366 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:29 +0000
Subject: [PATCH 49/54] fix: overhang is looked for from the centre of the
 upper contour in the lower one too

---
 primitives/plane.go    | 10 +++++++++-
 slicers/slice_5axes.go |  6 +++---
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/primitives/plane.go b/primitives/plane.go
index 66a4abe..7e5734a 100644
--- a/primitives/plane.go
+++ b/primitives/plane.go
@@ -89,7 +89,15 @@ func (p Plane) IntersectSegment(p1, p2 Point) *Point {
 }
 
 func (p Plane) IntersectPathCodirectedWith(path Path, v Vector) *Point {
-	cp := FindCentroid(path)
+	return p.intersectPathFrom(FindCentroid(path), path, v)
+}
+
+// IntersectPathAlong - border of the path seen from the point of the plane to the v
+func (p Plane) IntersectPathAlong(path Path, v Vector) *Point {
+	return p.intersectPathFrom(p.P, path, v)
+}
+
+func (p Plane) intersectPathFrom(cp Point, path Path, v Vector) *Point {
 	var res *Point
 	for i:=1;i<len(path.Points);i++ { //TODO: optimize me
 		pi := p.IntersectSegment(path.Points[i-1],path.Points[i])
diff --git a/slicers/slice_5axes.go b/slicers/slice_5axes.go
index 5be420e..93d83ce 100644
--- a/slicers/slice_5axes.go
+++ b/slicers/slice_5axes.go
@@ -174,9 +174,9 @@ func CalculateFails(prevLayer, curLayer Layer) *Plane {
 			curX := AxisX
 			for j := 0; j < angleCount; j++ {
 				pl := Plane{P: curCp, N: curX.Cross(AxisZ)}
-				curPi := pl.IntersectPathCodirectedWith(pth, curX)
+				curPi := pl.IntersectPathAlong(pth, curX)
 				if curPi != nil {
-					prevPi := pl.IntersectPathCodirectedWith(*prevPath, curX)
+					prevPi := pl.IntersectPathAlong(*prevPath, curX) // from the same point, centroid of the prevPath is another one
 					if prevPi != nil {
 						v := prevPi.VectorTo(*curPi)
 						if v.Dot(curX) > 0 && AxisZ.Angle(v) > failAngle { // what narrows upwards does not hang over
@@ -191,7 +191,7 @@ func CalculateFails(prevLayer, curLayer Layer) *Plane {
 				v := AxisX.Rotate(RotationAroundZ(angleZ))
 				pl := Plane{P: curCp, N: v.Cross(AxisZ)}
 
-				pi := pl.IntersectPathCodirectedWith(*prevPath, v)
+				pi := pl.IntersectPathAlong(*prevPath, v)
 				if pi != nil {
 					/*for _,li := range pth.Lines {
 						pp := middlePoint(li.P1,li.P2)
-- 
2.43.0


From 7608a8733b21dd05314a8f10aa3af58082a7b16d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:05 +0000
Subject: [PATCH 50/54] fix: supports are lowered by the offset whatever the
 length of the normal given

---
 slicers/slice_by_vector.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/slicers/slice_by_vector.go b/slicers/slice_by_vector.go
index e41f462..88e7fc1 100644
--- a/slicers/slice_by_vector.go
+++ b/slicers/slice_by_vector.go
@@ -26,7 +26,7 @@ func SliceByVector(mesh *Mesh, Z Vector, settings Settings) []Layer {
 
 	thickness := settings.LayerHeight
 	angle := settings.ColorizedAngle
-	vn := settings.UnitVector
+	vn := settings.UnitVector.Normalize() // the flags give it in any length
 	supports := settings.SupportsOn
 	support_offset := settings.SupportOffset
 
-- 
2.43.0


From 3e15fa099222ebf8ad7b1608f79346c754d927e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:51 +0000
Subject: [PATCH 51/54] fix: cutting puts a triangle on both sides when two of
 its vertices lie on the plane

---
 helpers/cut_mesh.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/helpers/cut_mesh.go b/helpers/cut_mesh.go
index aebe4a4..0105251 100644
--- a/helpers/cut_mesh.go
+++ b/helpers/cut_mesh.go
@@ -108,8 +108,8 @@ func splitOnThree(p1 Point, line Line, t Triangle) []Triangle {
 		t1, t2, t3 = t3, t1, t2
 	}
 
-	side := t1.VectorTo(t2)
-	if side.Cross(t1.VectorTo(lp2)).Length() < side.Cross(t1.VectorTo(lp1)).Length() { // a fixed limit fails for long sides
+	// both can lie on the same side (up to its end), so both sides are needed
+	if lp2.DistanceToLine(t1, t2)+lp1.DistanceToLine(t1, t3) < lp1.DistanceToLine(t1, t2)+lp2.DistanceToLine(t1, t3) {
 		// lp2 lies on t1->t2 vector, but should lp1 lie
 		lp1, lp2 = lp2, lp1
 	}
-- 
2.43.0


From 9bab6c0b615e6b5d82847933cde5b96096987885 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:16 +0000
Subject: [PATCH 52/54] fix: contours stay open where segments too short to be
 seen are missing

---
 primitives/path.go | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/primitives/path.go b/primitives/path.go
index b9d880c..0a65355 100644
--- a/primitives/path.go
+++ b/primitives/path.go
@@ -154,7 +154,7 @@ func JoinPaths3(p []Path) []Path {
 				continue
 			}
 			p2 := p[j2]
-			res := tryJoin(p1, p2)
+			res := tryJoin(p1, p2, 0)
 			if res != nil {
 				p[j1] = *res
 				w[j2] = j1
@@ -172,17 +172,18 @@ func JoinPaths3(p []Path) []Path {
 			res = append(res, p[i])
 		}
 	}
-	return append(res, joinRest(open)...)
+	return append(res, joinRest(joinRest(open, 0), 1e-5)...)
 }
 
-//joinRest joins what is left after neighbours are joined: more than two pathes can meet in one point
-func joinRest(p []Path) []Path {
+//joinRest joins what is left after neighbours are joined: more than two pathes can meet in one point.
+//Segments too short to be seen are missing in a section, so what they leave open is closed with the limit gap
+func joinRest(p []Path, gap float64) []Path {
 	for i := 0; i < len(p); i++ {
 		for j := 0; j < len(p) && !p[i].IsClosed(); j++ {
 			if i == j {
 				continue
 			}
-			if res := tryJoin(p[i], p[j]); res != nil {
+			if res := tryJoin(p[i], p[j], gap); res != nil {
 				p[i] = *res
 				p = append(p[:j], p[j+1:]...)
 				if j < i {
@@ -192,6 +193,11 @@ func joinRest(p []Path) []Path {
 			}
 		}
 	}
+	for i := range p {
+		if last := len(p[i].Points) - 1; last > 2 && p[i].Points[0].DistanceTo(p[i].Points[last]) < gap {
+			p[i].Points = append(append([]Point{}, p[i].Points[:last]...), p[i].Points[0])
+		}
+	}
 	return p
 }
 
@@ -236,12 +242,15 @@ func (p Path) MinimizeLines() Path {
 	return res
 }
 
-func tryJoin(p1 Path, p2 Path) *Path {
-	if p1.Points[len(p1.Points)-1].Equal(p2.Points[0]) {
+func tryJoin(p1 Path, p2 Path, gap float64) *Path {
+	meet := func(a, b Point) bool {
+		return a.Equal(b) || a.DistanceTo(b) < gap
+	}
+	if meet(p1.Points[len(p1.Points)-1], p2.Points[0]) {
 		p1.Points = append(p1.Points, p2.Points[1:]...)
 		return &p1
 	}
-	if p2.Points[len(p2.Points)-1].Equal(p1.Points[0]) {
+	if meet(p2.Points[len(p2.Points)-1], p1.Points[0]) {
 		p2.Points = append(p2.Points, p1.Points[1:]...)
 		return &p2
 	}
-- 
2.43.0


From b829000365e486d603eca3860e78cffd4fac8f8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:00 +0000
Subject: [PATCH 53/54] fix: the same plane twice in a file leaves slivers that
 are printed

---
 slicers/vip/slice_by_planes.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/slicers/vip/slice_by_planes.go b/slicers/vip/slice_by_planes.go
index 0bf2bfb..d523171 100644
--- a/slicers/vip/slice_by_planes.go
+++ b/slicers/vip/slice_by_planes.go
@@ -22,6 +22,10 @@ func SliceByPlanes(mesh *Mesh, settings slicers.Settings, cutPlanes []AnalyzedPl
 
 	parts := make([]*Mesh, len(cutPlanes)+1)
 	for i := len(cutPlanes) - 1; i >= 0; i-- { //cut from the last plane (in reverse order)
+		if i+1 < len(cutPlanes) && cutPlanes[i].Plane == cutPlanes[i+1].Plane {
+			parts[i+1] = &Mesh{} // cut already, nothing but rounding is between them
+			continue
+		}
 		up, mesh, err = helpers.CutMesh(mesh, cutPlanes[i].Plane)
 		if err != nil {
 			log.Fatal("failed to cut mesh, by plane: ", err, cutPlanes[i].Plane)
-- 
2.43.0


From 025d79c6fbf556fb13ec485b3740533bb9e2e713 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:59 +0000
Subject: [PATCH 54/54] fix: centroid of a contour that is closed within the
 tolerance of points was up to a third too low

Contours are joined within 1e-6 mm. Of such a contour far from the origin the
areas projected on XZ and YZ are not zero, and the height of the centroid was
calculated from them: two thirds of the height of the contour.
---
 primitives/path.go | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/primitives/path.go b/primitives/path.go
index 0a65355..dfa499f 100644
--- a/primitives/path.go
+++ b/primitives/path.go
@@ -368,9 +368,10 @@ func FindCentroid(path Path) Point { //TODO: refactorme
 	cz2 := 0.0
 	cx2 := 0.0
 	cz := 0.0
+	origin := path.Points[0] // far from it areas are lost in rounding, a path may also be closed not exactly
 	for i := 1; i < len(path.Points); i++ {
-		p := path.Points[i-1]
-		p_1 := path.Points[i]
+		p := Point(origin.VectorTo(path.Points[i-1]))
+		p_1 := Point(origin.VectorTo(path.Points[i]))
 		d := p.X*p_1.Y - p_1.X*p.Y
 		a += d
 		cx += (p.X + p_1.X) * d
@@ -409,16 +410,16 @@ func FindCentroid(path Path) Point { //TODO: refactorme
 	//println("z:", z, " ", z1)
 
 	if AlmostZero(a) && AlmostZero(a2) {
-		x = path.Points[0].X
+		x = 0
 		y = y1
 		z = z1
 	}
 	if AlmostZero(a) && AlmostZero(a3) {
-		y = path.Points[0].Y
+		y = 0
 		x = x1
 	}
 	if AlmostZero(a2) && AlmostZero(a3) {
-		z = path.Points[0].Z
+		z = 0
 	}
 
 	if AlmostZero(a) && !AlmostZero(a2) {
@@ -431,5 +432,5 @@ func FindCentroid(path Path) Point { //TODO: refactorme
 		z = z1
 	}
 	//println(x,x1,y,y1,z,z1,"\n")
-	return Point{x, y, z}
+	return origin.Shift(V(x, y, z))
 }
-- 
2.43.0

