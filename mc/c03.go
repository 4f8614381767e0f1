//go:build go1.22

package main

import (
	"fmt"
	"math"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"github.com/l1va/goosli/gcode"
	"github.com/l1va/goosli/helpers"
	. "github.com/l1va/goosli/primitives"
	"github.com/l1va/goosli/slicers"
	"github.com/l1va/goosli/slicers/vip"
)

// C03: every operation is a function of its arguments: not of what was done before, nor of the order
// of triangles; and it leaves its arguments alone.

type pureOp struct {
	name string
	run  func(m *Mesh, s *slicers.Settings, dir string) string
}

func planesFile(dir, text string) string {
	fn := filepath.Join(dir, "planes.txt")
	must(os.WriteFile(fn, []byte(text), 0644))
	return fn
}

func rendered(g gcode.Gcode) string {
	a := render(&g)
	if b := render(&g); b != a {
		return "RENDERED TWICE: " + firstDiff(a, b)
	}
	return fmt.Sprintf("%d layers\n%s", g.LayerCount(), a)
}

var pureOps = []pureOp{
	{"SliceByVector Z", func(m *Mesh, s *slicers.Settings, dir string) string {
		return dumpLayers(slicers.SliceByVector(m, AxisZ, *s))
	}},
	{"SliceByVector tilted", func(m *Mesh, s *slicers.Settings, dir string) string {
		return dumpLayers(slicers.SliceByVector(m, Vector{0.4, -0.3, 0.8}, *s))
	}},
	{"SliceByVector with supports", func(m *Mesh, s *slicers.Settings, dir string) string {
		q := *s
		q.SupportsOn, q.ColorizedAngle, q.UnitVector, q.SupportOffset = true, 30, AxisZ, 0.3
		return dumpLayers(slicers.SliceByVector(m, AxisZ, q))
	}},
	{"SliceByVectorToGcode", func(m *Mesh, s *slicers.Settings, dir string) string {
		return rendered(slicers.SliceByVectorToGcode(m, AxisZ, *s))
	}},
	{"SliceByProfile", func(m *Mesh, s *slicers.Settings, dir string) string {
		return rendered(slicers.SliceByProfile(m, *s))
	}},
	{"Slice5Axes", func(m *Mesh, s *slicers.Settings, dir string) string {
		return rendered(slicers.Slice5Axes(m, *s))
	}},
	{"vip.Slice", func(m *Mesh, s *slicers.Settings, dir string) string {
		return rendered(vip.Slice(m, *s))
	}},
	{"vip.Slice by planes", func(m *Mesh, s *slicers.Settings, dir string) string {
		q := *s
		lo, hi := m.MinMaxZ(AxisZ)
		q.PlanesFile = planesFile(dir, fmt.Sprintf("X1 Y1 Z%.3f Ttrue R30\nX1 Y1 Z%.3f Tfalse R0\n", lo+(hi-lo)*0.4, lo+(hi-lo)*0.7))
		return rendered(vip.Slice(m, q))
	}},
	{"CutMesh", func(m *Mesh, s *slicers.Settings, dir string) string {
		lo, hi := m.MinMaxZ(AxisZ)
		up, down, err := helpers.CutMesh(m, Plane{P: Point{0, 0, lo + (hi-lo)*0.37}, N: Vector{0.2, 0.1, 1}})
		return fmt.Sprintln(err) + dumpTris(up.Triangles) + "--\n" + dumpTris(down.Triangles)
	}},
	{"SimplifyMesh", func(m *Mesh, s *slicers.Settings, dir string) string {
		r, err := helpers.SimplifyMesh(m, len(m.Triangles)*3/4)
		if err != nil {
			return err.Error()
		}
		return fmt.Sprintln(len(r.Triangles)) // the order comes from a map
	}},
	{"ColorizeTriangles", func(m *Mesh, s *slicers.Settings, dir string) string {
		return fmt.Sprint(helpers.ColorizeTriangles(*m, 30, AxisZ)) + dumpTris(helpers.FilterTrianglesByColor(*m, 30, AxisZ))
	}},
	{"Analyze", func(m *Mesh, s *slicers.Settings, dir string) string {
		return fmt.Sprintf("%#v", vip.Analyze(m, 30))
	}},
	{"SaveSTL, LoadSTL", func(m *Mesh, s *slicers.Settings, dir string) string {
		fn := filepath.Join(dir, "pure.stl")
		must(SaveSTL(fn, m))
		r, err := LoadSTL(fn)
		if err != nil {
			return err.Error()
		}
		return dumpTris(r.Triangles)
	}},
	{"Rotate", func(m *Mesh, s *slicers.Settings, dir string) string {
		return dumpTris(m.Rotate(RotationAroundX(33), Point{1, 2, 3}).Rotate(RotationAroundZ(-21), Point{3, 0, 1}).Triangles)
	}},
	{"Rotate by nothing, Shift of the result", func(m *Mesh, s *slicers.Settings, dir string) string {
		r := m.Rotate(RotationAroundX(0), OriginPoint).Rotate(RotationAroundZ(0), Point{3, 0, 1})
		r.Shift(Vector{1, 2, 3})
		q := m.Rotate(RotationAroundZ(90), OriginPoint)
		q.Shift(Vector{0, 0, -3})
		return dumpTris(r.Triangles) + dumpTris(q.Triangles)
	}},
	{"CopyTriangles, Shift of the copy", func(m *Mesh, s *slicers.Settings, dir string) string {
		c := NewMesh(m.CopyTriangles())
		c.Shift(Vector{1, 2, 3})
		return dumpTris(c.Triangles)
	}},
	{"layers prepared", func(m *Mesh, s *slicers.Settings, dir string) string {
		a, b := slicers.CalcFillPlanes(m, *s)
		ls := vip.PrepareLayers(slicers.SliceByVector(m, AxisZ, *s), *s, a, b)
		if len(ls) > 0 {
			ls[0] = vip.SkirtPathes(ls[0], 2, s.GcodeSettings.LineWidth)
		}
		return dumpLayers(ls)
	}},
}

func pureSettings(ts []tri, kind string) *slicers.Settings {
	s := c13Settings(kind, 30, 0.5)
	lo, hi := minmax(ts, AxisZ)
	s.LayerHeight = (hi - lo) / 6.5
	g := *s.GcodeSettings
	g.LayerHeight = s.LayerHeight
	s.GcodeSettings = &g
	s.WallThickness, s.TopLayers, s.BottomLayers, s.Epsilon = 1, 1, 1, 1
	s.UnitVector = AxisZ
	return &s
}

func settingsText(s *slicers.Settings) string {
	c := *s
	g := *s.GcodeSettings
	c.GcodeSettings = nil
	return fmt.Sprintf("%#v %#v", c, g)
}

var freshCache = map[string]string{}

// every sequence of operations on one shared mesh
func c03History(x *X) {
	n := Tier(x, 2, 3)
	sh := Pick(x, "cube", "funnel", "arch", "shear+x", "checker", "cone", "ringInRing", "overstairs")
	kind := Pick(x, "Squares", "Lines")
	if kind == "Lines" && sh != "arch" {
		x.Prune()
	}
	var seq []int
	var names []string
	for i := 0; i < n; i++ {
		k := x.Choose(len(pureOps))
		seq = append(seq, k)
		names = append(names, pureOps[k].name)
	}
	x.Begin(fmt.Sprintf("%s, %s: %s", sh, kind, strings.Join(names, "; ")))
	ts := shapeNamed(sh)
	sett := pureSettings(ts, kind)
	m := meshOf(ts)
	before, sbefore := dumpTris(m.Triangles), settingsText(sett)
	for i, k := range seq {
		op := pureOps[k]
		key := fmt.Sprint(sh, kind, k)
		want, ok := freshCache[key]
		if !ok {
			x.Op(1)
			want = op.run(meshOf(ts), pureSettings(ts, kind), x.Scratch)
			freshCache[key] = want
		}
		if strings.HasPrefix(want, "RENDERED TWICE") {
			x.Fail("render", "%s: %s", op.name, want)
		}
		x.Op(1)
		got := op.run(m, sett, x.Scratch)
		if after := dumpTris(m.Triangles); after != before {
			x.Fail("mesh", "step %d, %s, changes its mesh: %s", i+1, op.name, firstDiff(before, after))
		}
		if after := settingsText(sett); after != sbefore {
			x.Fail("settings", "step %d, %s, changes the settings: %s", i+1, op.name, firstDiff(sbefore, after))
		}
		if got != want {
			x.Fail("history", "step %d, %s, gives another result than alone: %s", i+1, op.name, firstDiff(want, got))
		}
		x.State(hashStr(got))
	}
	x.Outcome(newHash().S(fmt.Sprint(sh, kind, seq)).Sum())
}

// reorder: triangles in another order, each starting with another vertex
func reorder(x *X, ts []tri, perm []int, turn func(i int) int) []tri {
	var r []tri
	for i, k := range perm {
		t := ts[k]
		q := turn(i)
		r = append(r, tri{t[q%3], t[(q+1)%3], t[(q+2)%3]})
	}
	return r
}

func layerChains(ls []Layer) (r [][]seg) {
	for _, l := range ls {
		r = append(r, pathSegs(l.Paths))
	}
	return r
}

// the order of triangles and of their vertices does not matter
func c03Order(x *X) {
	sh := Pick(x, "tetra", "prism3", "octa", "cube", "arch", "checker", "ring8", "star", "cup", "islands")
	ts := shapeNamed(sh)
	n := len(ts)
	var perm []int
	var turn func(i int) int
	if n <= Tier(x, 4, 6) {
		perm = permute(x, n)
		k := x.Choose(Tier(x, 9, 27))
		turn = func(i int) int { return k / [3]int{1, 3, 9}[i%3] }
	} else {
		perm = patterned(x.Choose(9), n)
		k := x.Choose(Tier(x, 4, 9))
		turn = func(i int) int { return i*k/3 + k }
	}
	op := Pick(x, "layers", "tilted layers", "cut", "gcode", "colors")
	x.Begin(fmt.Sprintf("%s of %s, triangles in order %v", op, sh, clip(fmt.Sprint(perm), 40)))
	sett := pureSettings(ts, "Squares")
	us := reorder(x, ts, perm, turn)
	x.Op(2)
	switch op {
	case "layers", "tilted layers":
		z := AxisZ
		if op != "layers" {
			z = Vector{0.4, -0.3, 0.8}
		}
		la, lb := slicers.SliceByVector(meshOf(ts), z, *sett), slicers.SliceByVector(meshOf(us), z, *sett)
		if len(la) != len(lb) {
			x.Fail("order", "%d layers with one order of triangles, %d with another", len(la), len(lb))
		}
		for i := range la {
			if d := chainDiff(pathSegs(lb[i].Paths), pathSegs(la[i].Paths), 2e-6); d != "" {
				x.Fail("order", "layer %d depends on the order of triangles: %s", i, d)
			}
		}
		x.Outcome(hashLayers(lb))
	case "cut":
		lo, hi := minmax(ts, AxisZ)
		pl := Plane{P: Point{0, 0, lo + (hi-lo)*0.37}, N: vunit(Vector{0.2, 0.1, 1})}
		ua, da, _ := helpers.CutMesh(meshOf(ts), pl)
		ub, db, _ := helpers.CutMesh(meshOf(us), pl)
		for i, p := range [][2]*Mesh{{ua, ub}, {da, db}} {
			a, b := trisOf(p[0]), trisOf(p[1])
			va, vb := volume(a, pl.P), volume(b, pl.P)
			if !near(va, vb, 1e-6*(1+math.Abs(va))) || sh != "checker" && !near(areaOf(a), areaOf(b), 1e-5*(1+areaOf(a))) {
				x.Fail("order", "half %d of the cut mesh: volume %.9g area %.9g with one order of triangles, %.9g and %.9g with another", i, va, areaOf(a), vb, areaOf(b))
			}
			if sh == "checker" { // its section touches itself: how such a section is capped is not told
				continue
			}
			for _, k := range []float64{0.21, 0.47, 0.83} {
				d := lo + (hi-lo)*k
				if m := sameSection(sectionChain(b, AxisZ, d, 1), sectionChain(a, AxisZ, d, 1), AxisZ); m != "" {
					x.Fail("order", "half %d of the cut mesh has another section at %.3f: %s", i, d, m)
				}
			}
		}
		x.Outcome(hashTris(trisOf(ub)))
	case "gcode":
		ga, gb := slicers.SliceByVectorToGcode(meshOf(ts), AxisZ, *sett), slicers.SliceByVectorToGcode(meshOf(us), AxisZ, *sett)
		run := func(g gcode.Gcode) []printedLayer {
			m := newMachine()
			if err := m.run(render(&g)); err != nil {
				x.Fail("gcode", "%v", err)
			}
			return m.printed()
		}
		a, b := run(ga), run(gb)
		if len(a) != len(b) {
			x.Fail("order", "%d layers are printed with one order of triangles, %d with another", len(a), len(b))
		}
		for i := range a {
			if d := chainDiff(b[i].outer, a[i].outer, 3e-3); d != "" {
				x.Fail("order", "printed layer %d depends on the order of triangles: %s", i, d)
			}
			if fa, fb := sortedSegs(a[i].fill), sortedSegs(b[i].fill); len(fa) != len(fb) {
				x.Fail("order", "layer %d has %d filling lines with one order of triangles, %d with another", i, len(fa), len(fb))
			} else {
				for k := range fa {
					if dist(fa[k].a, fb[k].a) > 3e-3 || dist(fa[k].b, fb[k].b) > 3e-3 {
						x.Fail("order", "layer %d: filling line %v-%v with one order of triangles, %v-%v with another", i, rp(fa[k].a), rp(fa[k].b), rp(fb[k].a), rp(fb[k].b))
					}
				}
			}
		}
		x.Outcome(hashStr(render(&gb)))
	case "colors":
		a, b := helpers.ColorizeTriangles(*meshOf(ts), 30, AxisZ), helpers.ColorizeTriangles(*meshOf(us), 30, AxisZ)
		if len(a) != len(b) {
			x.Fail("order", "%d colors and %d", len(a), len(b))
		}
		for i, k := range perm {
			if a[k] != b[i] {
				x.Fail("order", "triangle %v is colored %v at one place of the mesh, %v at another", ts[k], a[k], b[i])
			}
		}
		x.Outcome(hashStr(fmt.Sprint(b)))
	}
}

// sortedSegs orders undirected segments by the rounded coordinates of their middle.
func sortedSegs(ss []seg) []seg {
	r := append([]seg{}, ss...)
	for i, s := range r {
		if s.b.X < s.a.X-2e-3 || near(s.b.X, s.a.X, 2e-3) && s.b.Y < s.a.Y {
			r[i] = seg{s.b, s.a}
		}
	}
	sort.Slice(r, func(i, j int) bool {
		a, b := lerp(r[i].a, r[i].b, 0.5), lerp(r[j].a, r[j].b, 0.5)
		if !near(a.X, b.X, 3e-3) {
			return a.X < b.X
		}
		return a.Y < b.Y
	})
	return r
}

// c03Values: operations on paths and layers; their points lie in the middle of a larger array.
type pathOp struct {
	name string
	run  func(p, q Path) string
}

var pathOps = []pathOp{
	{"SimplifyLine fine", func(p, q Path) string { return fmt.Sprint(helpers.SimplifyLine(p.Points, 0.01)) }},
	{"SimplifyLine coarse", func(p, q Path) string { return fmt.Sprint(helpers.SimplifyLine(p.Points, 2.5)) }},
	{"SimplifyLine of a part", func(p, q Path) string { return fmt.Sprint(helpers.SimplifyLine(p.Points[:len(p.Points)/2+1], 0.3)) }},
	{"Reverse", func(p, q Path) string { return fmt.Sprint(p.Reverse(), p.Reverse().Reverse()) }},
	{"Close", func(p, q Path) string {
		return fmt.Sprint(p.Close(), Path{Points: p.Points[:len(p.Points)-1]}.Close(), p.IsClosed())
	}},
	{"MinimizeLines", func(p, q Path) string { return fmt.Sprint(p.MinimizeLines(), q.MinimizeLines()) }},
	{"FindCentroid, directions", func(p, q Path) string {
		return fmt.Sprint(FindCentroid(p), FindCentroid(q), p.IsWindingCW(), q.IsHole(), p.IsSolid(), p.Equal(q))
	}},
	{"Inside", func(p, q Path) string {
		return fmt.Sprint(p.IsInside(q), q.IsInside(p), p.Points[0].Inside(q), FindCentroid(q).Inside(p))
	}},
	{"MakeOffset", func(p, q Path) string {
		return fmt.Sprint(vip.MakeOffset(p, 0.4, AxisZ)) + fmt.Sprint(vip.MakeOffset(q, 0.4, AxisZ.Reverse()))
	}},
	{"SkirtPathes", func(p, q Path) string {
		return dumpLayers([]Layer{vip.SkirtPathes(Layer{Norm: AxisZ, Paths: []Path{p, q}}, 2, 0.5)})
	}},
	{"PrepareLayers", func(p, q Path) string {
		g := gcode.GcodeSettings{LineWidth: 0.5, LayerHeight: 0.2}
		pl := []Plane{{P: Point{0, 3.1, 0}, N: AxisY}, {P: Point{0, 5.3, 0}, N: AxisY}}
		return dumpLayers(vip.PrepareLayers([]Layer{{Norm: AxisZ, Paths: []Path{p, q}}}, slicers.Settings{WallThickness: 1.5, GcodeSettings: &g}, pl, pl))
	}},
	{"FillLayers", func(p, q Path) string {
		g := gcode.GcodeSettings{LineWidth: 0.5, LayerHeight: 0.2}
		pl := []Plane{{P: Point{0, 2.7, 0}, N: AxisY}, {P: Point{0, 4.9, 0}, N: AxisY}}
		return dumpLayers(slicers.FillLayers([]Layer{{Norm: AxisZ, Paths: []Path{p, q}}}, pl, pl, slicers.Settings{GcodeSettings: &g}))
	}},
	{"CalculateFails", func(p, q Path) string {
		up := Path{}
		for _, a := range p.Points {
			up.Points = append(up.Points, Point{a.X*1.3 + 1, a.Y * 1.2, a.Z + 0.2})
		}
		r := slicers.CalculateFails(Layer{Norm: AxisZ, Paths: []Path{p}}, Layer{Norm: AxisZ, Paths: []Path{up}})
		if r == nil {
			return "nil"
		}
		return fmt.Sprint(*r)
	}},
	{"PlaneBetween", func(p, q Path) string {
		return fmt.Sprint(slicers.PlaneBetween(Layer{Norm: AxisZ, Paths: []Path{p}}, Layer{Norm: AxisZ, Paths: []Path{q}}))
	}},
	{"IntersectPathAlong", func(p, q Path) string {
		a := Plane{P: FindCentroid(p), N: AxisY}.IntersectPathAlong(p, AxisX)
		b := Plane{P: FindCentroid(p), N: AxisX}.IntersectPathCodirectedWith(p, AxisY)
		t := ""
		for _, r := range []*Point{a, b} {
			if r != nil {
				t += fmt.Sprint(*r)
			}
		}
		return t
	}},
	{"printed", func(p, q Path) string {
		g := gcode.GcodeSettings{LineWidth: 0.5, LayerHeight: 0.2, BarDiameter: 1.75, Flow: 1, PrintSpeed: 1800, PrintSpeedLayer1: 600, PrintSpeedWall: 900, Retraction: true, RetractionDistance: 2, RetractionSpeed: 1200}
		c := gcode.NewGcode(g)
		c.AddLayers([]Layer{{Norm: AxisZ, Paths: []Path{p}, InnerPs: []Path{q}, Fill: []Path{q.Reverse()}}, {Norm: AxisZ, Paths: []Path{q}, MiddlePs: []Path{p}}})
		return rendered(c)
	}},
}

var valuesCache = map[string]string{}

func c03Values(x *X) {
	shapes := [][]Point{
		{{0, 0, 1}, {0, 9, 1}, {5, 9.4, 1}, {9, 9, 1}, {9, 4, 1}, {8.5, 2, 1}, {9, 0, 1}, {4, 0.2, 1}, {0, 0, 1}},
		{{0, 0, 1}, {0, 4, 1}, {0, 8, 1}, {4, 8, 1}, {8, 8, 1}, {8, 0, 1}, {4, 0, 1}, {0, 0, 1}},
		{{0, 0, 1}, {1, 6, 1}, {2, 6.2, 1}, {3, 5.9, 1}, {6, 6, 1}, {6, 3, 1}, {9, 3, 1}, {9, 0, 1}, {5, -0.3, 1}},
		{{3, 3, 1}, {0, 0, 1}, {0, 7, 1}, {7, 7, 1}, {7, 0, 1}, {3, 3, 1}},
	}
	si := x.Choose(len(shapes))
	n := Tier(x, 2, 3)
	var seq []int
	var names []string
	for i := 0; i < n; i++ {
		k := x.Choose(len(pathOps))
		seq = append(seq, k)
		names = append(names, pathOps[k].name)
	}
	x.Begin(fmt.Sprintf("path %d: %s", si, strings.Join(names, "; ")))
	mk := func() (all []Point, p, q Path) {
		guard := Point{-77, 123, 55}
		all = []Point{guard, guard}
		all = append(all, shapes[si]...)
		e := len(all)
		all = append(all, guard, guard, guard)
		f := len(all)
		for i := range shapes[si] { // a smaller one in it, the other way round
			a := shapes[si][len(shapes[si])-1-i]
			all = append(all, Point{a.X*0.4 + 2.6, a.Y*0.4 + 2.6, a.Z})
		}
		g := len(all)
		all = append(all, guard, guard)
		return all, Path{Points: all[2:e]}, Path{Points: all[f:g]}
	}
	all, p, q := mk()
	before := fmt.Sprint(all)
	for i, k := range seq {
		op := pathOps[k]
		key := fmt.Sprint(si, k)
		want, ok := valuesCache[key]
		if !ok {
			_, a, b := mk()
			x.Op(1)
			want = op.run(a, b)
			valuesCache[key] = want
		}
		x.Op(1)
		got := op.run(p, q)
		if after := fmt.Sprint(all); after != before {
			x.Fail("values", "step %d, %s, changes the points it was given: %s", i+1, op.name, firstDiff(before, after))
		}
		if got != want {
			x.Fail("history", "step %d, %s, gives another result than alone: %s", i+1, op.name, firstDiff(want, got))
		}
		x.State(hashStr(got))
	}
	x.Outcome(newHash().S(fmt.Sprint(si, seq)).Sum())
}

// c03Changed: an operation, a change of the mesh or the settings in place, an operation: the second one
// sees what is there now
func c03Changed(x *X) {
	sh := Pick(x, "cube", "funnel", "arch", "shear+x")
	k := x.Choose(len(pureOps))
	change := x.Choose(6)
	same := x.Bool()
	l := k
	if !same {
		l = x.Choose(len(pureOps))
	}
	x.Begin(fmt.Sprintf("%s: %s; change %d; %s", sh, pureOps[k].name, change, pureOps[l].name))
	ts := shapeNamed(sh)
	sett := pureSettings(ts, "Lines")
	m := meshOf(ts)
	x.Op(2)
	pureOps[k].run(m, sett, x.Scratch)
	switch change {
	case 0:
		m.Shift(Vector{3, -2, 1.37})
	case 1: // the same number of triangles, other vertices
		for i, t := range mapTris(ts, func(p Point) Point { return Point{p.X * 1.1, p.Y * 0.9, p.Z * 1.2} }) {
			m.Triangles[i] = NewTriangle(t[0], t[1], t[2])
		}
	case 2: // another body in its place
		*m = *meshOf(shapeNamed("ring8"))
	case 3:
		m.Triangles = append(m.Triangles, meshOf(shift(ts, 40, 3, 0.2)).Triangles...)
	case 4:
		*m = *m.Rotate(RotationAroundX(90), Point{1, 2, 3})
	case 5:
		sett.LayerHeight *= 0.77
		sett.GcodeSettings.LayerHeight = sett.LayerHeight
		sett.GcodeSettings.LineWidth *= 1.3
		sett.WallThickness *= 1.4
		sett.FillDensity, sett.Epsilon = 55, 0.1
	}
	now := trisOf(m)
	c := *sett
	g := *sett.GcodeSettings
	c.GcodeSettings = &g
	want := pureOps[l].run(meshOf(now), &c, x.Scratch)
	got := pureOps[l].run(m, sett, x.Scratch)
	if pureOps[l].name == "ColorizeTriangles" || pureOps[l].name == "Analyze" || got == want {
		// normals of moved triangles are kept, those of new ones computed: the last bit may differ
	} else {
		x.Fail("stale", "%s gives another result than for an equal mesh: %s", pureOps[l].name, firstDiff(want, got))
	}
	x.State(hashStr(got))
	x.Outcome(newHash().S(sh).I(k).I(l).I(change).Sum())
}

func init() {
	register(&Prop{ID: "C03", Level: "model_checking",
		Rule:   "every sequence of operations up to the depth on one shared mesh; every permutation of the triangles of small meshes, patterned ones of larger meshes; every sequence of operations up to the depth on shared paths lying in a larger array",
		Models: []Model{{Name: "history", Run: c03History}, {Name: "changed", Run: c03Changed}, {Name: "order", Run: c03Order}, {Name: "values", Run: c03Values}}})
}
