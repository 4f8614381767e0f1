//go:build go1.22

package main

import (
	"fmt"
	"math"

	"github.com/l1va/goosli/gcode"
	. "github.com/l1va/goosli/primitives"
	"github.com/l1va/goosli/slicers"
)

func gsettings() *gcode.GcodeSettings {
	return &gcode.GcodeSettings{BarDiameter: 1.75, Flow: 1, LayerHeight: 0.2, LineWidth: 0.4, PrintSpeed: 3000, PrintSpeedLayer1: 1800, PrintSpeedWall: 2400}
}

func settingsT(t float64) slicers.Settings {
	return slicers.Settings{GcodeSettings: gsettings(), LayerHeight: t, WallThickness: 1.2, FillDensity: 20, FillingType: "Lines", Epsilon: 10,
		ColorizedAngle: 30, UnitVector: AxisZ, TopLayers: 3, BottomLayers: 3, PlanesFile: "no_such_planes_file.txt"}
}

type layerRef struct {
	k     int
	d     float64
	chain []seg
	alt   []seg
}

// expectedLayers: the reference for slicing the mesh along unit n with spacing <= t.
func expectedLayers(x *X, ts []tri, n Vector, cnt int) []layerRef {
	lo, hi := minmax(ts, n)
	var res []layerRef
	for k := 0; k < cnt; k++ {
		d := lo + (float64(k)+0.5)*(hi-lo)/float64(cnt)
		a := sectionChain(ts, n, d, 1)
		touch := false
		at := 0.0
		for _, t := range ts {
			for _, p := range t {
				if h := pdot(p, n); math.Abs(h-d) < 1e-7 {
					if touch && h != at {
						x.Prune() // ill-conditioned: vertices meant to be on the plane are on both sides of it
					}
					touch, at = true, h
				}
			}
		}
		b := a
		if touch {
			b = sectionChain(ts, n, d, -1)
		}
		res = append(res, layerRef{k, d, a, b})
	}
	return res
}

func layerCounts(h, t float64) []int {
	q := h / t
	n := int(math.Ceil(q))
	if r := math.Round(q); math.Abs(q-r) < 1e-9*math.Max(1, q) && int(r) != n && r > 0 {
		return []int{n, int(r)}
	}
	return []int{n}
}

// checkLayers compares SliceByVector's result with the exact cross-sections.
func checkLayers(x *X, ts []tri, dir Vector, t float64, layers []Layer) {
	n := vunit(dir)
	lo, hi := minmax(ts, n)
	h := hi - lo
	// which layer count was used: derive it from the distance of consecutive planes
	var fails []string
	for _, cnt := range layerCounts(h, t) {
		if msg := tryLayers(x, ts, n, lo, h, cnt, layers); msg == "" {
			return
		} else {
			fails = append(fails, msg)
		}
	}
	key := "section"
	x.Fail(key, "%s", fails[0])
}

func tryLayers(x *X, ts []tri, n Vector, lo, h float64, cnt int, layers []Layer) string {
	refs := expectedLayers(x, ts, n, cnt)
	isEmpty := func(c []seg) bool { return chainDiff(c, nil, 2e-5) == "" }
	// one leading and one trailing crossless layer may be dropped
	i := 0
	for ri, r := range refs {
		empty := isEmpty(r.chain) || isEmpty(r.alt)
		if i < len(layers) {
			l := layers[i]
			same := false
			if len(l.Paths) > 0 && len(l.Paths[0].Points) > 0 {
				same = near(pdot(l.Paths[0].Points[0], n), r.d, 1e-4*math.Max(1, h/float64(cnt)))
			} else {
				same = empty
			}
			if same {
				if msg := checkLayer(l, n, r); msg != "" {
					return fmt.Sprintf("layer %d of %d (offset %.6g): %s", ri, cnt, r.d, msg)
				}
				i++
				continue
			}
		}
		if !empty {
			got := "none left"
			if i < len(layers) && len(layers[i].Paths) > 0 && len(layers[i].Paths[0].Points) > 0 {
				got = fmt.Sprintf("next at %.6g", pdot(layers[i].Paths[0].Points[0], n))
			}
			return fmt.Sprintf("layer %d of %d at offset %.6g with %d section edges is missing (%s)", ri, cnt, r.d, len(r.chain), got)
		}
	}
	if i != len(layers) {
		return fmt.Sprintf("%d layers returned, only %d expected (%d planes)", len(layers), i, cnt)
	}
	return ""
}

func checkLayer(l Layer, n Vector, r layerRef) string {
	if dist(l.Norm.ToPoint(), n.ToPoint()) > 1e-6 {
		return fmt.Sprintf("layer normal %v instead of %v", l.Norm, n)
	}
	if len(l.MiddlePs)+len(l.InnerPs)+len(l.Fill) != 0 {
		return "freshly sliced layer already has walls or filling"
	}
	for _, p := range l.Paths {
		if len(p.Points) == 0 {
			return "contour without points"
		}
		for _, q := range p.Points {
			if !finite(q) {
				return "non-finite point"
			}
			if !near(pdot(q, n), r.d, 1e-6*math.Max(1, math.Abs(r.d))) {
				return fmt.Sprintf("point %v is %.3g off the layer plane", rp(q), pdot(q, n)-r.d)
			}
		}
		if dist(p.Points[0], p.Points[len(p.Points)-1]) > 2e-6 {
			return fmt.Sprintf("contour is not closed: %v .. %v", rp(p.Points[0]), rp(p.Points[len(p.Points)-1]))
		}
	}
	got := pathSegs(l.Paths)
	d := sameSection(got, r.chain, n)
	if d != "" && sameSection(got, r.alt, n) == "" {
		d = ""
	}
	if d != "" {
		return "contours are not the cross-section: " + d
	}
	// exact cover: no part of the contour printed twice
	if lg, lw := segsLen(got), math.Max(segsLen(r.chain), segsLen(r.alt)); lg > lw+1e-3*(1+lw) {
		return fmt.Sprintf("contour length %.6g exceeds the length of the section %.6g", lg, lw)
	}
	return ""
}

func hashLayers(ls []Layer) uint64 {
	h := newHash()
	for _, l := range ls {
		h.I(l.Order)
		for _, p := range l.Paths {
			h.I(len(p.Points))
			for _, q := range p.Points {
				h.F(q.X).F(q.Y).F(q.Z)
			}
		}
	}
	return h.Sum()
}

var dirs = []Vector{{0, 0, 1}, {0, 0, -1}, {1, 0, 0}, {-1, 0, 0}, {0, 1, 0}, {0, -1, 0}, {0, 0, 5}, {1, 1, 1}, {0, 1, 2}, {-1, 0.3, 0.7}, {0.2, -0.9, 0.1}}

func polycube(mask int, s float64) []tri {
	return voxels(2, 2, 2, func(i, j, k int) bool { return mask>>(i+2*j+4*k)&1 == 1 }, Point{}, Vector{s, s, s})
}

func c01Polycubes(x *X) {
	mask := 1 + x.Choose(255)
	dir := dirs[x.Choose(len(dirs))]
	t := Pick(x, 0.35, 0.7, 1.9, 2.0, 40)
	x.Begin(fmt.Sprintf("2x2x2 polycube mask %08b of 2 mm cells, direction %v, layer height %v", mask, dir, t))
	ts := polycube(mask, 2)
	if (t == 2.0) && math.Abs(math.Abs(dir.X)+math.Abs(dir.Y)+math.Abs(dir.Z)-vlen(dir)) > 1e-9 {
		x.Prune() // exact multiples are interesting for axis directions only
	}
	ls := slicers.SliceByVector(meshOf(ts), dir, settingsT(t))
	x.Op(len(ls))
	x.Outcome(hashLayers(ls))
	x.State(newHash().I(mask).F(dir.X).F(dir.Y).F(dir.Z).F(t).Sum())
	checkLayers(x, ts, dir, t, ls)
}

type xform struct {
	name string
	f    func(Point) Point
}

var xforms = []xform{
	{"id", func(p Point) Point { return p }},
	{"far", func(p Point) Point { return Point{p.X + 1003.25, p.Y - 871.5, p.Z + 77.3} }},
	{"small", func(p Point) Point { return Point{p.X * 0.11, p.Y * 0.11, p.Z * 0.11} }},
	{"big", func(p Point) Point { return Point{p.X*37 - 100, p.Y * 37, p.Z*37 - 60} }},
	{"rot", func(p Point) Point { return rotPoint(rotPoint(p, Point{}, AxisX, 33), Point{1, 2, 3}, Vector{1, 2, -1}, 71) }},
	{"flip", func(p Point) Point { return rotPoint(p, Point{}, AxisX, 180) }},
}

func c01Shapes(x *X) {
	s := shapeCache[x.Choose(len(shapeCache))]
	f := xforms[x.Choose(len(xforms))]
	dir := dirs[x.Choose(len(dirs))]
	frac := Pick(x, 1.0/3.3, 1.0/7.7, 1.0/41.3)
	if frac < 0.1 && !x.Thorough && f.name != "id" && f.name != "rot" {
		x.Prune()
	}
	x.Begin(fmt.Sprintf("shape %s, placement %s, direction %v, height/%v", s.name, f.name, dir, 1/frac))
	ts := mapTris(s.ts, f.f)
	lo, hi := minmax(ts, vunit(dir))
	t := (hi - lo) * frac
	ls := slicers.SliceByVector(meshOf(ts), dir, settingsT(t))
	x.Op(len(ls))
	x.Outcome(hashLayers(ls))
	x.State(newHash().S(s.name).S(f.name).F(dir.X).F(dir.Y).F(t).Sum())
	checkLayers(x, ts, dir, t, ls)
}

// many layers, many contours, many triangles
func c01Large(x *X) {
	kind := x.Choose(9)
	t := Pick(x, 0.5, 0.173)
	dir := Pick(x, AxisZ, V(0, 0, -1), V(1, 1, 1), V(-1, 0.3, 0.7))
	if dir != AxisZ && t < 0.5 && !x.Thorough {
		x.Prune()
	}
	x.Begin(fmt.Sprintf("large model %d, direction %v, layer height %v", kind, dir, t))
	ts := largeModel(kind)
	ls := slicers.SliceByVector(meshOf(ts), dir, settingsT(t))
	x.Op(len(ls))
	x.Outcome(hashLayers(ls))
	x.State(newHash().I(kind).F(t).F(dir.X).F(dir.Z).Sum())
	checkLayers(x, ts, dir, t, ls)
}

// the number of layers is right just below and above whole multiples of the layer height, up to very many layers
func c01Heights(x *X) {
	s := Pick(x, "cube", "tetra", "funnel", "arch", "octa")
	dir := Pick(x, AxisZ, V(-1, 0, 0), V(0, 1, 2))
	n := Pick(x, 1, 2, 3, 10, 57, 129, 1000, 2100, Tier(x, 9000, 40000))
	e := Pick(x, -0.4, -0.02, -1e-3, -1e-4, -3e-6, 3e-6, 1e-4, 1e-3, 0.02, 0.4)
	if n >= 1000 && s != "cube" && s != "arch" && !x.Thorough {
		x.Prune()
	}
	if n > 2000 && math.Abs(e) < 1e-3 {
		x.Prune() // rounding noise of the quotient
	}
	if n > 5000 && (s != "cube" || dir != AxisZ || math.Abs(e) < 0.1) {
		x.Prune()
	}
	x.Begin(fmt.Sprintf("%s, direction %v, height = (%d%+g) layers", s, dir, n, e))
	ts := shapeNamed(s)
	lo, hi := minmax(ts, vunit(dir))
	t := (hi - lo) / (float64(n) + e)
	ls := slicers.SliceByVector(meshOf(ts), dir, settingsT(t))
	x.Op(len(ls))
	x.Outcome(hashLayers(ls))
	x.State(newHash().S(s).F(dir.X).F(dir.Y).I(n).F(e).Sum())
	checkLayers(x, ts, dir, t, ls)
}

func largeModel(kind int) []tri {
	switch kind {
	case 0:
		return sphere(48, 24, 13)
	case 1: // 100 columns
		return voxels(20, 20, 2, func(i, j, k int) bool { return i%2 == 0 && j%2 == 0 }, Point{}, Vector{2, 2, 5})
	case 2:
		return ring(60, 30, 25, 0, 20)
	case 3: // tall
		return prism(ngon(7, 5, 0), 0, 150, func(p Point) Point { return Point{p.X*0.5 + 3, p.Y * 0.5, 0} })
	case 4: // terrain of towers
		return voxels(9, 9, 6, func(i, j, k int) bool { return (i*7+j*5)%6 >= k }, Point{-9, -9, 0}, Vector{2, 2, 2})
	case 6: // finely meshed
		return sphere(96, 60, 21)
	case 7: // many edges meet in one point, long thin triangles
		return revolve(300, [][2]float64{{0, 0}, {25, 1}, {25, 1.6}, {0, 9}})
	case 8: // a wall of 400 windows
		return voxels(41, 1, 41, func(i, j, k int) bool { return i%2 == 0 || k%2 == 0 }, Point{}, Vector{1, 2, 1})
	default: // nested rings
		return voxels(21, 21, 1, func(i, j, k int) bool {
			d := i - 10
			if d < 0 {
				d = -d
			}
			e := j - 10
			if e < 0 {
				e = -e
			}
			if e > d {
				d = e
			}
			return d%2 == 0
		}, Point{}, Vector{1, 1, 8})
	}
}

// planes through mesh vertices: the section just below or just above is due
func c01OnVertices(x *X) {
	s := shapeCache[x.Choose(len(shapeCache))]
	den := Pick(x, 1, 2, 3, 4, 6)
	k := x.Choose(3)
	dir := Pick(x, AxisZ, V(0, 0, -1), AxisX, V(0, -3, 0))
	x.Begin(fmt.Sprintf("shape %s cut in half boxes, height/%d, stretch %d, direction %v", s.name, den, k, dir))
	ts := s.ts
	lo, hi := minmax(ts, vunit(dir))
	_ = k
	if k > 0 {
		// put a second copy on top so that its bottom vertices fall on layer planes
		ts = join(ts, mapTris(ts, func(p Point) Point { return vadd(p, vmul(vunit(dir), (hi-lo)*float64(k))) }))
		lo, hi = minmax(ts, vunit(dir))
	}
	t := (hi - lo) / float64(den)
	ls := slicers.SliceByVector(meshOf(ts), dir, settingsT(t))
	x.Op(len(ls))
	x.Outcome(hashLayers(ls))
	x.State(newHash().S(s.name).I(den).I(k).F(dir.X).F(dir.Z).Sum())
	checkLayers(x, ts, dir, t, ls)
}

func init() {
	register(&Prop{ID: "C01", Level: "model_checking",
		Rule: "every (solid, placement, direction, layer height) of the stated alphabets is sliced by the real code and every layer is compared, as a signed 1-chain, with an independent triangle/plane reference; non-trivial when at least one layer has a contour",
		Assume: []string{"closed meshes with outward normals", "vertices nearer than 2e-5 mm are identified when chains are compared"},
		Models: []Model{
			{Name: "polycubes", Run: c01Polycubes},
			{Name: "shapes", Run: c01Shapes},
			{Name: "onvertices", Run: c01OnVertices},
			{Name: "large", Run: c01Large},
			{Name: "heights", Run: c01Heights},
		}})
}
