//go:build go1.22

package main

import (
	"fmt"
	"math"
	"os"
	"path/filepath"
	"strings"

	"github.com/l1va/goosli/gcode"
	"github.com/l1va/goosli/helpers"
	. "github.com/l1va/goosli/primitives"
	"github.com/l1va/goosli/slicers"
	"github.com/l1va/goosli/slicers/vip"
)

// C16: multi-orientation printing by a file of planes.

const gtol = 0.0012 // three decimals in G-code

// checkPrintedPart compares printed layers (in machine coordinates) with the solid ts,
// given in the same coordinates and printed from bottom to top along Z.
func checkPrintedPart(x *X, pls []printedLayer, ts []tri, sett slicers.Settings, walls bool, skirt int, where string) (contours int) {
	lo, hi := minmax(ts, AxisZ)
	h := hi - lo
	var refs []layerRef
	for _, cnt := range layerCounts(h, sett.LayerHeight) {
		refs = expectedLayers(x, ts, AxisZ, cnt)
		if len(pls) > 0 && len(refs) > 0 && near(layerZ(pls[0]), refs[0].d, 1.5*gtol) {
			break
		}
	}
	return checkPrintedRefs(x, pls, refs, sett, walls, skirt, where)
}

func checkPrintedRefs(x *X, pls []printedLayer, refs []layerRef, sett slicers.Settings, walls bool, skirt int, where string) (contours int) {
	g := sett.GcodeSettings
	lw := g.LineWidth
	nWalls := 0
	if walls {
		nWalls = int(math.Floor(sett.WallThickness/lw+1e-9)) - 1
		if nWalls < 0 {
			nWalls = 0
		}
	}
	pi := 0
	for ri, r := range refs {
		r.chain, r.alt = netChain(r.chain, 1e-5), netChain(r.alt, 1e-5)
		w := fmt.Sprintf("%s, layer %d of %d at %.4f", where, ri, len(refs), r.d)
		if segsLen(r.chain) < 0.05 && segsLen(r.alt) < 0.05 {
			if pi < len(pls) && near(layerZ(pls[pi]), r.d, 1.5*gtol) {
				pi++
			}
			continue
		}
		if pi >= len(pls) || !near(layerZ(pls[pi]), r.d, 1.5*gtol) {
			got := "nothing is left"
			if pi < len(pls) {
				got = fmt.Sprintf("next layer printed is at %.4f", layerZ(pls[pi]))
			}
			x.Fail("missing", "%s is not printed: %s", w, got)
		}
		l := pls[pi]
		pi++
		same := func(got, want []seg, key, name string) bool {
			a := symDiffArea(got, want, AxisZ)
			lg, lwn := segsLen(got), segsLen(want)
			if a > gtol*(lwn+lg)+2e-3 || math.Abs(lg-lwn) > 0.01+4*gtol*float64(len(got)+len(want)) {
				if key != "" {
					x.Fail(key, "%s: %s: area of the difference %.6g, length %.6g must be %.6g", w, name, a, lg, lwn)
				}
				return false
			}
			return true
		}
		want := r.chain
		extra := []seg{}
		if skirt > 0 && ri == 0 {
			cs := loopsFromChain(r.chain)
			sk, ok := expectedWalls(cs, skirt, lw, false)
			if ok < skirt || cs == nil { // no room, or contours that cannot be told apart
				extra = nil
			}
			for _, lv := range sk {
				if extra == nil {
					break
				}
				for _, o := range lv {
					extra = append(extra, loopSegs(o)...)
				}
			}
		}
		if extra != nil {
			want = append(append([]seg{}, want...), extra...)
			if len(extra) == 0 && &r.chain != &r.alt && same(l.outer, r.alt, "", "") {
				want = r.alt
			}
			same(l.outer, want, "outer", "outer walls are not the section of the part")
		}
		contours++
		// walls
		fillIn := r.chain
		cs := loopsFromChain(r.chain)
		if nWalls > 0 && cs == nil {
			fillIn = nil // contours that cannot be told apart
		} else if nWalls > 0 {
			ref, ok := expectedWalls(cs, nWalls, -lw, false)
			if ok == nWalls {
				var in, mid []seg
				for _, o := range ref[nWalls-1] {
					in = append(in, loopSegs(o)...)
				}
				for _, lv := range ref[:nWalls-1] {
					for _, o := range lv {
						mid = append(mid, loopSegs(o)...)
					}
				}
				same(l.inner, in, "inner", "inner walls")
				same(l.middle, mid, "middle", "middle walls")
				fillIn = in
			} else {
				fillIn = nil
			}
		} else if len(l.inner)+len(l.middle) > 0 {
			x.Fail("inner", "%s: unexpected inner walls", w)
		}
		// filling
		if fillIn != nil {
			isFull := ri < sett.BottomLayers || ri >= len(refs)-sett.TopLayers
			var ls []fline
			mk := func(deg, step float64) {
				n := vecAt(deg)
				a, b := math.Inf(1), math.Inf(-1)
				for _, s := range fillIn {
					a, b = math.Min(a, pdot(s.a, n)), math.Max(b, pdot(s.a, n))
				}
				for k := math.Floor(a/step) - 1; k <= math.Ceil(b/step)+1; k++ {
					ls = append(ls, fline{n, k * step})
				}
			}
			if isFull {
				mk(0, lw)
			} else if sett.FillDensity > 0 {
				f := map[string][]float64{"Lines": {0}, "Squares": {45, 135}, "Triangles": {0, 60, 120}}[sett.FillingType]
				for _, deg := range f {
					mk(deg, lw*100/float64(sett.FillDensity)*float64(len(f)))
				}
			}
			var fill []Path
			for _, s := range l.fill {
				fill = append(fill, Path{Points: []Point{s.a, s.b}})
			}
			checkFillSegs(x, fillIn, ls, fill, flat(r.d), w, gtol)
		}
	}
	if pi != len(pls) {
		x.Fail("extra", "%s: %d layers printed, %d expected", where, len(pls), pi)
	}
	return contours
}

func layerZ(l printedLayer) float64 {
	for _, s := range [][]seg{l.outer, l.middle, l.inner, l.fill} {
		if len(s) > 0 {
			return s[0].b.Z
		}
	}
	return math.NaN()
}

type planeSpec struct {
	frac [3]float64 // position in the bounding box
	tilt bool
	rot  float64
}

var c16Planes = []planeSpec{
	{[3]float64{0.5, 0.5, 0.3413}, false, 0},
	{[3]float64{0.5, 0.5, 0.6127}, false, 0},
	{[3]float64{0.5, 0.5, 0.5031}, true, 0},
	{[3]float64{0.5, 0.5, 0.5031}, true, 90}, // through the same point, turned otherwise
	{[3]float64{0.47, 0.53, 0.8037}, true, -45},
	{[3]float64{0.51, 0.49, 0.4471}, true, 180},
	{[3]float64{0.5, 0.5, 0.0437}, false, 45},
	{[3]float64{0.5, 0.5, 0.3413}, false, 60}, // the first one, the bed turned otherwise
	{[3]float64{0.5, 0.5, 0.7133}, true, -137.25},
	{[3]float64{0.5, 0.5, 0.8519}, false, 30},
	{[3]float64{0.43, 0.51, 0.6519}, true, 270},
}

func c16Run(x *X) {
	names := []string{"cube", "tower", "L", "ring8", "arch", "overstairs", "frustum", "U", "T", "mushroom", "shear+x", "startwist"}
	name := names[x.Choose(len(names))]
	n := 1 + x.Choose(Tier(x, 2, 3))
	var pls []planeSpec
	for i := 0; i < n; i++ {
		p := c16Planes[x.Choose(Tier(x, 9, len(c16Planes)))]
		for _, q := range pls[:max(0, len(pls)-1)] {
			if p == q { // the same plane twice only in a row: nothing is between them
				x.Prune()
			}
		}
		pls = append(pls, p)
	}
	center := x.Choose(3)
	kind := Pick(x, "Lines", "Squares", "Triangles")
	if !x.Thorough && n == 2 && kind == "Triangles" && center == 0 {
		x.Prune()
	}
	x.Begin(fmt.Sprintf("%s planes=%v center=%d %s", name, pls, center, kind))
	ts := shift(scale(shapeNamed(name), 1.7), 1.3, -2.1, 0)
	c := []Point{{}, {5, -3, 2}, {-20, 11, 7}}[center]
	sett := c13Settings(kind, 30, 0.5)
	sett.LayerHeight = 1.13
	sett.WallThickness = []float64{1.0, 0.5, 1.5}[n%3]
	sett.TopLayers, sett.BottomLayers = 1, 1
	sett.SkirtLineCount = center
	sett.RotationCenter = c
	g := *sett.GcodeSettings
	g.LayerHeight = sett.LayerHeight
	sett.GcodeSettings = &g
	c16Check(x, ts, pls, c, sett)
}

// c16Many: files of many planes, parts of many layers, meshes of thousands of triangles
func c16Many(x *X) {
	n := Pick(x, 4, 7, 12)
	np := 16
	if n != 4 {
		np = 4
	}
	mask := x.Choose(np)
	if n != 4 {
		mask = []int{0, 0xfff, 0x555, 0x924}[mask]
	}
	rot := x.Choose(Tier(x, 2, 4))
	kind := Pick(x, "tower", "posts", "fine")
	th := Pick(x, 1.13, 0.231)
	if kind == "fine" && (th < 1) == (n == 4) || th < 1 && kind != "fine" && mask&3 == 0 && !x.Thorough {
		x.Prune()
	}
	x.Begin(fmt.Sprintf("%s cut by %d planes, inclined %b, turned by rule %d, layers %g", kind, n, mask, rot, th))
	var ts []tri
	switch kind {
	case "tower":
		ts = loft(7, 0.2, []float64{6, 7, 5, 6}, []Point{{0, 0, 0}, {3, 1, 13}, {2, 4, 27}, {4, 4, 39}})
	case "fine":
		var r []float64
		var c []Point
		for k := 0; k <= 36; k++ {
			r = append(r, 6+math.Sin(float64(k)))
			c = append(c, Point{float64(k) / 9, float64(k*k) / 400, float64(k) * 1.07})
		}
		ts = loft(41, 0.13, r, c)
	case "posts":
		for i := 0; i < 9; i++ {
			ts = append(ts, loft(4, 0.3+float64(i)/7, []float64{2, 1.9}, []Point{{float64(i%3) * 6, float64(i/3) * 6, 0}, {float64(i%3) * 6, float64(i/3) * 6, 30 + float64(i)}})...)
		}
	}
	ts = shift(ts, 1.3, -2.1, 0)
	var pls []planeSpec
	for i := 0; i < n; i++ {
		p := planeSpec{frac: [3]float64{0.5 + 0.003*float64(i), 0.5, 0.0713 + 0.9*float64(i)/float64(n)}, tilt: mask>>uint(i)&1 == 1}
		p.rot = []float64{float64(i%4) * 90, float64(i)*37.5 - 100, 0, -float64(i % 3)}[rot]
		pls = append(pls, p)
	}
	sett := c13Settings([]string{"Lines", "Squares", "Triangles"}[n%3], 20, 0.5)
	sett.LayerHeight = th
	sett.WallThickness, sett.TopLayers, sett.BottomLayers = 1.0, 1, 1
	sett.RotationCenter = []Point{{}, {5, -3, 2}, {-20, 11, 7}, {1.3, -2.1, 0}}[rot]
	g := *sett.GcodeSettings
	g.LayerHeight = th
	sett.GcodeSettings = &g
	c16Check(x, ts, pls, sett.RotationCenter, sett)
}

func c16Check(x *X, ts []tri, pls []planeSpec, c Point, sett slicers.Settings) {
	n := len(pls)
	m := meshOf(ts)
	var lo, hi Point
	for i, ax := range []Vector{AxisX, AxisY, AxisZ} {
		a, b := minmax(ts, ax)
		switch i {
		case 0:
			lo.X, hi.X = a, b
		case 1:
			lo.Y, hi.Y = a, b
		case 2:
			lo.Z, hi.Z = a, b
		}
	}
	var text strings.Builder
	type pl struct {
		p Point
		n Vector
	}
	var cut []pl
	for _, s := range pls {
		p := Point{r3(lo.X + s.frac[0]*(hi.X-lo.X)), r3(lo.Y + s.frac[1]*(hi.Y-lo.Y)), r3(lo.Z + s.frac[2]*(hi.Z-lo.Z))}
		fmt.Fprintf(&text, "X%.3f Y%.3f Z%.3f T%v R%.3f\n", p.X, p.Y, p.Z, s.tilt, s.rot)
		nn := AxisZ
		if s.tilt {
			nn = rotVec(nn, AxisX, -60)
		}
		cut = append(cut, pl{p, rotVec(nn, AxisZ, s.rot)})
	}
	fn := filepath.Join(x.Scratch, "planes.txt")
	must(os.WriteFile(fn, []byte(text.String()), 0644))
	sett.PlanesFile = fn
	// the parts: in front of their own plane, behind all the later ones
	rest := m
	parts := make([][]tri, n+1)
	for i := n - 1; i >= 0; i-- {
		if i < n-1 && cut[i] == cut[i+1] {
			continue // nothing is between them
		}
		for _, t := range trisOf(rest) {
			for _, p := range t {
				if d := math.Abs(vdot(vsub(p, cut[i].p), cut[i].n)); d < 1e-4 {
					if i == n-1 {
						x.Prune() // the plane goes through a vertex
					}
				}
			}
		}
		// single precision of the planes file moves the plane by less than 1e-6
		up, down, err := helpers.CutMesh(rest, Plane{P: Point{float64(float32(cut[i].p.X)), float64(float32(cut[i].p.Y)), float64(float32(cut[i].p.Z))}, N: cut[i].n})
		if err != nil {
			x.Fail("cut", "the mesh cannot be cut: %v", err)
		}
		parts[i+1] = trisOf(up)
		rest = down
	}
	parts[0] = trisOf(rest)
	var gc gcode.Gcode
	gc = vip.Slice(m, sett)
	x.Op(1 + n)
	mc := newMachine()
	if err := mc.run(render(&gc)); err != nil {
		x.Fail("gcode", "%v", err)
	}
	pr := mc.printed()
	// split by bed pose in order; consecutive parts in one pose are split by the plane
	at := 0
	total := 0
	hsh := newHash()
	for i := 0; i <= n; i++ {
		rot, tl := 0.0, 0.0
		f := func(p Point) Point { return p }
		if i > 0 {
			rot = pls[i-1].rot
			t := pls[i-1].tilt
			if t {
				tl = 60
			}
			f = func(p Point) Point {
				p = rotPoint(p, c, AxisZ, -rot)
				if t {
					p = rotPoint(p, c, AxisX, 60)
				}
				return p
			}
		}
		part := mapTris(parts[i], f)
		if len(part) == 0 {
			continue
		}
		a, b := minmax(part, AxisZ)
		if b-a < 0.01 {
			continue
		}
		var own []printedLayer
		cnt := int(math.Ceil((b - a) / sett.LayerHeight))
		for at < len(pr) && len(own) < cnt {
			z := layerZ(pr[at])
			if !near(pr[at].t1, rot, 0.0006) || !near(pr[at].t2, tl, 0.0006) {
				break
			}
			if z > b+2*gtol || len(own) > 0 && z < layerZ(own[len(own)-1]) {
				break
			}
			own = append(own, pr[at])
			at++
		}
		sk := 0
		if i == 0 {
			sk = sett.SkirtLineCount
		}
		total += checkPrintedPart(x, own, part, sett, true, sk, fmt.Sprintf("part %d (bed %g %g)", i, rot, tl))
		hsh.I(len(own))
	}
	if at != len(pr) {
		x.Fail("extra", "%d layers are printed, %d belong to the parts; next has bed angles %g %g at height %.3f", len(pr), at, pr[at].t1, pr[at].t2, layerZ(pr[at]))
	}
	if mc.tool != 0 {
		x.Fail("tool", "tool %d is left active", mc.tool)
	}
	if total == 0 {
		x.Trivial()
	}
	x.State(hashStr(x.desc))
	x.Outcome(hsh.I(total).Sum())
}

func r3(v float64) float64 { return math.Round(v*1000) / 1000 }

// c16RoundTrip: a plane written and read back is the same plane.
func c16RoundTrip(x *X) {
	mode := x.Choose(2)
	if mode == 0 {
		rot := float64(x.Choose(Tier(x, 37, 145)))*Tier(x, 20.0, 5.0) - 360
		tilt := x.Bool()
		p := Pick(x, Point{}, Point{12.345, -6.789, 100.5}, Point{-0.004, 1e4, 0.001}, Point{-250.125, -3, 77.7})
		x.Begin(fmt.Sprintf("rot=%g tilt=%v p=%v", rot, tilt, rp(p)))
		text := fmt.Sprintf("X%.3f Y%.3f Z%.3f T%v R%.3f", p.X, p.Y, p.Z, tilt, rot)
		x.Op(2)
		ap := vip.ParsePlane(text)
		n := AxisZ
		if tilt {
			n = rotVec(n, AxisX, -60)
		}
		n = rotVec(n, AxisZ, rot)
		if dist(ap.N.ToPoint(), n.ToPoint()) > 1e-6 || dist(ap.P, p) > 1e-3 {
			x.Fail("parse", "%q is read as point %v normal %v, must be %v", text, rp(ap.P), rp(ap.N.ToPoint()), rp(n.ToPoint()))
		}
		if s := ap.String(); s != text && !strings.Contains(text, "-0.000") {
			x.Fail("string", "%q is written back as %q", text, s)
		}
		x.State(hashStr(text))
		x.Outcome(hashStr(ap.String()))
		return
	}
	si := x.Choose(len(shapeCache))
	rot := x.Choose(Tier(x, 8, 24))
	angle := Pick(x, 20.0, 30.0, 45.0)
	x.Begin(fmt.Sprintf("analyzed %s rot=%d angle=%g", shapeCache[si].name, rot, angle))
	ts := mapTris(shapeCache[si].ts, func(p Point) Point {
		return rotPoint(p, Point{}, AxisZ, float64(rot)*360/float64(Tier(x, 8, 24))+0.7)
	})
	x.Op(1)
	aps := vip.Analyze(meshOf(ts), angle)
	if len(aps) == 0 {
		x.Trivial()
	}
	h := newHash()
	for _, ap := range aps {
		back := vip.ParsePlane(ap.String())
		if !finite(ap.P) || dist(back.P, ap.P) > 1e-3 || dist(back.N.ToPoint(), ap.N.ToPoint()) > 1e-4 {
			x.Fail("roundtrip", "plane %v normal %v is written as %q and read back as %v normal %v", rp(ap.P), rp(ap.N.ToPoint()), ap.String(), rp(back.P), rp(back.N.ToPoint()))
		}
		h.S(ap.String())
	}
	x.State(hashStr(x.desc))
	x.Outcome(h.Sum())
}

func init() {
	register(&Prop{ID: "C16", Level: "model_checking",
		Rule:   "every shape x sequence of cutting planes x rotation center x pattern is printed and the G-code, executed by the reference printer, is compared part by part with the solid in the pose of the bed; every plane text is written and read back",
		Assume: []string{"planes miss the vertices of the model by 1e-4 mm"},
		Models: []Model{{Name: "roundtrip", Run: c16RoundTrip}, {Name: "many", Run: c16Many}, {Name: "parts", Run: c16Run}}})
}
