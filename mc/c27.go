//go:build go1.22

package main

import (
	"fmt"
	"math"

	"github.com/l1va/goosli/gcode"
	"github.com/l1va/goosli/helpers"
	. "github.com/l1va/goosli/primitives"
	"github.com/l1va/goosli/slicers"
	"github.com/l1va/goosli/slicers/vip"
)

// C27: modes that find the poses by themselves (5axes; vip without planes: default, bridge, rotation).

// autoBlock: layers printed in one pose
type autoBlock struct {
	name   string
	ts     []tri   // in machine coordinates, as printed
	top    float64 // only layers under it
	rz, rx float64 // pose
	back   func(p Point) Point
	alt    []autoAlt // other ways to go on from here
}

type autoAlt struct {
	rz   float64
	rest []autoBlock
}

const autoMaxCuts = 14

func cutTris(x *X, ts []tri, p Plane) (up, down []tri) {
	u, d, err := helpers.CutMesh(meshOf(ts), p)
	if err != nil {
		x.Fail("cut", "the mesh cannot be cut by %v %v: %v", rp(p.P), rp(Point(p.N)), err)
	}
	return trisOf(u), trisOf(d)
}

func poseFor(n Vector) float64 { // bed rotation that brings n to the side where the inclination lifts it
	return math.Mod(math.Atan2(n.Y, n.X)*180/math.Pi+90+720, 360)
}

func tiltBy(rz float64) func(Point) Point {
	return func(p Point) Point { return rotPoint(rotPoint(p, Point{}, AxisZ, -rz), Point{}, AxisX, -60) }
}

func untiltBy(rz float64) func(Point) Point {
	return func(p Point) Point { return rotPoint(rotPoint(p, Point{}, AxisX, 60), Point{}, AxisZ, rz) }
}

func layerLoops(l Layer) (outer []Path) {
	for _, p := range l.Paths {
		if signedAreaXY(p.Points) < 0 {
			outer = append(outer, p)
		}
	}
	return
}

func between(a, b Layer) float64 { return (a.Paths[0].Points[0].Z + b.Paths[0].Points[0].Z) / 2 }

// autoPlan: the parts of the print in order
// (simp: what the decisions are made on, when there are too many triangles)
func autoPlan(x *X, ts, simp []tri, mode string, sett slicers.Settings) []autoBlock {
	if mode == "5axes" && simp != nil {
		layers := slicers.SliceByVector(meshOf(simp), AxisZ, sett)
		return planFails(x, ts, simp, layers, sett, true)
	}
	layers := slicers.SliceByVector(meshOf(ts), AxisZ, sett)
	if len(layers) == 0 {
		return nil
	}
	if mode == "5axes" {
		return planFails(x, ts, nil, layers, sett, true)
	}
	op := layerLoops(layers[0])
	if len(op) == 2 {
		return planBridge(x, ts, layers, sett)
	}
	if len(op) == 1 && roundPath(x, op[0]) {
		if op := layerLoops(layers[len(layers)-1]); len(op) == 1 && roundPath(x, op[0]) {
			return planRotation(x, ts, layers, sett)
		}
	}
	return planFails(x, ts, nil, layers, sett, false)
}

func roundPath(x *X, p Path) bool {
	if len(p.Points) < 14 {
		return false
	}
	c := loopCentroid(p.Points)
	d := dist(c, p.Points[0])
	for _, q := range p.Points {
		e := math.Abs(dist(c, q) - d)
		if math.Abs(e-0.5) < 1e-3 {
			x.Prune()
		}
		if e > 0.5 {
			return false
		}
	}
	return true
}

// 5axes and default: cut where the next layer hangs over, turn, and back again
func planFails(x *X, ts, simp []tri, layers []Layer, sett slicers.Settings, level bool) (r []autoBlock) {
	cur := ts
	tilted, rz, rx := false, 0.0, 0.0
	for n := 0; ; n++ {
		var pl *Plane
		i := 1
		for ; i < len(layers) && pl == nil; i++ {
			pl = failPlane(x, layers[i-1], layers[i])
		}
		if pl == nil {
			return append(r, autoBlock{name: fmt.Sprintf("part %d, the rest", len(r)), ts: cur, top: math.Inf(1), rz: rz, rx: rx})
		}
		if n == autoMaxCuts {
			x.Prune() // endless?
		}
		if level {
			z := between(layers[i-2], layers[i-1])
			r = append(r, autoBlock{name: fmt.Sprintf("part %d, under %.3f", len(r), z), ts: cur, top: z, rz: rz, rx: rx})
			cur, _ = cutTris(x, cur, Plane{P: Point{0, 0, z}, N: AxisZ})
			if simp != nil {
				simp, _ = cutTris(x, simp, Plane{P: Point{0, 0, z}, N: AxisZ})
			}
		}
		up, down := cutTris(x, cur, *pl)
		r = append(r, autoBlock{name: fmt.Sprintf("part %d, behind the plane through %v with normal %v", len(r), rp(pl.P), rp(Point(pl.N))), ts: down, top: math.Inf(1), rz: rz, rx: rx})
		cur = up
		f := untiltBy(rz)
		if tilted {
			tilted, rz, rx = false, 0, 0
		} else {
			rz, rx = poseFor(pl.N), 60
			tilted = true
			f = tiltBy(rz)
		}
		cur = mapTris(cur, f)
		if simp != nil {
			simp, _ = cutTris(x, simp, *pl)
			simp = mapTris(simp, f)
			layers = slicers.SliceByVector(meshOf(simp), AxisZ, sett)
		} else {
			layers = slicers.SliceByVector(meshOf(cur), AxisZ, sett)
		}
	}
}

// failPlane: the plane by which the real detection wants to cut; inputs for which the order of the contours decides are left out
func failPlane(x *X, prev, cur Layer) (pl *Plane) {
	if len(prev.Paths) < 2 && len(cur.Paths) < 2 {
		pl := slicers.CalculateFails(prev, cur)
		failKnown(x, prev, cur, pl)
		return pl
	}
	for _, c := range cur.Paths {
		fails := 0
		for k := range prev.Paths {
			p := prev
			p.Paths = append(append([]Path{}, prev.Paths[k:]...), prev.Paths[:k]...)
			q := slicers.CalculateFails(p, Layer{Norm: cur.Norm, Paths: []Path{c}})
			if q == nil {
				continue
			}
			fails++
			if pl != nil && (dist(pl.P, q.P) > 1e-6 || vlen(vsub(Point(pl.N), Point(q.N))) > 1e-6) {
				x.Prune()
			}
			pl = q
		}
		if fails != 0 && fails != len(prev.Paths) {
			x.Prune()
		}
	}
	return pl
}

// failKnown: between two convex contours it is known whether a cut is needed, and where to
func failKnown(x *X, prev, cur Layer, pl *Plane) bool {
	if len(prev.Paths) != 1 || len(cur.Paths) != 1 || !convex(prev.Paths[0].Points) || !convex(cur.Paths[0].Points) {
		return false
	}
	P, C := prev.Paths[0], cur.Paths[0]
	c := loopCentroid(C.Points)
	h := C.Points[0].Z - P.Points[0].Z
	for _, q := range P.Points { // well inside
		if i := vsub(q, c); math.Hypot(i.X, i.Y) < 0.2 {
			return false
		}
	}
	cnt := 0
	sum := Vector{}
	worst := math.Inf(-1)
	for i := 0; i < 36; i++ {
		u := vecAt(float64(i) * 10)
		a, b := rayOut(c, u, P), rayOut(c, u, C)
		if math.IsNaN(a) || math.IsNaN(b) || a < 0.1 {
			return false
		}
		ang := math.Atan2(b-a, h) * 180 / math.Pi
		worst = math.Max(worst, ang)
		if near(ang, 40, 0.1) {
			return false
		}
		if ang > 40 {
			cnt++
			sum = Vector{sum.X + u.X, sum.Y + u.Y, 0}
		}
	}
	switch {
	case cnt == 0 && pl != nil:
		x.Fail("needless", "the model is cut at height %.3f by the plane %v %v, but nothing hangs over by more than %.2f degrees", C.Points[0].Z, rp(pl.P), rp(Point(pl.N)), worst)
	case cnt > 0 && pl == nil:
		x.Fail("uncut", "the model hangs over by %.2f degrees at height %.3f, but is not cut", worst, C.Points[0].Z)
	case cnt > 0 && cnt < 17 && vlen(sum) > 0.9*float64(cnt):
		if a := angleBetween(Vector{pl.N.X, pl.N.Y, 0}, sum); a > 25 {
			x.Fail("side", "the model hangs over to %.1f degrees at height %.3f, but is cut by a plane that leans to %.1f degrees", math.Atan2(sum.Y, sum.X)*180/math.Pi, C.Points[0].Z, math.Atan2(pl.N.Y, pl.N.X)*180/math.Pi)
		}
	}
	return true
}

func convex(ps []Point) bool { // closed path
	pos, neg := false, false
	n := len(ps) - 1
	for i := 0; i < n; i++ {
		a, b := vsub(ps[(i+1)%n], ps[i]), vsub(ps[(i+2)%n], ps[(i+1)%n])
		c := a.X*b.Y - a.Y*b.X
		pos, neg = pos || c > 1e-9, neg || c < -1e-9
	}
	return !(pos && neg) && n > 2
}

// hits: points where the vertical plane through c along u meets the contour, on the side of o where u goes
func hits(p Path, c Point, u Vector, o Point) (r []Point) {
	n := vunit(vcross(u, AxisZ))
	for i := 1; i < len(p.Points); i++ {
		a, b := vdot(vsub(p.Points[i-1], c), n), vdot(vsub(p.Points[i], c), n)
		if a == b || (a < 0) == (b < 0) {
			continue
		}
		q := lerp(p.Points[i-1], p.Points[i], a/(a-b))
		if vdot(vsub(q, o), u) > 0 {
			r = append(r, q)
		}
	}
	return
}

func planBridge(x *X, ts []tri, layers []Layer, sett slicers.Settings) (r []autoBlock) {
	type legPlane struct{ pl Plane }
	var cands []legPlane
	i := 1
	for ; i < len(layers); i++ {
		p, q := layerLoops(layers[i-1]), layerLoops(layers[i])
		if len(p) != 2 || len(q) != 2 {
			continue
		}
		c := [2]Point{loopCentroid(q[0].Points), loopCentroid(q[1].Points)}
		o := [2]Point{loopCentroid(p[0].Points), loopCentroid(p[1].Points)}
		if dist(o[0], c[0]) > dist(o[0], c[1]) {
			c[0], c[1], q[0], q[1] = c[1], c[0], q[1], q[0]
		}
		for k := 0; k < 2; k++ {
			u := vsub(c[1-k], c[k])
			h1, h0 := hits(q[k], c[k], u, c[k]), hits(p[k], c[k], u, loopCentroid(p[k].Points))
			if len(h1) != 1 || len(h0) != 1 {
				x.Prune() // several borders on the way
			}
			v := vsub(h1[0], h0[0])
			out := vdot(v, u) / vlen(u)
			a := math.Atan2(out, v.Z) * 180 / math.Pi
			if math.Abs(a-40) < 0.01 {
				x.Prune()
			}
			if a > 40 {
				nn := vunit(u)
				cands = append(cands, legPlane{Plane{P: h0[0], N: Vector{nn.X * math.Sin(math.Pi/3), nn.Y * math.Sin(math.Pi/3), 0.5}}})
			}
		}
		if len(cands) > 0 {
			break
		}
	}
	if len(cands) == 0 {
		return []autoBlock{{name: "all", ts: ts, top: math.Inf(1)}}
	}
	z := between(layers[i-1], layers[i])
	first := autoBlock{name: fmt.Sprintf("legs under %.3f", z), ts: ts, top: z}
	up, _ := cutTris(x, ts, Plane{P: Point{0, 0, z}, N: AxisZ})
	for _, c := range cands {
		rest, leg := cutTris(x, up, c.pl)
		rz := poseFor(c.pl.N)
		first.alt = append(first.alt, autoAlt{rz, []autoBlock{
			{name: "one leg", ts: leg, top: math.Inf(1)},
			{name: "the rest", ts: mapTris(rest, tiltBy(rz)), top: math.Inf(1), rz: rz, rx: 60}}})
	}
	return []autoBlock{first}
}

func planRotation(x *X, ts []tri, layers []Layer, sett slicers.Settings) []autoBlock {
	first := autoBlock{name: "level layers", ts: ts, top: math.Inf(1)}
	all := false
	for i := 1; i < len(layers) && !all; i++ {
		if len(layers[i-1].Paths) != 1 || len(layers[i].Paths) != 1 {
			x.Prune()
		}
		p, q := layers[i-1].Paths[0], layers[i].Paths[0]
		cp := loopCentroid(p.Points)
		some := false
		all = true
		for _, a := range p.Points {
			u := vsub(a, cp)
			h := hits(q, a, u, loopCentroid(q.Points))
			if len(h) != 1 {
				x.Prune()
			}
			v := vsub(h[0], a)
			out := vdot(v, u) / vlen(u)
			ang := math.Atan2(out, v.Z) * 180 / math.Pi
			if out > 0 && ang > 40-0.01 {
				some = true
			}
			if out <= 0 || ang < 40+0.01 || dist(cp, a) > dist(cp, h[0]) {
				all = false
			}
		}
		if !some {
			continue
		}
		z := between(layers[i-1], layers[i])
		up, _ := cutTris(x, ts, Plane{P: Point{0, 0, z}, N: AxisZ})
		first.alt = append(first.alt, autoAlt{z, []autoBlock{{name: fmt.Sprintf("the rest over %.3f, bed inclined", z), ts: up, top: math.Inf(1), rx: 60,
			back: func(p Point) Point { return rotPoint(p, Point{}, AxisX, 60) }}}})
	}
	if len(first.alt) > 0 && !all {
		first.alt = append(first.alt, autoAlt{math.Inf(1), nil})
	}
	return []autoBlock{first}
}

func autoRefs(x *X, b autoBlock, sett slicers.Settings, pls []printedLayer) []layerRef {
	if len(b.ts) == 0 {
		return nil
	}
	lo, hi := minmax(b.ts, AxisZ)
	if hi-lo < 1e-9 {
		return nil
	}
	var refs []layerRef
	for _, cnt := range layerCounts(hi-lo, sett.LayerHeight) {
		refs = refs[:0]
		for _, r := range expectedLayers(x, b.ts, AxisZ, cnt) {
			if r.d < b.top {
				refs = append(refs, r)
			}
		}
		if len(pls) > 0 && len(refs) > 0 && near(layerZ(pls[0]), refs[0].d, 1.5*gtol) {
			break
		}
	}
	// an empty layer at either end is not counted
	if len(refs) > 0 && segsLen(refs[0].chain) < 1e-9 {
		refs = refs[1:]
	}
	if n := len(refs); n > 0 && segsLen(refs[n-1].chain) < 1e-9 {
		refs = refs[:n-1]
	}
	return refs
}

// samePlan: is the plan the same for the model deformed a little
func samePlan(x *X, plan []autoBlock, ts, simp []tri, mode string, sett slicers.Settings, k int, e float64) bool {
	tol := math.Max(1, math.Abs(e)*1e8)
	deform := func(p Point) Point {
		return Point{p.X*(1+e) + e*p.Y, p.Y*(1-2*e) + e*p.Z, p.Z*(1+float64(k)*e) + e*p.X}
	}
	var simp2 []tri
	if simp != nil {
		simp2 = mapTris(simp, deform)
	}
	other := autoPlan(x, mapTris(ts, deform), simp2, mode, sett)
	if len(other) != len(plan) {
		return false
	}
	for i := range plan {
		a, b := plan[i], other[i]
		if math.Abs(math.Remainder(a.rz-b.rz, 360)) > 1e-4*tol || math.Abs(volume(a.ts, Point{})-volume(b.ts, Point{})) > 1e-3*tol || math.Abs(areaOf(a.ts)-areaOf(b.ts)) > 1e-2*tol || len(a.alt) != len(b.alt) {
			return false
		}
		if len(a.ts) > 0 && len(b.ts) > 0 {
			for _, ax := range []Vector{AxisX, AxisY, AxisZ} {
				l, h := minmax(a.ts, ax)
				l2, h2 := minmax(b.ts, ax)
				if math.Abs(l-l2) > 1e-5*tol || math.Abs(h-h2) > 1e-5*tol {
					return false // thin edges of the parts depend on rounding
				}
			}
		}
	}
	return true
}

func c27Check(x *X, ts []tri, mode string, sett slicers.Settings) {
	var simp []tri
	if mode == "5axes" && len(ts) > 2500 {
		m, err := helpers.SimplifyMesh(meshOf(ts), 2500)
		must(err)
		simp = trisOf(m)
	}
	plan := autoPlan(x, ts, simp, mode, sett)
	// decisions that rounding can turn are left out
	for k, e := range []float64{1e-9, -3e-9} {
		if !samePlan(x, plan, ts, simp, mode, sett, k, e) {
			x.Prune()
		}
	}
	// before something is reported, more deformations are tried
	whole := plan
	defer func() {
		r := recover()
		if r == nil {
			return
		}
		if _, ok := r.(failure); ok {
			for k, e := range []float64{1e-14, -1e-13, 1e-12, -1e-11, 1e-10, -1e-10, 1e-9, -1e-8, 3e-8, -1e-7, 1e-6} {
				if !samePlan(x, whole, ts, simp, mode, sett, k%3, e) {
					x.Prune()
				}
			}
			for k := 0; k < 4 && simp != nil; k++ { // the library breaks ties at random
				m, err := helpers.SimplifyMesh(meshOf(ts), 2500)
				must(err)
				if !samePlan(x, whole, ts, trisOf(m), mode, sett, 0, 0) {
					x.Prune()
				}
			}
		}
		panic(r)
	}()
	m := meshOf(ts)
	before := dumpTris(m.Triangles)
	x.Op(1)
	var gc gcode.Gcode
	if mode == "5axes" {
		gc = slicers.Slice5Axes(m, sett)
	} else {
		gc = vip.Slice(m, sett)
	}
	if a := dumpTris(m.Triangles); a != before {
		x.Fail("original", "the mesh is changed: %s", firstDiff(before, a))
	}
	mc := newMachine()
	if err := mc.run(render(&gc)); err != nil {
		x.Fail("gcode", "%v", err)
	}
	pr := mc.printed()
	at, total := 0, 0
	h := newHash()
	poseOf := func(l printedLayer) (rz, rx float64) {
		if mode == "5axes" {
			return l.g62[1], l.g62[0]
		}
		return l.t1, l.t2
	}
	for len(plan) > 0 {
		b := plan[0]
		plan = plan[1:]
		if len(b.alt) > 0 { // which way was taken
			var rz = math.NaN()
			n := 0
			for _, l := range pr[at:] {
				if a, t := poseOf(l); t != 0 {
					rz = a
					break
				}
				n++
			}
			var way *autoAlt
			for i := range b.alt {
				a := &b.alt[i]
				if len(a.rest) == 2 { // bridge: by the pose
					if math.Abs(math.Remainder(a.rz-rz, 360)) < 1e-3 {
						way = a
					}
					continue
				}
				c := b // rotation: by the number of level layers
				c.top = a.rz
				if len(autoRefs(x, c, sett, nil)) == n {
					way = a
					b.top = a.rz
				}
			}
			if way == nil {
				x.Fail("pose", "%s: the model hangs over, but the bed is turned to %g after %d layers", b.name, rz, n)
			}
			plan = way.rest
		}
		refs := autoRefs(x, b, sett, pr[at:])
		var own []printedLayer
		for at < len(pr) && len(own) < len(refs) {
			l := pr[at]
			rz, rx := poseOf(l)
			if math.Abs(math.Remainder(rz-b.rz, 360)) > 1e-3 || !near(rx, b.rx, 1e-3) {
				break
			}
			if b.back != nil {
				l = mapLayer(l, b.back)
			}
			if z := layerZ(l); z > refs[len(refs)-1].d+2*gtol || len(own) > 0 && z < layerZ(own[len(own)-1]) {
				break
			}
			own = append(own, l)
			at++
		}
		total += checkPrintedRefs(x, own, refs, sett, mode != "5axes", 0, fmt.Sprintf("%s (bed %.3f %.3f)", b.name, b.rz, b.rx))
		h.I(len(own))
	}
	if at != len(pr) {
		rz, rx := poseOf(pr[at])
		x.Fail("extra", "%d layers are printed, %d belong to the parts; next has bed angles %g %g at height %.3f", len(pr), at, rz, rx, layerZ(pr[at]))
	}
	if total == 0 {
		x.Trivial()
	}
	x.State(hashStr(x.desc))
	x.Outcome(h.I(total).Sum())
}

func mapLayer(l printedLayer, f func(Point) Point) printedLayer {
	for _, ss := range []*[]seg{&l.outer, &l.middle, &l.inner, &l.fill} {
		var r []seg
		for _, s := range *ss {
			r = append(r, seg{f(s.a), f(s.b)})
		}
		*ss = r
	}
	return l
}

func c27Settings(mode string, t float64, kind string) slicers.Settings {
	if mode == "5axes" {
		return profileSettings(t, 10)
	}
	sett := c13Settings(kind, 30, 0.5)
	sett.LayerHeight, sett.WallThickness, sett.TopLayers, sett.BottomLayers = t, 1.0, 1, 1
	g := *sett.GcodeSettings
	g.LayerHeight = t
	sett.GcodeSettings = &g
	return sett
}

func c27Towers(x *X) {
	mode := Pick(x, "5axes", "vip")
	n := 1 + x.Choose(3)
	nd := Tier(x, 8, 16)
	var dirs []int
	for i := 0; i < n; i++ {
		dirs = append(dirs, x.Choose(nd+1))
	}
	lean := Pick(x, 0.5, 1.3)
	sides := Pick(x, 4, 5, 16)
	th := Pick(x, 1.27, 0.71)
	if n == 3 && (th < 1 || !x.Thorough && (dirs[0]+3*dirs[1]+5*dirs[2]+sides)%8 != 0) {
		x.Prune()
	}
	kind := []string{"Lines", "Squares", "Triangles"}[(dirs[0]+n)%3]
	off := Pick(x, Point{2.3, -1.7, 0}, Point{61.7, -38.2, 0})
	if off.X > 3 && (n == 1 || th > 1 && n < 3 || sides == 16 && !x.Thorough) {
		x.Prune()
	}
	x.Begin(fmt.Sprintf("%s: tower of %d-gons at %v leaning %v by %g, layers %g %s", mode, sides, off, dirs, lean, th, kind))
	c := []Point{off}
	r := []float64{5}
	for i, d := range dirs {
		p := c[i]
		hgt := 6.1 + float64(i)*0.77
		q := Point{p.X, p.Y, p.Z + hgt}
		if d < nd {
			v := vecAt(float64(d)*360/float64(nd) + 3.1)
			q.X += v.X * lean * hgt
			q.Y += v.Y * lean * hgt
		}
		c = append(c, q)
		r = append(r, 5-0.5*float64(i+1))
	}
	c27Check(x, loft(sides, 0.13, r, c), mode, c27Settings(mode, th, kind))
}

// bodies of rotation with every profile
func c27Rotation(x *X) {
	n := 1 + x.Choose(3)
	r := []float64{6}
	var steps []int
	for i := 0; i < n; i++ {
		k := x.Choose(5)
		steps = append(steps, k)
		r = append(r, math.Max(1.5, r[i]+[]float64{0, 2.1, 7.3, -1.7, -3.9}[k]))
	}
	sides := Pick(x, 20, 14, 33, 12)
	mode := Pick(x, "vip", "5axes")
	th := Pick(x, 1.31, 0.67)
	place := x.Choose(2)
	dev := x.Choose(9)
	if dev > 0 && (place == 1 || sides == 12 || mode == "5axes" && !x.Thorough || n == 3 && !x.Thorough || dev > 6 && n == 2 && sides != 20 && !x.Thorough) {
		x.Prune()
	}
	x.Begin(fmt.Sprintf("%s: body of rotation %v with %d sides, layers %g, place %d, deviation %d", mode, steps, sides, th, place, dev))
	var c []Point
	for i := range r {
		c = append(c, Point{[]float64{0, 17}[place], []float64{0, -31}[place], float64(i) * 4.7})
	}
	if dev > 6 { // a rim that only the last layers meet
		r = append(r, r[n]+[]float64{7.3, 3.1}[dev-7])
		c = append(c, vadd(c[n], Vector{0, 0, 1.2 * th / 1.31}))
	}
	ts := loft(sides, 0.37, r, c)
	o := c[0]
	switch dev {
	case 1, 2, 3: // not quite round
		f := []float64{1.14, 0.86, 1.05}[dev-1]
		ts = mapTris(ts, func(p Point) Point { return Point{p.X, o.Y + (p.Y-o.Y)*f, p.Z} })
	case 4, 5, 6: // square on top, at the bottom, in the middle
		k := []int{n, 0, n / 2}[dev-4]
		ts = mapTris(ts, func(p Point) Point {
			if v := vsub(p, c[k]); math.Abs(v.Z) < 1e-6 && vlen(v) > 1e-6 {
				f := vlen(v) / math.Max(math.Abs(v.X), math.Abs(v.Y))
				return Point{c[k].X + v.X*f, c[k].Y + v.Y*f, p.Z}
			}
			return p
		})
	}
	c27Check(x, ts, mode, c27Settings(mode, th, []string{"Lines", "Squares", "Triangles"}[n%3]))
}

// towers of which little is left after the cut, also as high as the layers
func c27Stubs(x *X) {
	mode := Pick(x, "5axes", "vip")
	nd := Tier(x, 4, 12)
	dir := x.Choose(nd)
	lean := Pick(x, 1.3, 2.5, 4)
	top := Pick(x, 0.8, 1.5, 2.4, 3.3, 5.2)
	sides := Pick(x, 4, 6)
	th := Pick(x, 1.27, 0.71, 2.1, 3.9, 6)
	kind := []string{"Lines", "Squares", "Triangles"}[dir%3]
	ledge := x.Bool()
	off := Pick(x, Vector{}, Vector{-73.3, 48.9, 61})
	if off.Z > 0 && (sides == 6 || th > 3) && !x.Thorough {
		x.Prune()
	}
	x.Begin(fmt.Sprintf("%s: %d-gon moved by %v, its top %g high leans by %g to %d/%d, layers %g %s, ledge %v", mode, sides, off, top, lean, dir, nd, th, kind, ledge))
	v := vecAt(float64(dir)*360/float64(nd) + 3.1)
	c := []Point{{2.3, -1.7, 0}, {2.3, -1.7, 6.1}, {2.3 + v.X*lean*top, -1.7 + v.Y*lean*top, 6.1 + top}}
	r := []float64{5, 4.5, 4}
	if ledge {
		d := lean * 1.3
		c = []Point{{2.3, -1.7, 0}, {2.3, -1.7, th * 0.48}, {2.3 + v.X*d, -1.7 + v.Y*d, th*0.48 + 0.2}, {2.3 + v.X*d, -1.7 + v.Y*d, th*0.48 + 0.2 + top}}
		r = []float64{5, 4.9, 4.8, 4.7}
	}
	for i := range c {
		c[i] = vadd(c[i], off)
	}
	c27Check(x, loft(sides, 0.13, r, c), mode, c27Settings(mode, th, kind))
}

// bridges: two legs that lean, a deck
func c27Bridges(x *X) {
	nd := Tier(x, 8, 16)
	dir := x.Choose(nd)
	lean := [2]float64{}
	leans := []float64{0, 0.5, 1.4, -1.2, 3}
	la, lb := x.Choose(len(leans)), x.Choose(len(leans))
	lean[0], lean[1] = leans[la], leans[lb]
	side := Pick(x, 0.0, 0.6)
	thin := x.Bool()
	off := Pick(x, Point{3, 7, 0}, Point{41, -63, 2}, Point{-1, 2, 90})
	if off.Y != 7 && !x.Thorough && (la+2*lb+dir)%4 != 0 {
		x.Prune()
	}
	deck := x.Bool()
	th := Pick(x, 1.31, 0.67)
	mode := Pick(x, "vip", "5axes")
	x.Begin(fmt.Sprintf("%s: bridge along %d/%d, legs lean %v aside %g narrowing %v at %v deck %v layers %g", mode, dir, nd, lean, side, thin, off, deck, th))
	var ts []tri
	for k := 0; k < 2; k++ {
		s := float64(1 - 2*k)
		c := []Point{{-12 * s, 0, 0}, {-12 * s, 0.2, 3}, {-12*s + s*lean[k]*3, 0.2 + side*3, 6}}
		rr := []float64{3, 3, 3}
		if thin {
			rr = []float64{3, 1.5, 1.2}
		}
		ts = append(ts, loft([]int{4, 6}[k], 0.21+0.1*float64(k), rr, c)...)
	}
	if deck {
		ts = append(ts, box(-16, -4, 6.9, 17, 5, 9)...)
	}
	a := float64(dir)*360/float64(nd) + 4.3
	ts = mapTris(ts, func(p Point) Point { return vadd(rotPoint(p, Point{}, AxisZ, a), Vector(off)) })
	c27Check(x, ts, mode, c27Settings(mode, th, []string{"Lines", "Squares", "Triangles"}[dir%3]))
}

// several legs apart from each other, some of them lean
func c27Legs(x *X) {
	mode := Pick(x, "vip", "5axes")
	n := 3 + x.Choose(2)
	nd := Tier(x, 4, 8)
	who := x.Choose(n)
	dir := x.Choose(nd + 1)
	second := x.Choose(2) // another one leans higher up
	lean := Pick(x, 0.5, 1.3)
	order := x.Choose(2)
	th := Pick(x, 1.27, 0.71)
	if th < 1 && second == 1 && !x.Thorough {
		x.Prune()
	}
	x.Begin(fmt.Sprintf("%s: %d legs, leg %d leans to %d/%d by %g, another one %d, order %d, layers %g", mode, n, who, dir, nd, lean, second, order, th))
	var ts []tri
	for i := 0; i < n; i++ {
		a := vecAt(float64(i)*360/float64(n) + 11.3)
		b := Point{2.3 + 17*a.X, -1.7 + 17*a.Y, 0}
		c := []Point{b, {X: b.X, Y: b.Y, Z: 6.1}, {X: b.X, Y: b.Y, Z: 11.3}, {X: b.X, Y: b.Y, Z: 15.9}}
		if i == who && dir < nd {
			v := vecAt(float64(dir)*360/float64(nd) + 3.1)
			for k := 2; k < 4; k++ {
				c[k].X += v.X * lean * 5.2
				c[k].Y += v.Y * lean * 5.2
			}
		}
		if second == 1 && i == (who+1)%n {
			v := vecAt(-67.9)
			c[3].X += v.X * 4.6
			c[3].Y += v.Y * 4.6
		}
		leg := loft(6, 0.13, []float64{4, 3.8, 3.6, 3.4}, c)
		if order == 0 {
			ts = join(ts, leg)
		} else {
			ts = join(leg, ts)
		}
	}
	c27Check(x, ts, mode, c27Settings(mode, th, "Lines"))
}

// tube: a loft with a bore
func tube(n int, phase, wall float64, r []float64, c []Point) []tri {
	in := make([]float64, len(r))
	for i := range r {
		in[i] = r[i] - wall
	}
	at := func(r []float64, k, i int) Point {
		a := (float64(i%n) + phase) * 2 * math.Pi / float64(n)
		return Point{c[k].X + r[k]*math.Cos(a), c[k].Y + r[k]*math.Sin(a), c[k].Z}
	}
	var ts []tri
	l := len(r) - 1
	quad := func(a, b, c, d Point) { ts = append(ts, tri{a, b, c}, tri{a, c, d}) }
	for i := 0; i < n; i++ {
		for k := 0; k < l; k++ {
			quad(at(r, k, i), at(r, k, i+1), at(r, k+1, i+1), at(r, k+1, i))
			quad(at(in, k, i+1), at(in, k, i), at(in, k+1, i), at(in, k+1, i+1))
		}
		quad(at(r, 0, i+1), at(r, 0, i), at(in, 0, i), at(in, 0, i+1))
		quad(at(r, l, i), at(r, l, i+1), at(in, l, i+1), at(in, l, i))
	}
	return ts
}

// bodies with bores of few corners: a bore is no leg
func c27Bored(x *X) {
	mode := Pick(x, "vip", "5axes")
	n := Pick(x, 3, 4, 6, 9)
	two := x.Bool()
	wall := Pick(x, 1.1, 2.0)
	nd := Tier(x, 5, 12)
	dir := x.Choose(nd)
	lean := Pick(x, 0.0, 0.5, 1.3, -0.9)
	th := Pick(x, 1.27, 0.71)
	if th < 1 && n != 4 && !x.Thorough {
		x.Prune()
	}
	x.Begin(fmt.Sprintf("%s: bored %d-gons, walls of %g, two %v, leaning %g to %d/%d, layers %g", mode, n, wall, two, lean, dir, nd, th))
	a := float64(dir)*360/float64(nd) + 4.3
	var ts []tri
	for k := 0; k < 2; k++ {
		s := float64(1 - 2*k)
		if k == 1 && !two {
			break
		}
		v := lean
		if k == 1 {
			v = 0.3
		}
		c := []Point{{-12 * s, 0, 0}, {-12 * s, 0.2, 4.3}, {-12*s + s*v*4.4, 0.2, 8.7}}
		if !two { // and back
			c = append(c, Point{c[2].X, c[2].Y, 12.9})
		}
		r := []float64{5, 4.8, 4.6, 4.4}[:len(c)]
		ts = append(ts, tube(n, 0.13+0.1*float64(k), wall, r, c)...)
	}
	ts = mapTris(ts, func(p Point) Point { return vadd(rotPoint(p, Point{}, AxisZ, a), Vector{3, 7, 0}) })
	sett := c27Settings(mode, th, "Lines")
	sett.WallThickness = sett.GcodeSettings.LineWidth // sections with a bore end in tips, where walls inside are out of the domain of C15
	c27Check(x, ts, mode, sett)
}

// finely meshed towers with wavy walls: where to cut is decided on a simplified mesh, the mesh itself is printed
func c27Fine(x *X) {
	mode := Pick(x, "5axes", "vip")
	nd := Tier(x, 3, 8)
	dir := x.Choose(nd + 1)
	lean := Pick(x, 0.6, 1.4, 2.2)
	rings := Pick(x, 20, 36)
	back := x.Bool()
	th := Pick(x, 1.27, 2.3)
	if mode == "vip" && (rings == 20 || !x.Thorough && th < 2) || dir == nd && (lean > 1 || back) {
		x.Prune()
	}
	x.Begin(fmt.Sprintf("%s: wavy tower of %d rings leaning by %g to %d/%d and back %v, layers %g", mode, rings, lean, dir, nd, back, th))
	var r []float64
	var c []Point
	p := Point{2.3, -1.7, 0}
	v := vecAt(float64(dir)*360/float64(nd) + 3.1)
	for k := 0; k <= rings; k++ {
		t := float64(k) / float64(rings)
		r = append(r, 5-t+0.06*math.Sin(float64(k)*2.3))
		c = append(c, p)
		d := lean
		if t < 0.4 || back && t > 0.75 || dir == nd {
			d = 0
		}
		h := 20.3 / float64(rings)
		p = Point{p.X + v.X*d*h, p.Y + v.Y*d*h, p.Z + h}
	}
	ts := loft(40, 0.13, r, c)
	ts = mapTris(ts, func(p Point) Point { // wavy around, too, but not on the end faces
		if p.Z < 1e-6 || p.Z > 20.3-1e-6 {
			return p
		}
		return Point{p.X + 0.05*math.Sin(3*p.Y+p.Z), p.Y + 0.05*math.Cos(2*p.X), p.Z}
	})
	c27Check(x, ts, mode, c27Settings(mode, th, []string{"Lines", "Squares", "Triangles"}[dir%3]))
}

func c27Shapes(x *X) {
	s := shapeCache[x.Choose(len(shapeCache))]
	mode := Pick(x, "5axes", "vip")
	nt := Tier(x, 4, 12)
	turn := x.Choose(nt)
	th := Pick(x, 0.83, 1.61)
	if mode == "vip" && (s.name == "diag" || s.name == "checker") {
		x.Prune() // walls of contours that touch themselves
	}
	kind := []string{"Lines", "Squares", "Triangles"}[turn%3]
	far := x.Choose(Tier(x, 2, 3))
	x.Begin(fmt.Sprintf("%s: far %d %s turned %d/%d layers %g %s", mode, far, s.name, turn, nt, th, kind))
	ts := mapTris(scale(s.ts, 1.7), func(p Point) Point {
		p = rotPoint(p, Point{}, AxisZ, float64(turn)*360/float64(nt)+0.9)
		p = vadd(p, []Vector{{}, {-51, 77, 0}, {83, 91, 102}}[far])
		return vadd(p, Vector{float64(turn % 2 * 13), -4.4, float64(turn % 3)})
	})
	c27Check(x, ts, mode, c27Settings(mode, th, kind))
}

func init() {
	register(&Prop{ID: "C27", Level: "model_checking",
		Rule:   "every tower of 1 to 3 stretches leaning into every direction, every body of rotation of 1 to 3 stretches, every bridge with legs leaning by different amounts into every direction, every solid of the catalogue x turn; both modes: the printed parts are compared, pose by pose, with the parts the model must be cut into",
		Assume: []string{"decisions about overhangs do not change when the model is deformed by 1e-9"},
		Models: []Model{{Name: "towers", Run: c27Towers}, {Name: "stubs", Run: c27Stubs}, {Name: "rotation", Run: c27Rotation}, {Name: "bridges", Run: c27Bridges}, {Name: "legs", Run: c27Legs}, {Name: "bored", Run: c27Bored}, {Name: "shapes", Run: c27Shapes}, {Name: "fine", Run: c27Fine}}})
}
