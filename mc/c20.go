//go:build go1.22

package main

import (
	"fmt"
	"math"

	. "github.com/l1va/goosli/primitives"
	"github.com/l1va/goosli/slicers"
)

// C20: supports.

// satGap: the widest gap between two triangles along a separating axis; <= 0 when they meet
func satGap(a, b tri) float64 {
	var axes []Vector
	na, nb := a.normal(), b.normal()
	axes = append(axes, na, nb)
	for i := range a {
		ea := vsub(a[(i+1)%3], a[i])
		axes = append(axes, vcross(na, ea))
		for j := range b {
			eb := vsub(b[(j+1)%3], b[j])
			axes = append(axes, vcross(ea, eb))
			if i == 0 {
				axes = append(axes, vcross(nb, eb))
			}
		}
	}
	best := math.Inf(-1)
	for _, u := range axes {
		if vlen(u) < 1e-9 {
			continue
		}
		u = vunit(u)
		la, ha := minmax([]tri{a}, u)
		lb, hb := minmax([]tri{b}, u)
		best = math.Max(best, math.Max(lb-ha, la-hb))
	}
	return best
}

// triCross: the segment two triangles share when each goes through the plane of the other by more than eps
func triCross(a, b tri, eps float64) (s seg, ok bool) {
	cut := func(t, u tri) (p []Point, ok bool) { // of t with the plane of u
		n := vunit(u.normal())
		var d [3]float64
		up, down := false, false
		for i, q := range t {
			d[i] = vdot(vsub(q, u[0]), n)
			up = up || d[i] > eps
			down = down || d[i] < -eps
		}
		if !up || !down {
			return nil, false
		}
		for i := range t {
			j := (i + 1) % 3
			if d[i] == 0 {
				p = append(p, t[i])
			} else if d[i]*d[j] < 0 {
				p = append(p, lerp(t[i], t[j], d[i]/(d[i]-d[j])))
			}
		}
		return p, len(p) == 2
	}
	if vlen(a.normal()) < 1e-9 || vlen(b.normal()) < 1e-9 {
		return s, false
	}
	pa, ok1 := cut(a, b)
	pb, ok2 := cut(b, a)
	if !ok1 || !ok2 {
		return s, false
	}
	u := vcross(a.normal(), b.normal())
	if vlen(u) < 1e-9 {
		return s, false
	}
	u = vunit(u)
	if pdot(pa[0], u) > pdot(pa[1], u) {
		pa[0], pa[1] = pa[1], pa[0]
	}
	if pdot(pb[0], u) > pdot(pb[1], u) {
		pb[0], pb[1] = pb[1], pb[0]
	}
	s = seg{pa[0], pa[1]}
	if pdot(pb[0], u) > pdot(s.a, u) {
		s.a = pb[0]
	}
	if pdot(pb[1], u) < pdot(s.b, u) {
		s.b = pb[1]
	}
	return s, pdot(s.b, u)-pdot(s.a, u) > eps
}

func ptTriDist(p Point, t tri) float64 {
	n := vunit(t.normal())
	in := true
	for i := range t {
		if vdot(vcross(vsub(t[(i+1)%3], t[i]), vsub(p, t[i])), n) < 0 {
			in = false
		}
	}
	d := math.Inf(1)
	if in {
		d = math.Abs(vdot(vsub(p, t[0]), n))
	}
	for i := range t {
		d = math.Min(d, ptSegDist(p, t[i], t[(i+1)%3]))
	}
	return d
}

// boxesApart: the bounding boxes are farther than d from each other
func boxesApart(a, b tri, d float64) bool {
	ap := func(a0, a1, a2, b0, b1, b2 float64) bool {
		return math.Min(a0, math.Min(a1, a2)) > math.Max(b0, math.Max(b1, b2))+d || math.Min(b0, math.Min(b1, b2)) > math.Max(a0, math.Max(a1, a2))+d
	}
	return ap(a[0].X, a[1].X, a[2].X, b[0].X, b[1].X, b[2].X) || ap(a[0].Y, a[1].Y, a[2].Y, b[0].Y, b[1].Y, b[2].Y) || ap(a[0].Z, a[1].Z, a[2].Z, b[0].Z, b[1].Z, b[2].Z)
}

// strips: the walls that stand under the rims of overhangs; must: all of them clear of the model,
// may: those that touch it
func expectedStrips(x *X, ts []tri, sett slicers.Settings, up Vector) (must, may []tri, rims int) {
	vn := vunit(sett.UnitVector)
	lo, _ := minmax(ts, up)
	ids := newClusters(1e-7)
	type edge struct {
		a, b Point
		n    int
	}
	var es []edge
	index := map[[2]int]int{}
	for _, t := range ts {
		a := angleBetween(t.normal(), vmul(vn, -1))
		if math.Abs(a-(90-sett.ColorizedAngle)) < 1e-3 {
			x.Prune()
		}
		if a > 90-sett.ColorizedAngle {
			continue
		}
		for i := range t {
			p, q := t[i], t[(i+1)%3]
			k := [2]int{ids.add(p), ids.add(q)}
			if k[0] > k[1] {
				k[0], k[1] = k[1], k[0]
			}
			if j, ok := index[k]; ok {
				es[j].n++
			} else {
				index[k] = len(es)
				es = append(es, edge{p, q, 1})
			}
		}
	}
	for _, e := range es {
		if e.n > 1 {
			continue
		}
		rims++
		a, b := vadd(e.a, vmul(vn, -sett.SupportOffset)), vadd(e.b, vmul(vn, -sett.SupportOffset))
		fa, fb := vadd(a, vmul(up, lo-pdot(a, up))), vadd(b, vmul(up, lo-pdot(b, up)))
		// a wall that meets nothing stands as a whole; of others a half may, in either of the two ways to split them
		var free []tri
		all := true
		if pdot(a, up) < lo+1e-6 != (pdot(b, up) < lo+1e-6) { // partly below the bed: the wall crosses itself
			all = false
		}
		down := Vector{} // a wall without offset touches the model at the rim: it is clear of it when this is all
		if sett.SupportOffset == 0 {
			down = vmul(up, -0.02)
		}
		for _, s := range []tri{{fa, a, b}, {fa, fb, b}, {fb, a, b}, {fa, fb, a}} {
			if vlen(s.normal()) < 1e-6 {
				continue
			}
			hit := false
			for _, t := range ts {
				if boxesApart(s, t, 0.05) {
					continue
				}
				low := mapTris([]tri{s}, func(p Point) Point {
					if p == fa || p == fb {
						return p
					}
					return vadd(p, down)
				})[0]
				all = all && satGap(low, t) >= 1e-4
				if !hit {
					if _, ok := triCross(s, t, 1e-3); ok && ptTriDist(s[0], t) > 1e-3 && ptTriDist(s[1], t) > 1e-3 && ptTriDist(s[2], t) > 1e-3 {
						hit = true
					}
				}
			}
			if !hit {
				free = append(free, s)
			}
		}
		if all {
			for _, s := range []tri{{fa, a, b}, {fa, fb, b}} {
				if vlen(s.normal()) >= 1e-6 {
					must = append(must, s)
				}
			}
		} else {
			may = append(may, free...)
		}
	}
	return must, may, rims
}

func c20Check(x *X, ts []tri, sett slicers.Settings, up Vector) {
	must, may, rims := expectedStrips(x, ts, sett, up)
	m := meshOf(ts)
	before := dumpTris(m.Triangles)
	x.Op(1)
	layers := slicers.SliceByVector(m, up, sett)
	if a := dumpTris(m.Triangles); a != before {
		x.Fail("original", "the mesh is changed: %s", firstDiff(before, a))
	}
	lo, hi := minmax(ts, up)
	cnts := layerCounts(hi-lo, sett.LayerHeight)
	if len(cnts) > 1 {
		x.Prune()
	}
	refs := expectedLayers(x, ts, up, cnts[0])
	for _, l := range join(must, may, ts) {
		for _, p := range l {
			for _, r := range refs {
				if math.Abs(pdot(p, up)-r.d) < 1e-4 {
					x.Prune()
				}
			}
		}
	}
	li := 0
	total := 0
	h := newHash()
	for ri, r := range refs {
		model := netChain(r.chain, 1e-6)
		sm, sq := sectionChain(must, up, r.d, 1), sectionChain(may, up, r.d, 1)
		if li < len(layers) && len(layers[li].Paths) > 0 && !near(pdot(layers[li].Paths[0].Points[0], up), r.d, 1e-5) {
			if len(model)+len(sm) > 0 {
				x.Fail("layer", "layer %d of %d at %g is missing", ri, len(refs), r.d)
			}
			continue
		}
		if li >= len(layers) {
			if len(model)+len(sm) > 0 {
				x.Fail("layer", "layer %d of %d at %g is missing", ri, len(refs), r.d)
			}
			continue
		}
		got := pathSegs(layers[li].Paths)
		li++
		ids := newClusters(1e-5)
		for _, l := range [][]seg{model, sm, sq, got} {
			for _, s := range l {
				if !finite(s.a) || !finite(s.b) {
					x.Fail("number", "layer %d at %g: %v", ri, r.d, s)
				}
				ids.add(s.a)
				ids.add(s.b)
			}
		}
		type cnt struct{ net, mod, got, sm, sq int }
		net := map[[2]int]*cnt{}
		put := func(l []seg, f func(c *cnt, d int)) {
			for _, s := range l {
				for _, e := range ids.split(s) {
					d := 1
					if e[0] > e[1] {
						e[0], e[1], d = e[1], e[0], -1
					}
					if net[e] == nil {
						net[e] = &cnt{}
					}
					f(net[e], d)
				}
			}
		}
		put(got, func(c *cnt, d int) { c.got++; c.net += d })
		put(model, func(c *cnt, d int) { c.mod += d })
		put(sm, func(c *cnt, d int) { c.sm++ })
		put(sq, func(c *cnt, d int) { c.sq++ })
		for e, c := range net {
			a, b := ids.pts[e[0]], ids.pts[e[1]]
			if dist(a, b) < 1e-3 {
				continue
			}
			w := fmt.Sprintf("layer %d of %d at %g, %v-%v", ri, len(refs), r.d, rp(a), rp(b))
			switch {
			case c.sm+c.sq == 0 && (c.net != c.mod || c.got != abs(c.mod)):
				if c.mod == 0 {
					x.Fail("invented", "%s belongs neither to the model nor to a support", w)
				}
				x.Fail("model", "%s: the contour of the model is printed %d times, direction %d, must be %d", w, c.got, c.net, c.mod)
			case c.got > abs(c.mod)+c.sm+c.sq:
				x.Fail("invented", "%s is printed %d times, model %d, supports %d to %d", w, c.got, c.mod, c.sm, c.sm+c.sq)
			case c.sm+abs(c.mod) > 1: // walls over each other may be merged
				if c.got == 0 {
					x.Fail("missing", "%s: a support is missing", w)
				}
			case c.got < c.sm+abs(c.mod):
				x.Fail("missing", "%s: a support is missing", w)
			}
			total += c.sm
			h.I(c.got)
		}
	}
	if li < len(layers) {
		x.Fail("layer", "%d layers, %d expected", len(layers), len(refs))
	}
	if total == 0 {
		x.Trivial()
	}
	x.State(hashStr(x.desc))
	x.Outcome(h.I(rims).I(len(must)).I(total).Sum())
}

// shelves: bodies with overhangs and obstacles under them
func c20Shapes() []solid {
	l := append([]solid{}, shapeCache...)
	u := Vector{4, 4, 4}
	o := Point{}
	obstacle := func(t []tri, x0, y0, z0, x1, y1, z1 float64) []tri { return join(t, box(x0, y0, z0, x1, y1, z1)) }
	T := shapeNamed("T")
	l = append(l,
		solid{"T over block", obstacle(T, 0.7, 0.9, 0, 2.6, 2.8, 3)},
		solid{"T beside block", obstacle(T, 20, 2.1, 0, 24, 6, 10)},
		solid{"T over wide block", obstacle(T, -3, -3, 0, 3.1, 7, 2.2)},
		solid{"T through frame", obstacle(T, -3, 1.1, 0, 3.1, 2.3, 3)},
		solid{"table", cells([][]string{{"#..#", "....", "#..#"}, {"####", "####", "####"}}, o, u)},
		solid{"shelf", cells([][]string{{"#...", "#..."}, {"###.", "#..."}, {"####", "####"}}, o, Vector{3, 5, 4})},
		solid{"bridge over pyramid", join(shapeNamed("arch"), prism(ngon(4, 1.3, 0.1), 0, 5, func(p Point) Point { return Point{p.X*0.2 + 6, p.Y*0.2 + 2, 0} }))},
		solid{"leaning over cone", join(shapeNamed("shear+x"), shift(scale(shapeNamed("cone"), 0.5), 17, 0, 0))},
	)
	return l
}

var c20Cache []solid

func c20Solids(x *X) {
	if c20Cache == nil {
		c20Cache = c20Shapes()
	}
	s := c20Cache[x.Choose(len(c20Cache))]
	angle := Pick(x, 30.0, 10, 55, 72)
	off := Pick(x, 1.0, 0.3, 2.2, 0, -0.4, 6.1)
	th := Pick(x, 0.913, 1.77)
	turn := x.Choose(Tier(x, 4, 8))
	if !x.Thorough && (th > 1 || off <= 0 || off > 3) && turn > 1 {
		x.Prune()
	}
	x.Begin(fmt.Sprintf("%s angle %g offset %g layers %g turn %d", s.name, angle, off, th, turn))
	ts := mapTris(s.ts, func(p Point) Point {
		p = rotPoint(p, Point{1, 2, 0}, AxisZ, []float64{0, 33, 90, 201, 45, 120, 257, 330}[turn])
		return vadd(p, Vector{0.37, -0.21, []float64{0, 0, 5, -3}[turn%4]})
	})
	sett := settingsT(th)
	sett.SupportsOn, sett.ColorizedAngle, sett.SupportOffset = true, angle, off
	c20Check(x, ts, sett, AxisZ)
}

// many overhangs at once
func c20Many(x *X) {
	n := Pick(x, 3, 6)
	sides := Pick(x, 5, 9, 16)
	low := Pick(x, 0, 1, 2)
	off := Pick(x, 1.0, 0.3)
	if n == 6 && sides == 16 && (!x.Thorough || low == 0) {
		x.Prune()
	}
	x.Begin(fmt.Sprintf("%dx%d mushrooms of %d sides, blocks under them %d, offset %g", n, n, sides, low, off))
	var ts []tri
	for i := 0; i < n*n; i++ {
		o := Point{float64(i%n) * 7.13, float64(i/n) * 7.07, 0}
		at := func(z float64) Point { return vadd(o, Vector{0, 0, z}) }
		h := 6 + 0.37*float64(i%5)
		ts = append(ts, loft(sides, 0.17+float64(i)/5, []float64{1, 1.1, 3 - 0.01*float64(i), 2}, []Point{at(0), at(h), at(h + 0.9), at(h + 3)})...)
		if low > 0 && (i%4 == 1 || i == n*n-1) {
			z := -0.3
			if low == 2 {
				z = 0.4
			}
			ts = append(ts, box(o.X+1.7, o.Y-0.8, z, o.X+2.6, o.Y+0.9, 2.1)...)
		}
	}
	sett := settingsT(1.613)
	sett.SupportsOn, sett.ColorizedAngle, sett.SupportOffset = true, 30, off
	c20Check(x, ts, sett, AxisZ)
}

// other directions of printing and of overhangs
func c20Directions(x *X) {
	if c20Cache == nil {
		c20Cache = c20Shapes()
	}
	s := c20Cache[x.Choose(len(c20Cache))]
	ds := []Vector{{1, 0, 0}, {0, -1, 0}, {0, 0, -1}, {1, 2, 2}, {-2, 1, 2}, {0, 0.6, 0.8}}
	d := x.Choose(len(ds))
	other := x.Choose(Tier(x, 2, 4))
	x.Begin(fmt.Sprintf("%s along %v, overhangs %d", s.name, ds[d], other))
	up := vunit(ds[d])
	sett := settingsT(1.313)
	sett.SupportsOn, sett.SupportOffset = true, 0.7
	sett.UnitVector = vmul(up, []float64{1, 1, 2.5, 0.4, 1, 1}[d])
	if other > 0 {
		sett.UnitVector = vunit(ds[(d+other)%len(ds)])
	}
	c20Check(x, s.ts, sett, up)
}

// pairs of triangles: what they share
func c20Pairs(x *X) {
	b := tri{{0, 0, 0}, {4, 0, 0}, {0, 4, 0}}
	fr := x.Choose(5)
	g := Tier(x, 3, 4)
	pt := func() Point {
		k := x.Choose(g * g * 3)
		return Point{float64(k%g)*2.1 - 1.03, float64(k/g%g)*1.9 - 0.87, float64(k/(g*g))*1.7 - 1.69}
	}
	a := tri{pt(), pt(), pt()}
	if vlen(a.normal()) < 1e-6 {
		x.Prune()
	}
	turn := func(t tri) tri {
		return mapTris([]tri{t}, func(p Point) Point {
			switch fr {
			case 1:
				return Point{p.Z, p.X, p.Y}
			case 2:
				return Point{p.Y, p.Z, p.X}
			case 3:
				return rotPoint(rotPoint(p, Point{}, AxisX, 90), Point{}, AxisZ, 40)
			case 4:
				return vadd(rotPoint(p, Point{}, Vector{1, 2, 2}, 70), Vector{5, -3, 1})
			}
			return p
		})[0]
	}
	x.Begin(fmt.Sprintf("triangle %v frame %d", a, fr))
	ta, tb := turn(a), turn(b)
	t1, t2 := NewTriangle(tb[0], tb[1], tb[2]), NewTriangle(ta[0], ta[1], ta[2])
	x.Op(2)
	h := newHash()
	for k, p := range [][2]*Triangle{{&t1, &t2}, {&t2, &t1}} {
		l := p[0].IntersectTriangle(p[1])
		s, ok := triCross(ta, tb, 1e-4)
		switch {
		case ok && l == nil:
			x.Fail("cross", "order %d: %v and %v share %v-%v, nothing is found", k, tb, ta, rp(s.a), rp(s.b))
		case ok:
			if !(dist(l.P1, s.a)+dist(l.P2, s.b) < 1e-5 || dist(l.P1, s.b)+dist(l.P2, s.a) < 1e-5) {
				x.Fail("cross", "order %d: %v and %v share %v-%v, found is %v-%v", k, tb, ta, rp(s.a), rp(s.b), rp(l.P1), rp(l.P2))
			}
			h.F(math.Round(dist(l.P1, l.P2) * 1e4))
		case satGap(ta, tb) > 1e-5 && l != nil:
			x.Fail("apart", "order %d: %v and %v are apart, found is %v-%v", k, tb, ta, rp(l.P1), rp(l.P2))
		}
	}
	for _, p := range ta {
		d := ptTriDist(p, tb)
		if got := t1.PointBelongs(p); got != (d < 1e-9) && (d < 1e-9 || d > 1e-4) {
			x.Fail("belongs", "%v in %v: %v, distance is %g", rp(p), tb, got, d)
		}
	}
	for i, w := range [][3]float64{{1, 0, 0}, {0.5, 0.5, 0}, {0.3, 0, 0.7}, {0.6, 0, 0.4}, {0.2, 0.3, 0.5}, {0, 0.4, 0.6}, {0, 0, 1}, {1.2, -0.2, 0}, {-0.1, 0.5, 0.6}, {0.5, 0.7, -0.2}} {
		p := Point{}
		for j, q := range ta {
			p = vadd(p, vmul(Vector(q), w[j]))
		}
		if got := t2.PointBelongs(p); got != (i < 7) && (i < 7 || i >= 7 && ptTriDist(p, ta) > 1e-4) {
			x.Fail("belongs", "%v in %v: %v", rp(p), ta, got)
		}
	}
	x.State(hashStr(x.desc))
	x.Outcome(h.Sum())
}

func init() {
	register(&Prop{ID: "C20", Level: "model_checking",
		Rule:   "every solid of the catalogue and of a list of obstacles x overhang angle x offset x layer height x turn and direction; every triangle of a grid against a fixed one in 5 frames",
		Assume: []string{"supports that only touch the model may be printed or not", "layers miss the vertices"},
		Models: []Model{{Name: "solids", Run: c20Solids}, {Name: "many", Run: c20Many}, {Name: "directions", Run: c20Directions}, {Name: "pairs", Run: c20Pairs}}})
}
