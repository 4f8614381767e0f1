//go:build go1.22

package main

import (
	"fmt"
	"math"

	"github.com/l1va/goosli/helpers"
	. "github.com/l1va/goosli/primitives"
)

// netChain: what is left of the segments after opposite ones cancel.
func netChain(ss []seg, tol float64) []seg {
	ids := newClusters(tol)
	for _, s := range ss {
		ids.add(s.a)
		ids.add(s.b)
	}
	net := map[[2]int]int{}
	var order [][2]int
	for _, s := range ss {
		for _, e := range ids.split(s) {
			k := 1
			if e[0] > e[1] {
				e, k = [2]int{e[1], e[0]}, -1
			}
			if _, ok := net[e]; !ok {
				order = append(order, e)
			}
			net[e] += k
		}
	}
	var r []seg
	for _, e := range order {
		c := net[e]
		for ; c > 0; c-- {
			r = append(r, seg{ids.pts[e[0]], ids.pts[e[1]]})
		}
		for ; c < 0; c++ {
			r = append(r, seg{ids.pts[e[1]], ids.pts[e[0]]})
		}
	}
	return r
}

func boundaryOf(ts []tri, tol float64) []seg {
	var ss []seg
	for _, t := range ts {
		ss = append(ss, seg{t[0], t[1]}, seg{t[1], t[2]}, seg{t[2], t[0]})
	}
	return netChain(ss, tol)
}

// clippedVolume: volume of the closed mesh on the positive side of the plane.
func clippedVolume(ts []tri, n Vector, d float64) float64 {
	apex := vadd(Point{}, vmul(n, d))
	v := 0.0
	for _, t := range ts {
		var poly []Point
		for i := 0; i < 3; i++ {
			a, b := t[i], t[(i+1)%3]
			sa, sb := pdot(a, n)-d, pdot(b, n)-d
			if sa >= 0 {
				poly = append(poly, a)
			}
			if (sa >= 0) != (sb >= 0) {
				poly = append(poly, lerp(a, b, sa/(sa-sb)))
			}
		}
		for i := 1; i+1 < len(poly); i++ {
			v += vdot(vsub(poly[0], apex), vcross(vsub(poly[i], apex), vsub(poly[i+1], apex))) / 6
		}
	}
	return v
}

// touching: some contours of the chain have a common point.
func touching(ss []seg, tol float64) bool {
	net := netChain(ss, tol)
	if segsLen(net) < segsLen(ss)-1e-3 { // along a line
		return true
	}
	ids := newClusters(tol)
	out := map[int]int{}
	for _, s := range net {
		i := ids.add(s.a)
		ids.add(s.b)
		if out[i]++; out[i] > 1 {
			return true
		}
	}
	for _, s := range net {
		if len(ids.split(s)) != 1 {
			return true
		}
	}
	return false
}

type cutPlane struct {
	p     Plane
	n     Vector // unit
	d     float64
	noise float64 // how far vertices that are meant to be on the plane may be from it
}

func mkCut(n Vector, d float64) cutPlane {
	u := vunit(n)
	off := vadd(Point{}, vmul(u, d))
	// the point of the plane is not the foot of the origin
	e := vcross(u, Vector{0.3, -0.5, 0.8})
	return cutPlane{p: Plane{P: vadd(off, vmul(e, 3)), N: n}, n: u, d: d}
}

// checkCut compares one cut of the closed chain ts with the reference.
func checkCut(x *X, ts, up, down []tri, c cutPlane, caps int, what string) {
	size := 1.0
	for _, t := range ts {
		for _, p := range t {
			size = math.Max(size, math.Max(math.Abs(p.X), math.Max(math.Abs(p.Y), math.Abs(p.Z))))
		}
	}
	tol := 1e-7*math.Max(10, size) + 2*c.noise
	for i, part := range [][]tri{up, down} {
		name := []string{"part in front", "part behind"}[i]
		sgn := []float64{1, -1}[i]
		for _, t := range part {
			for _, p := range t {
				if !finite(p) {
					x.Fail("side", "%s: %s has a non-finite vertex", what, name)
				}
				if s := sgn * (pdot(p, c.n) - c.d); s < -tol {
					x.Fail("side", "%s: %s reaches %.6g beyond the plane at %v", what, name, -s, rp(p))
				}
			}
		}
		left := boundaryOf(part, 2e-5)
		for _, s := range left {
			for _, p := range []Point{s.a, s.b} {
				if math.Abs(pdot(p, c.n)-c.d) > 1e-4 {
					x.Fail("closed", "%s: %s is not closed, edge %v-%v", what, name, rp(s.a), rp(s.b))
				}
			}
		}
		if len(left) > 0 {
			if a := symDiffArea(left, nil, c.n); a > 2e-6*float64(len(ts))+1e-7*segsLen(left) {
				x.Fail("closed", "%s: %s is not closed, %d open edges in the plane around an area of %.6g (first %v-%v)", what, name, len(left), a, rp(left[0].a), rp(left[0].b))
			}
		}
	}
	apex := vadd(Point{}, vmul(c.n, c.d))
	vu, vd, vm := volume(up, apex), volume(down, apex), volume(ts, apex)
	wu := clippedVolume(ts, c.n, c.d)
	vt := 1e-5 * (1 + math.Abs(vm))
	if !near(vu, wu, vt) || !near(vd, vm-wu, vt) {
		x.Fail("volume", "%s: volumes %.6g in front and %.6g behind, must be %.6g and %.6g", what, vu, vd, wu, vm-wu)
	}
	// the caps do not overlap themselves: their area is the area of the section
	section := sectionChain(ts, c.n, c.d, 1)
	for i, part := range [][]tri{up, down} {
		if caps < 0 || touching(section, 1e-4) {
			break // how the contours go on from the common point is not determined
		}
		capArea, onPlane := 0.0, false
		for _, t := range part {
			in := true
			for _, p := range t {
				in = in && math.Abs(pdot(p, c.n)-c.d) < tol
			}
			if in {
				capArea += vlen(t.normal()) / 2
			}
		}
		for _, t := range ts {
			in := true
			for _, p := range t {
				in = in && math.Abs(pdot(p, c.n)-c.d) < 100*tol
			}
			onPlane = onPlane || in
		}
		if want := symDiffArea(section, nil, c.n); !onPlane && math.Abs(capArea-want) > (1e-5+20*c.noise)*(1+want) {
			x.Fail("cap", "%s: the caps of the part %s have an area of %.6g, the section %.6g", what, []string{"in front", "behind"}[i], capArea, want)
		}
	}
	for k, n := range []Vector{{0, 0, 1}, {0.9, 0.3, 0.1}, {-0.2, 0.7, 0.35}} {
		n = vunit(n)
		lo, hi := minmax(ts, n)
		d := lo + (hi-lo)*[]float64{0.4813, 0.3571, 0.6127}[k]
		cond := true
		for _, part := range [][]tri{ts, up, down} {
			for _, t := range part {
				for _, p := range t {
					if math.Abs(pdot(p, n)-d) < 1e-5 {
						cond = false
					}
				}
			}
		}
		if !cond {
			continue
		}
		got := append(sectionChain(up, n, d, 1), sectionChain(down, n, d, 1)...)
		want := sectionChain(ts, n, d, 1)
		if s := sameSection(got, want, n); s != "" {
			x.Fail("union", "%s: the parts together are not the body, section %d at %.6g: %s", what, k, d, s)
		}
	}
}

var cutNormals = []Vector{{0, 0, 1}, {0, 0, -1}, {1, 0, 0}, {0, 1, 0}, {0, -0.6, 0.8}, {1, 1, 1}, {0, 5, 5}, {-0.3, 0.2, 0.9}, {0.05, -1, 0.3}}

func doCut(x *X, m *Mesh, c cutPlane) ([]tri, []tri, *Mesh, *Mesh) {
	before := fmt.Sprint(m.Triangles)
	u, d, err := helpers.CutMesh(m, c.p)
	x.Op(1)
	if err != nil || u == nil || d == nil {
		x.Fail("error", "cut fails: %v", err)
	}
	if fmt.Sprint(m.Triangles) != before {
		x.Fail("input", "cutting changes the input mesh")
	}
	return trisOf(u), trisOf(d), u, d
}

func hashTris(ts []tri) uint64 {
	h := newHash().I(len(ts))
	for _, t := range ts {
		for _, p := range t {
			h.F(p.X).F(p.Y).F(p.Z)
		}
	}
	return h.Sum()
}

func c05Shapes(x *X) {
	s := shapeCache[x.Choose(len(shapeCache))]
	f := xforms[x.Choose(len(xforms))]
	n := cutNormals[x.Choose(len(cutNormals))]
	fr := x.Choose(Tier(x, 5, 9))
	x.Begin(fmt.Sprintf("shape %s placed %s cut by normal %v, offset %d", s.name, f.name, n, fr))
	ts := mapTris(s.ts, f.f)
	lo, hi := minmax(ts, vunit(n))
	c := mkCut(n, lo+(hi-lo)*[]float64{0.5013, 0.1271, 0.9177, 0.3333, 0.7501, 0.25031, 0.6123, 0.0213, 0.98711}[fr])
	for _, t := range ts {
		for _, p := range t {
			if math.Abs(pdot(p, c.n)-c.d) < 1e-6*(hi-lo) {
				x.Prune()
			}
		}
	}
	up, down, _, _ := doCut(x, meshOf(ts), c)
	x.State(newHash().S(s.name).S(f.name).F(n.X).F(n.Y).F(n.Z).I(fr).Sum())
	x.Outcome(hashTris(up))
	checkCut(x, ts, up, down, c, 0, "cut")
}

// the length of the normal of the plane does not matter
func c05Lengths(x *X) {
	s := shapeCache[x.Choose(len(shapeCache))]
	f := xforms[Pick(x, 0, len(xforms)-2)]
	n := cutNormals[x.Choose(len(cutNormals))]
	k := Pick(x, 1e-4, 0.01, 0.3, 40, 5000)
	fr := x.Choose(Tier(x, 1, 2))
	x.Begin(fmt.Sprintf("shape %s placed %s cut by normal %v times %g, offset %d", s.name, f.name, n, k, fr))
	ts := mapTris(s.ts, f.f)
	lo, hi := minmax(ts, vunit(n))
	c := mkCut(vmul(n, k), lo+(hi-lo)*[]float64{0.5013, 0.1271}[fr])
	for _, t := range ts {
		for _, p := range t {
			if math.Abs(pdot(p, c.n)-c.d) < 1e-6*(hi-lo) {
				x.Prune()
			}
		}
	}
	up, down, _, _ := doCut(x, meshOf(ts), c)
	x.State(newHash().S(s.name).S(f.name).F(n.X).F(n.Y).F(n.Z).F(k).I(fr).Sum())
	x.Outcome(hashTris(up))
	checkCut(x, ts, up, down, c, 0, "cut")
}

// planes through vertices, edges and faces
func c05OnVertices(x *X) {
	var ts []tri
	var name string
	if k := x.Choose(len(shapeCache) + 255); k < len(shapeCache) {
		ts, name = shapeCache[k].ts, shapeCache[k].name
	} else {
		mask := k - len(shapeCache) + 1
		if !x.Thorough && mask%5 != 3 {
			x.Prune()
		}
		ts, name = polycube(mask, 2), fmt.Sprintf("polycube %08b", mask)
	}
	n := cutNormals[x.Choose(4)]
	x.Begin(fmt.Sprintf("shape %s cut by normal %v at every distinct vertex height", name, n))
	seen := map[int64]bool{}
	var hs []float64
	for _, t := range ts {
		for _, p := range t {
			h := pdot(p, n)
			if k := int64(math.Round(h * 1e6)); !seen[k] {
				seen[k] = true
				hs = append(hs, h)
			}
		}
	}
	if len(hs) > 12 {
		hs = hs[:12]
	}
	for i, h := range hs {
		bad := false
		for _, t := range ts {
			for _, p := range t {
				if q := pdot(p, n); q != h && math.Abs(q-h) < 1e-6 {
					bad = true // vertices meant to be on the plane are on both sides of it
				}
			}
		}
		if bad {
			continue
		}
		c := cutPlane{p: Plane{P: vadd(Point{1, -2, 3}, vmul(n, h-pdot(Point{1, -2, 3}, n))), N: n}, n: n, d: h}
		if pdot(c.p.P, n) != h {
			continue
		}
		up, down, _, _ := doCut(x, meshOf(ts), c)
		x.State(newHash().S(name).F(n.X).F(n.Y).F(n.Z).I(i).Sum())
		x.Outcome(hashTris(up))
		checkCut(x, ts, up, down, c, 0, fmt.Sprintf("cut through vertices at %.6g", h))
	}
}

// planes that pass vertices by less than the slicer can tell
func c05Noise(x *X) {
	k := x.Choose(len(shapeCache) + 51)
	ni := x.Choose(len(cutNormals))
	e := Pick(x, 0.0, 3e-15, -3e-15, 2e-12, -2e-12, 1e-9, -1e-9, 4e-8, -4e-8, 7e-7, -7e-7)
	var ts []tri
	var name string
	if k < len(shapeCache) {
		ts, name = shapeCache[k].ts, shapeCache[k].name
	} else {
		mask := (k-len(shapeCache))*5 + 3
		ts, name = polycube(mask, 2), fmt.Sprintf("polycube %08b", mask)
	}
	if !x.Thorough && (k+ni)%3 != 0 {
		x.Prune()
	}
	u := vunit(cutNormals[ni])
	x.Begin(fmt.Sprintf("shape %s cut by normal %v, %g beside every vertex height", name, cutNormals[ni], e))
	seen := map[int64]bool{}
	for _, t := range ts {
		for _, p := range t {
			h := pdot(p, u)
			if k := int64(math.Round(h * 1e5)); seen[k] || len(seen) > 9 {
				continue
			} else {
				seen[k] = true
			}
			c := mkCut(cutNormals[ni], h+e)
			c.noise = 1e-6
			up, down, _, _ := doCut(x, meshOf(ts), c)
			x.Outcome(hashTris(up))
			checkCut(x, ts, up, down, c, 0, fmt.Sprintf("cut at %.6g", h))
		}
	}
	x.State(hashStr(x.desc))
}

// sequences of cuts: the part kept is cut again
func c05Seq(x *X) {
	s := shapeCache[x.Choose(len(shapeCache))]
	depth := Tier(x, 2, 3)
	type op struct{ n, fr, side int }
	var ops []op
	d := ""
	for i := 0; i < depth; i++ {
		o := op{x.Choose(Tier(x, 5, 6)), x.Choose(2), x.Choose(2)}
		ops = append(ops, o)
		d += fmt.Sprint(o)
	}
	x.Begin(fmt.Sprintf("shape %s, cuts {normal offset keep} %s", s.name, d))
	norms := []Vector{{0, 0, 1}, {0, -0.6, 0.8}, {1, 1, 1}, {-0.3, 0.2, 0.9}, {0.05, -1, 0.3}, {1, 0.01, 0.02}}
	cur := s.ts
	m := meshOf(cur)
	caps := 0
	for i, o := range ops {
		n := vunit(norms[o.n])
		lo, hi := minmax(cur, n)
		if !(hi-lo > 1e-3) {
			break
		}
		c := mkCut(norms[o.n], lo+(hi-lo)*[]float64{0.4137, 0.7371}[o.fr])
		for _, t := range cur {
			for _, p := range t {
				if math.Abs(pdot(p, n)-c.d) < 2e-3 {
					x.Prune() // slivers below the resolution of the slicer
				}
			}
		}
		up, down, mu, md := doCut(x, m, c)
		x.State(hashTris(up))
		x.Outcome(hashTris(down))
		checkCut(x, cur, up, down, c, caps, fmt.Sprintf("cut %d", i+1))
		if touching(sectionChain(cur, c.n, c.d, 1), 1e-4) {
			caps = -1
		}
		if o.side == 0 {
			cur, m = up, mu
		} else {
			cur, m = down, md
		}
		if len(cur) == 0 {
			break
		}
	}
}

// prismOf: the polygons (outer ones counterclockwise, holes clockwise) between two heights; the ends are fans, which
// is right as a chain.
func prismOf(polys [][]Point, h float64) []tri {
	var ts []tri
	up := func(p Point) Point { return Point{p.X, p.Y, p.Z + h} }
	for _, l := range polys {
		for i := range l {
			a, b := l[i], l[(i+1)%len(l)]
			ts = append(ts, tri{a, b, up(b)}, tri{a, up(b), up(a)})
			if i > 0 && i+1 < len(l) {
				ts = append(ts, tri{up(l[0]), up(a), up(b)}, tri{l[0], b, a})
			}
		}
	}
	return ts
}

func revPts(l []Point) []Point {
	var r []Point
	for i := len(l) - 1; i >= 0; i-- {
		r = append(r, l[i])
	}
	return r
}

// sections that are hard to close: many vertices, thin walls, holes that hide behind each other
func hardSections() (names []string, polys [][][]Point) {
	add := func(n string, p ...[]Point) {
		names = append(names, n)
		polys = append(polys, p)
	}
	box := func(a, b, c, d float64) []Point { return []Point{{a, b, 0}, {c, b, 0}, {c, d, 0}, {a, d, 0}} }
	gear := func(n int, r, s float64) []Point {
		var ps []Point
		for i := 0; i < n; i++ {
			for k, a := range []float64{0, 0.3, 0.5, 0.8} {
				q := r
				if k >= 2 {
					q += s
				}
				t := 2 * math.Pi * (float64(i) + a) / float64(n)
				ps = append(ps, Point{q * math.Cos(t), q * math.Sin(t), 0})
			}
		}
		return ps
	}
	for _, n := range []int{5, 16, 24, 60} {
		add(fmt.Sprintf("gear of %d teeth", n), gear(n, 20, 3))
		add(fmt.Sprintf("gear of %d teeth with a hole", n), gear(n, 20, 3), revPts(ngon(n, 9, 0.2)))
		add(fmt.Sprintf("plate with a gear of %d teeth cut out", n), box(-30, -30, 30, 30), revPts(gear(n, 20, 3)))
	}
	var comb []Point
	for i := 0; i < 25; i++ {
		v := float64(i)
		comb = append(comb, Point{v, 0, 0}, Point{v + 0.4, 0, 0}, Point{v + 0.45, 9, 0}, Point{v + 0.95, 9, 0})
	}
	add("comb", append(comb, Point{25, 0, 0}, Point{25, 11, 0}, Point{0, 11, 0}))
	spiral := []Point{}
	for i := 0; i <= 50; i++ {
		a := float64(i) * 0.4
		spiral = append(spiral, Point{(2 + a) * math.Cos(a), (2 + a) * math.Sin(a), 0})
	}
	for i := 50; i >= 0; i-- {
		a := float64(i) * 0.4
		spiral = append(spiral, Point{(3.5 + a) * math.Cos(a), (3.5 + a) * math.Sin(a), 0})
	}
	add("spiral", revPts(spiral))
	var sieve [][]Point
	for i := 0; i < 4; i++ {
		for j := 0; j < 4; j++ {
			v := ngon(3+(i+j)%4, 1.5, float64(i)*0.7+float64(j))
			for k := range v {
				v[k].X += float64(5*i) + 3
				v[k].Y += float64(5*j) + 3
			}
			sieve = append(sieve, revPts(v))
		}
	}
	add("sieve", append([][]Point{box(0, 0, 21.3, 21.1)}, sieve...)...)
	// the vertex of the outer contour nearest to the hole is behind another hole
	spike := []Point{{0, 0, 0}, {9, 0, 0}, {10, 8.8, 0}, {11, 0, 0}, {20, 0, 0}, {20, 20, 0}, {0, 20, 0}}
	add("hole behind a slot", spike, revPts(box(1.2, 9, 18.8, 9.3)), revPts(box(9.7, 9.6, 10.4, 10.1)))
	add("hole behind two slots", spike, revPts(box(1.2, 9, 18.8, 9.3)), revPts(box(2.2, 9.5, 17.8, 9.7)), revPts(box(9.7, 10, 10.4, 10.6)))
	// ... and behind a wall of the contour itself
	add("hole behind a wall", []Point{{0, 0, 0}, {20, 0, 0}, {20, 9, 0}, {8, 9, 0}, {8, 9.2, 0}, {20, 9.2, 0}, {20, 20, 0}, {10, 20, 0}, {9, 10.5, 0}, {8.5, 20, 0}, {0, 20, 0}}, revPts(box(12, 8, 12.6, 8.6)), revPts(box(13, 9.6, 13.5, 10.1)))
	add("ring in a ring", ngon(40, 20, 0), revPts(ngon(37, 17, 0.1)), ngon(34, 12, 0.2), revPts(ngon(31, 8, 0.3)), ngon(5, 3, 0))
	return
}

func c05Sections(x *X) {
	names, polys := hardSections()
	k := x.Choose(len(names))
	start := x.Choose(Tier(x, 3, 9))
	f := x.Choose(len(xforms))
	tilt := x.Choose(3)
	scl := Pick(x, 1.0, 0.07, 6)
	if !x.Thorough && (start+f+tilt)%3 != 0 {
		x.Prune()
	}
	x.Begin(fmt.Sprintf("%s, start %d, placed %s, scale %g, plane %d", names[k], start, xforms[f].name, scl, tilt))
	var ps [][]Point
	for _, l := range polys[k] {
		var q []Point
		for i := range l {
			p := l[(i+start*5)%len(l)]
			q = append(q, Point{p.X * scl, p.Y * scl, 0})
		}
		ps = append(ps, q)
	}
	ts := mapTris(prismOf(ps, 40*scl), xforms[f].f)
	o := xforms[f].f(Point{0, 0, 0})
	n := vsub(xforms[f].f([]Point{{0, 0, 1}, {0.13, 0.07, 1}, {-0.2, 0.31, -1}}[tilt]), o)
	mid := xforms[f].f(Point{8 * scl, 8 * scl, 20.37 * scl})
	c := mkCut(n, pdot(mid, vunit(n)))
	up, down, _, _ := doCut(x, meshOf(ts), c)
	x.State(hashStr(x.desc))
	x.Outcome(hashTris(up))
	checkCut(x, ts, up, down, c, 0, "cut")
}

func c05Outside(x *X) {
	s := shapeCache[x.Choose(len(shapeCache))]
	n := cutNormals[x.Choose(len(cutNormals))]
	k := x.Choose(3)
	x.Begin(fmt.Sprintf("shape %s, plane %v outside %d", s.name, n, k))
	if k == 2 {
		for _, m := range []*Mesh{nil, {}} {
			u, d, err := helpers.CutMesh(m, mkCut(n, 1).p)
			x.Op(1)
			if err != nil || u == nil || d == nil || len(u.Triangles)+len(d.Triangles) != 0 {
				x.Fail("empty", "cutting an empty mesh: %v %v %v", u, d, err)
			}
		}
		x.Trivial()
		return
	}
	lo, hi := minmax(s.ts, vunit(n))
	c := mkCut(n, lo-0.01)
	if k == 1 {
		c = mkCut(n, hi+0.01)
	}
	up, down, _, _ := doCut(x, meshOf(s.ts), c)
	x.State(newHash().S(s.name).F(n.X).F(n.Y).F(n.Z).I(k).Sum())
	all, none := up, down
	if k == 1 {
		all, none = down, up
	}
	x.Outcome(hashTris(all))
	if len(none) != 0 {
		x.Fail("outside", "%d triangles on the empty side", len(none))
	}
	if hashTris(all) != hashTris(s.ts) {
		x.Fail("outside", "the body on one side of the plane is not returned unchanged")
	}
}

func init() {
	register(&Prop{ID: "C05", Level: "model_checking",
		Rule:   "every solid of the catalogue x placement x plane normal x offset, every vertex height, and every sequence of cuts up to the depth",
		Assume: []string{"closed meshes; planes pass vertices by less than 1e-6 mm or by more than 1e-3 mm (between, slivers are not closed); repeated cuts miss every vertex by at least 2 um; cap slivers below 2e-6 mm2 per triangle (merged nearly collinear corners) are ignored; caps of sections that touch themselves in a point are not compared by area"},
		Models: []Model{{Name: "shapes", Run: c05Shapes}, {Name: "lengths", Run: c05Lengths}, {Name: "onvertices", Run: c05OnVertices}, {Name: "noise", Run: c05Noise}, {Name: "sequences", Run: c05Seq}, {Name: "outside", Run: c05Outside}, {Name: "sections", Run: c05Sections}}})
}
