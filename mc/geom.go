//go:build go1.22

package main

// Reference geometry: small, independent of /repo's algorithms.

import (
	"fmt"
	"math"
	"sort"

	. "github.com/l1va/goosli/primitives"
)

func vsub(a, b Point) Vector         { return Vector{a.X - b.X, a.Y - b.Y, a.Z - b.Z} }
func vadd(a Point, v Vector) Point   { return Point{a.X + v.X, a.Y + v.Y, a.Z + v.Z} }
func vmul(v Vector, k float64) Vector { return Vector{v.X * k, v.Y * k, v.Z * k} }
func vdot(a, b Vector) float64       { return a.X*b.X + a.Y*b.Y + a.Z*b.Z }
func vcross(a, b Vector) Vector {
	return Vector{a.Y*b.Z - a.Z*b.Y, a.Z*b.X - a.X*b.Z, a.X*b.Y - a.Y*b.X}
}
func vlen(a Vector) float64 { return math.Sqrt(vdot(a, a)) }
func vunit(a Vector) Vector {
	l := vlen(a)
	if l == 0 {
		return a
	}
	return vmul(a, 1/l)
}
func pdot(a Point, v Vector) float64 { return a.X*v.X + a.Y*v.Y + a.Z*v.Z }
func dist(a, b Point) float64        { return vlen(vsub(a, b)) }
func lerp(a, b Point, t float64) Point {
	return Point{a.X + (b.X-a.X)*t, a.Y + (b.Y-a.Y)*t, a.Z + (b.Z-a.Z)*t}
}
func finite(p Point) bool {
	s := p.X + p.Y + p.Z
	return !math.IsNaN(s) && !math.IsInf(s, 0)
}

type tri [3]Point

func (t tri) normal() Vector { return vcross(vsub(t[1], t[0]), vsub(t[2], t[0])) }

func meshOf(ts []tri) *Mesh {
	r := make([]Triangle, len(ts))
	for i, t := range ts {
		r[i] = NewTriangle(t[0], t[1], t[2])
	}
	m := NewMesh(r)
	return &m
}

func trisOf(m *Mesh) []tri {
	if m == nil {
		return nil
	}
	r := make([]tri, len(m.Triangles))
	for i, t := range m.Triangles {
		r[i] = tri{t.P1, t.P2, t.P3}
	}
	return r
}

func minmax(ts []tri, n Vector) (float64, float64) {
	lo, hi := math.Inf(1), math.Inf(-1)
	for _, t := range ts {
		for _, p := range t {
			d := pdot(p, n)
			lo, hi = math.Min(lo, d), math.Max(hi, d)
		}
	}
	return lo, hi
}

// volume by the divergence theorem with the given apex.
func volume(ts []tri, apex Point) float64 {
	v := 0.0
	for _, t := range ts {
		a, b, c := vsub(t[0], apex), vsub(t[1], apex), vsub(t[2], apex)
		v += vdot(a, vcross(b, c)) / 6
	}
	return v
}

func areaOf(ts []tri) float64 {
	s := 0.0
	for _, t := range ts {
		s += vlen(t.normal()) / 2
	}
	return s
}

type seg struct{ a, b Point }

// sectionChain intersects the closed mesh with {x: x.n = d}; vertices on the
// plane count as above (side=+1) or below (side=-1).  Outer contours run
// clockwise seen from +n.
func sectionChain(ts []tri, n Vector, d float64, side int) []seg {
	var res []seg
	for _, t := range ts {
		var s [3]float64
		var up [3]bool
		k := 0
		for i, p := range t {
			s[i] = pdot(p, n) - d
			if math.Abs(s[i]) < 1e-9 {
				s[i] = 0
			}
			up[i] = s[i] > 0 || (s[i] == 0 && side > 0)
			if up[i] {
				k++
			}
		}
		if k == 0 || k == 3 {
			continue
		}
		var pts []Point
		for i := 0; i < 3; i++ {
			j := (i + 1) % 3
			if up[i] != up[j] {
				pts = append(pts, lerp(t[i], t[j], s[i]/(s[i]-s[j])))
			}
		}
		if len(pts) != 2 {
			continue
		}
		dir := vcross(t.normal(), n)
		if vdot(vsub(pts[1], pts[0]), dir) < 0 {
			pts[0], pts[1] = pts[1], pts[0]
		}
		res = append(res, seg{pts[0], pts[1]})
	}
	return res
}

func pathSegs(ps []Path) []seg {
	var res []seg
	for _, p := range ps {
		for i := 1; i < len(p.Points); i++ {
			res = append(res, seg{p.Points[i-1], p.Points[i]})
		}
	}
	return res
}

func segsLen(ss []seg) float64 {
	l := 0.0
	for _, s := range ss {
		l += dist(s.a, s.b)
	}
	return l
}

// chainDiff compares two signed 1-chains as currents: "" when equal.
func chainDiff(got, want []seg, tol float64) string {
	ids := newClusters(tol)
	for _, s := range want {
		ids.add(s.a)
		ids.add(s.b)
	}
	for _, s := range got {
		if !finite(s.a) || !finite(s.b) {
			return fmt.Sprintf("non-finite coordinate in segment %v", s)
		}
		ids.add(s.a)
		ids.add(s.b)
	}
	net := map[[2]int]int{}
	put := func(ss []seg, k int) {
		for _, s := range ss {
			for _, e := range ids.split(s) {
				if e[0] < e[1] {
					net[e] += k
				} else {
					net[[2]int{e[1], e[0]}] -= k
				}
			}
		}
	}
	put(got, 1)
	put(want, -1)
	var bad []string
	for e, c := range net {
		if c != 0 {
			bad = append(bad, fmt.Sprintf("%v->%v x%d", rp(ids.pts[e[0]]), rp(ids.pts[e[1]]), c))
		}
	}
	if len(bad) == 0 {
		return ""
	}
	sort.Strings(bad)
	n := len(bad)
	if n > 4 {
		bad = bad[:4]
	}
	return fmt.Sprintf("%d edges differ (got minus expected): %v", n, bad)
}

func rp(p Point) string { return fmt.Sprintf("(%.6g,%.6g,%.6g)", p.X, p.Y, p.Z) }

type clusters struct {
	tol  float64
	pts  []Point
	grid map[[3]int64][]int
}

func newClusters(tol float64) *clusters { return &clusters{tol: tol, grid: map[[3]int64][]int{}} }

func (c *clusters) cell(p Point) [3]int64 {
	k := 4 * c.tol
	return [3]int64{int64(math.Floor(p.X / k)), int64(math.Floor(p.Y / k)), int64(math.Floor(p.Z / k))}
}

func (c *clusters) find(p Point) int {
	g := c.cell(p)
	for dx := int64(-1); dx <= 1; dx++ {
		for dy := int64(-1); dy <= 1; dy++ {
			for dz := int64(-1); dz <= 1; dz++ {
				for _, i := range c.grid[[3]int64{g[0] + dx, g[1] + dy, g[2] + dz}] {
					if dist(c.pts[i], p) < c.tol {
						return i
					}
				}
			}
		}
	}
	return -1
}

func (c *clusters) add(p Point) int {
	if i := c.find(p); i >= 0 {
		return i
	}
	c.pts = append(c.pts, p)
	g := c.cell(p)
	c.grid[g] = append(c.grid[g], len(c.pts)-1)
	return len(c.pts) - 1
}

// split cuts a segment at every cluster point on it.
func (c *clusters) split(s seg) [][2]int {
	type on struct {
		t  float64
		id int
	}
	var l []on
	ab := vsub(s.b, s.a)
	ll := vdot(ab, ab)
	ia, ib := c.find(s.a), c.find(s.b)
	if ia == ib {
		return nil
	}
	lo := Point{math.Min(s.a.X, s.b.X) - c.tol, math.Min(s.a.Y, s.b.Y) - c.tol, math.Min(s.a.Z, s.b.Z) - c.tol}
	hi := Point{math.Max(s.a.X, s.b.X) + c.tol, math.Max(s.a.Y, s.b.Y) + c.tol, math.Max(s.a.Z, s.b.Z) + c.tol}
	for i, p := range c.pts {
		if i == ia || i == ib || p.X < lo.X || p.Y < lo.Y || p.Z < lo.Z || p.X > hi.X || p.Y > hi.Y || p.Z > hi.Z {
			continue
		}
		t := vdot(vsub(p, s.a), ab) / ll
		if t <= 0 || t >= 1 {
			continue
		}
		if dist(p, lerp(s.a, s.b, t)) < c.tol {
			l = append(l, on{t, i})
		}
	}
	sort.Slice(l, func(i, j int) bool { return l[i].t < l[j].t })
	var res [][2]int
	prev := ia
	for _, o := range l {
		res = append(res, [2]int{prev, o.id})
		prev = o.id
	}
	return append(res, [2]int{prev, ib})
}

// meshBoundary returns the net boundary 1-chain of the triangles ("" when the
// mesh is closed as a chain, T-junctions allowed).
func meshBoundary(ts []tri, tol float64) string {
	var ss []seg
	for _, t := range ts {
		ss = append(ss, seg{t[0], t[1]}, seg{t[1], t[2]}, seg{t[2], t[0]})
	}
	return chainDiff(ss, nil, tol)
}

// windingXY: winding number (counter-clockwise positive) of closed segments around q.
func windingXY(ss []seg, x, y float64) int {
	w := 0
	for _, s := range ss {
		if (s.a.Y > y) != (s.b.Y > y) {
			xx := s.a.X + (y-s.a.Y)/(s.b.Y-s.a.Y)*(s.b.X-s.a.X)
			if xx > x {
				if s.b.Y > s.a.Y {
					w++
				} else {
					w--
				}
			}
		}
	}
	return w
}

func signedAreaXY(ps []Point) float64 {
	s := 0.0
	for i := range ps {
		j := (i + 1) % len(ps)
		s += ps[i].X*ps[j].Y - ps[j].X*ps[i].Y
	}
	return s / 2
}

func ptSegDist(p Point, a, b Point) float64 {
	ab := vsub(b, a)
	l := vdot(ab, ab)
	if l == 0 {
		return dist(p, a)
	}
	t := vdot(vsub(p, a), ab) / l
	t = math.Max(0, math.Min(1, t))
	return dist(p, lerp(a, b, t))
}

// rotate by `deg` counter-clockwise about the unit axis through c (Rodrigues).
func rotPoint(p, c Point, axis Vector, deg float64) Point {
	v := vsub(p, c)
	return vadd(c, rotVec(v, axis, deg))
}

func rotVec(v, axis Vector, deg float64) Vector {
	k := vunit(axis)
	th := deg * math.Pi / 180
	cs, sn := math.Cos(th), math.Sin(th)
	return Vector{}.Add(vmul(v, cs)).Add(vmul(vcross(k, v), sn)).Add(vmul(k, vdot(k, v)*(1-cs)))
}

func mapTris(ts []tri, f func(Point) Point) []tri {
	r := make([]tri, len(ts))
	for i, t := range ts {
		r[i] = tri{f(t[0]), f(t[1]), f(t[2])}
	}
	return r
}

func near(a, b, tol float64) bool { return math.Abs(a-b) <= tol }

// symDiffArea integrates |winding(got) - winding(want)| over the plane with normal n.
func symDiffArea(got, want []seg, n Vector) float64 {
	// in-plane basis
	e1 := vcross(n, Vector{0.3141, 0.2718, 0.9})
	if vlen(e1) < 1e-3 {
		e1 = vcross(n, Vector{1, 0.1, 0})
	}
	e1 = vunit(e1)
	e2 := vcross(n, e1)
	type s2 struct {
		ax, ay, bx, by float64
		w              int
	}
	var ss []s2
	var ys []float64
	add := func(l []seg, w int) {
		for _, s := range l {
			q := s2{pdot(s.a, e1), pdot(s.a, e2), pdot(s.b, e1), pdot(s.b, e2), w}
			ys = append(ys, q.ay, q.by)
			ss = append(ss, q)
		}
	}
	add(got, 1)
	add(want, -1)
	sort.Float64s(ys)
	type ev struct {
		x float64
		w int
	}
	total := 0.0
	for i := 1; i < len(ys); i++ {
		h := ys[i] - ys[i-1]
		if h < 1e-12 {
			continue
		}
		y := (ys[i] + ys[i-1]) / 2
		var es []ev
		for _, s := range ss {
			if (s.ay > y) == (s.by > y) {
				continue
			}
			x := s.ax + (y-s.ay)/(s.by-s.ay)*(s.bx-s.ax)
			w := s.w
			if s.by > s.ay {
				w = -w
			}
			es = append(es, ev{x, w})
		}
		sort.Slice(es, func(a, b int) bool { return es[a].x < es[b].x })
		w := 0
		for k := 0; k+1 < len(es); k++ {
			w += es[k].w
			if w != 0 {
				total += math.Abs(float64(w)) * (es[k+1].x - es[k].x) * h
			}
		}
	}
	return total
}

// sameSection: equal as chains, or differing by less than the area lost by
// merging corners whose edges span less than 1e-6 mm2.
func sameSection(got, want []seg, n Vector) string {
	d := chainDiff(got, want, 2e-5)
	if d == "" {
		return ""
	}
	for _, s := range got {
		if !finite(s.a) || !finite(s.b) {
			return d
		}
	}
	if a := symDiffArea(got, want, n); a > 2e-6*float64(len(want))+1e-7*segsLen(want) {
		return fmt.Sprintf("%s; area of the difference %.6g", d, a)
	}
	return ""
}
