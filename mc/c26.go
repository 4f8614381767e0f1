//go:build go1.22

package main

import (
	"fmt"
	"math"

	. "github.com/l1va/goosli/primitives"
)

// C26: the geometric functions everything is built from.

func gridPoint(k int, w, h int, s float64) Point {
	return Point{float64(k%w) * s, float64(k/w%h) * s, float64(k/(w*h)) * s}
}

// two segments of a plane
func c26Segments(x *X) {
	w := Tier(x, 4, 5)
	p := func() ipt { k := x.Choose(w * w); return ipt{k % w, k / w} }
	a, b := p(), p()
	if a == b {
		x.Prune()
	}
	c, d := p(), p()
	if c == d {
		x.Prune()
	}
	z := Pick(x, 0.0, 12.4)
	s := Pick(x, 1.0, 0.37, 21.3)
	x.Begin(fmt.Sprintf("segments %v-%v and %v-%v of height %g times %g", a, b, c, d, z, s))
	at := func(q ipt) Point { return Point{float64(q.x)*s - 2*s, float64(q.y)*s + 5, z} }
	l1, l2 := Line{at(a), at(b)}, Line{at(c), at(d)}
	x.Op(2)
	got := l1.IntersectLine(&l2)
	want := icross(a, b, c, d)
	if (got != nil) != want {
		x.Fail("segments", "a common point is found: %v, must be %v", got, want)
	}
	if l1.IsIntersectingSegment(&l2) != want {
		x.Fail("segments", "intersecting: must be %v", want)
	}
	if got != nil {
		if !finite(*got) || ptSegDist(*got, l1.P1, l1.P2) > 1e-7*s || ptSegDist(*got, l2.P1, l2.P2) > 1e-7*s {
			x.Fail("segments", "the common point %v does not lie on both", *got)
		}
	}
	if !near(l1.Len(), dist(l1.P1, l1.P2), 1e-9*s) || l1.Reverse() != (Line{l1.P2, l1.P1}) {
		x.Fail("line", "length %g or reverse %v of %v", l1.Len(), l1.Reverse(), l1)
	}
	col := iorient(a, b, ipt{a.x + d.x - c.x, a.y + d.y - c.y}) == 0
	if l1.IsCollinear(l2) != col {
		x.Fail("line", "parallel: %v, must be %v", l1.IsCollinear(l2), col)
	}
	if k := at(c).Orientation(at(a), at(b)); (k == 0) != (iorient(a, b, c) == 0) || k == 1 != (iorient(a, b, c) < 0) {
		x.Fail("orientation", "orientation of %v is %d", c, k)
	}
	h := newHash().S(fmt.Sprint(got != nil))
	if got != nil {
		h.F(math.Round(got.X*1e6)).F(math.Round(got.Y * 1e6))
	}
	x.State(h.Sum())
	x.Outcome(h.Sum())
}

// plane and triangle
func c26PlaneTriangle(x *X) {
	var t tri
	for i := range t {
		t[i] = gridPoint(x.Choose(Tier(x, 18, 27)), 3, 3, 2)
	}
	if vlen(t.normal()) < 1e-9 {
		x.Prune()
	}
	ns := []Vector{{0, 0, 1}, {1, 0, 0}, {0, -1, 0}, {1, 1, 0}, {0, 1, -1}, {1, 2, 2}, {-1, 1, 1}}
	n := ns[x.Choose(len(ns))]
	off := Pick(x, -1.0, 0, 0.5, 1, 2, 3, 4, 7)
	x.Begin(fmt.Sprintf("triangle %v, plane %v offset %g", t, n, off))
	pl := Plane{P: vadd(Point{}, vmul(n, off/vdot(n, n))), N: n}
	// move it within itself
	u := vcross(n, Vector{n.Y + 1, n.Z - 2, n.X + 3})
	pl.P = vadd(pl.P, vmul(u, 0.25))
	tt := NewTriangle(t[0], t[1], t[2])
	eps := 1e-9
	sd := func(p Point) float64 { return (pdot(p, n) - off) / vlen(n) }
	x.Op(4)
	lo, hi := math.Inf(1), math.Inf(-1)
	up, on, down := 0, 0, 0
	for _, p := range t {
		d := sd(p)
		lo, hi = math.Min(lo, pdot(p, n)), math.Max(hi, pdot(p, n))
		if d > eps {
			up++
		} else if d < -eps {
			down++
		} else {
			on++
		}
		if math.Abs(d) > eps {
			if pl.PointInFront(p) != (d > 0) {
				x.Fail("front", "%v in front: %v, distance is %g", p, pl.PointInFront(p), d)
			}
			if math.Abs(d) > 1e-5 && pl.PointBelongs(p) {
				x.Fail("belongs", "%v belongs to the plane, distance is %g", p, d)
			}
		} else if !pl.PointBelongs(p) {
			x.Fail("belongs", "%v does not belong to the plane", p)
		}
		pr := pl.ProectionPointToPlane(p)
		if math.Abs(sd(pr)) > 1e-9 || vlen(vcross(vsub(p, pr), vunit(n))) > 1e-9 {
			x.Fail("projection", "projection of %v is %v", p, pr)
		}
		v := vsub(p, pl.P)
		pv := v.ProjectOnPlane(pl)
		if math.Abs(vdot(pv, n)) > 1e-9*vlen(n) || vlen(vcross(vsub(Point(v), Point(pv)), n)) > 1e-8 {
			x.Fail("projection", "projection of vector %v is %v", v, pv)
		}
	}
	if a, b := tt.MinMaxZ(n); !near(a, lo, 1e-9) || !near(b, hi, 1e-9) || !near(tt.MinZ(n), lo, 1e-9) || !near(tt.MaxZ(n), hi, 1e-9) {
		x.Fail("extent", "the triangle reaches from %g to %g, must be %g to %g", a, b, lo, hi)
	}
	if up+on > 0 && down+on > 0 && (up > 0 && down > 0) && !pl.Intersect(&tt) {
		x.Fail("intersect", "the plane is said to miss the triangle")
	}
	if (up == 3 || down == 3) && pl.Intersect(&tt) {
		x.Fail("intersect", "the plane is said to meet the triangle")
	}
	for i := range t {
		a, b := t[i], t[(i+1)%3]
		da, db := sd(a), sd(b)
		p := pl.IntersectSegment(a, b)
		switch {
		case da*db < 0 && math.Min(math.Abs(da), math.Abs(db)) > eps:
			w := lerp(a, b, da/(da-db))
			if p == nil || dist(*p, w) > 1e-9 {
				x.Fail("segment", "plane meets %v-%v in %v, must be %v", a, b, p, w)
			}
		case da*db > 0 && math.Min(math.Abs(da), math.Abs(db)) > eps:
			if p != nil {
				x.Fail("segment", "plane meets %v-%v in %v, must miss it", a, b, *p)
			}
		}
	}
	l := pl.IntersectTriangle(&tt)
	switch {
	case up == 3 || down == 3:
		if l != nil {
			x.Fail("section", "the plane misses the triangle, line %v is given", *l)
		}
	case up > 0 && down > 0:
		var ends []Point
		for i := range t {
			a, b := t[i], t[(i+1)%3]
			if math.Abs(sd(a)) <= eps {
				ends = append(ends, a)
			} else if sd(a)*sd(b) < 0 && math.Abs(sd(b)) > eps {
				ends = append(ends, lerp(a, b, sd(a)/(sd(a)-sd(b))))
			}
		}
		if len(ends) != 2 {
			x.Fail("oracle", "ends %v", ends)
		}
		if dist(ends[0], ends[1]) < 1e-4 {
			break
		}
		if l == nil {
			x.Fail("section", "no line is given, must be %v", ends)
		}
		if d := vcross(n, t.normal()); vdot(vsub(ends[1], ends[0]), d) < 0 {
			ends[0], ends[1] = ends[1], ends[0]
		}
		// material to one side, the same for all triangles
		if vdot(vcross(l.ToVector(), n), t.normal()) > 0 {
			x.Fail("section", "line %v runs backwards", *l)
		}
		if !(dist(l.P1, ends[0])+dist(l.P2, ends[1]) < 1e-6 || dist(l.P1, ends[1])+dist(l.P2, ends[0]) < 1e-6) {
			x.Fail("section", "line %v, must be %v", *l, ends)
		}
	}
	h := newHash().I(up).I(on).I(down)
	if l != nil {
		h.F(math.Round(l.P1.X * 1e6)).F(math.Round(l.P1.Y * 1e6)).F(math.Round(l.P1.Z * 1e6))
	}
	x.State(h.Sum())
	x.Outcome(h.Sum())
}

// point, line and vectors
func c26Points(x *X) {
	g := Tier(x, 18, 27)
	a, b, p := gridPoint(x.Choose(g), 3, 3, 1.7), gridPoint(x.Choose(g), 3, 3, 1.7), gridPoint(x.Choose(27), 3, 3, 1.1)
	if a == b {
		x.Prune()
	}
	sc := Pick(x, 1.0, 0.03, 140)
	if sc != 1 {
		a, b, p = Point{a.X * sc, a.Y * sc, a.Z * sc}, Point{b.X * sc, b.Y * sc, b.Z * sc}, Point{p.X * sc, p.Y * sc, p.Z * sc}
	}
	x.Begin(fmt.Sprintf("point %v, line %v-%v", p, a, b))
	x.Op(8)
	if got, want := p.DistanceToLine(a, b), refDist(p, a, b); !near(got, want, 1e-7*(1+sc)) {
		x.Fail("distance", "distance is %g, must be %g", got, want)
	}
	pr := p.ProjectOnLine(a, b)
	u := vunit(vsub(b, a))
	want := vadd(a, vmul(u, vdot(vsub(p, a), u)))
	if dist(pr, want) > 1e-9*(1+sc) {
		x.Fail("projection", "projection is %v, must be %v", pr, want)
	}
	ab := Line{a, b}
	for _, k := range []float64{-1, -0.01, 0, 0.25, 0.5, 1, 1.01, 2} { // on the line through both
		q := lerp(a, b, k)
		if k == 1 {
			q = b
		}
		for c, e := range [][3]float64{{a.X, b.X, q.X}, {a.Y, b.Y, q.Y}, {a.Z, b.Z, q.Z}} {
			if e[0] == e[1] { // rounding of q
				switch c {
				case 0:
					q.X = a.X
				case 1:
					q.Y = a.Y
				default:
					q.Z = a.Z
				}
			}
		}
		if got := ab.IsCollinearPointOnSegment(q); got != (k >= 0 && k <= 1) {
			x.Fail("between", "%v, at %g of the segment %v-%v, lies on it: %v", q, k, a, b, got)
		}
	}
	if !near(p.DistanceTo(a), dist(p, a), 1e-9*(1+sc)) {
		x.Fail("distance", "distance of points is %g, must be %g", p.DistanceTo(a), dist(p, a))
	}
	v, w := a.VectorTo(b), a.VectorTo(p)
	if v != vsub(b, a) || v != ToVector(a, b) || dist(a.Shift(v), b) > 1e-12*(1+sc) {
		x.Fail("vector", "vector to: %v", v)
	}
	if vlen(vsub(Point(v.Cross(w)), Point(vcross(v, w)))) > 1e-12*(1+sc*sc) || !near(v.Dot(w), vdot(v, w), 1e-12*(1+sc*sc)) {
		x.Fail("vector", "products %v %g", v.Cross(w), v.Dot(w))
	}
	if n := v.Normalize(); !near(n.Length(), 1, 1e-12) || vlen(vcross(n, v)) > 1e-9*(1+sc) || vdot(n, v) < 0 {
		x.Fail("vector", "normalized %v is %v", v, n)
	}
	for _, k := range []float64{1e-3, 3e-8, 7e5} { // of any length
		if n := v.MulScalar(k).Normalize(); !near(n.Length(), 1, 1e-9) || vlen(vsub(Point(n), Point(vunit(v)))) > 1e-6 {
			x.Fail("vector", "normalized %v is %v", v.MulScalar(k), n)
		}
		if vlen(w) == 0 {
			continue
		}
		if a, b := v.Angle(w.MulScalar(k)), v.MulScalar(k).Angle(w); !near(a, angleBetween(v, w), 1e-4) || !near(b, a, 1e-4) {
			x.Fail("angle", "angle of %v and %v, one of them %g times longer: %g and %g", v, w, k, a, b)
		}
		if a := v.ProjectOn(w.MulScalar(k)); vlen(vsub(Point(a), Point(vmul(w, vdot(v, w)/vdot(w, w))))) > 1e-6*(1+sc) {
			x.Fail("projection", "%v on %v is %v", v, w.MulScalar(k), a)
		}
	}
	if vlen(w) > 0 {
		if got, want := v.Angle(w), angleBetween(v, w); !near(got, want, 1e-4) {
			x.Fail("angle", "angle of %v and %v is %g, must be %g", v, w, got, want)
		}
		po := v.ProjectOn(w)
		if vlen(vcross(po, w)) > 1e-9*(1+sc*sc) || math.Abs(vdot(vsub(Point(v), Point(po)), w)) > 1e-9*(1+sc*sc) {
			x.Fail("projection", "%v on %v is %v", v, w, po)
		}
	}
	if dt := vdot(v, w); math.Abs(dt) > 1e-9 && v.CodirectedWith(w) != (dt > 0) {
		x.Fail("vector", "codirected: %v, product %g", v.CodirectedWith(w), dt)
	}
	if !p.Equal(Point{p.X + 1e-8, p.Y - 1e-8, p.Z}) || p.Equal(Point{p.X, p.Y, p.Z + 1e-4}) || p.Equal(Point{p.X, p.Y + 1e-4, p.Z}) || p.Equal(Point{p.X - 1e-4, p.Y, p.Z}) {
		x.Fail("equal", "points are compared wrongly")
	}
	h := newHash().F(pr.X).F(pr.Y).F(pr.Z)
	x.State(h.Sum())
	x.Outcome(h.Sum())
}

// numbers
func c26Numbers(x *X) {
	e := x.Choose(9)
	k := x.Choose(401) - 200
	tie := x.Choose(3) // beside the middle between two integers
		v := float64(k) / math.Pow(10, float64(e)) * 1.25
	if tie > 0 {
		v = float64(k) + 0.5 + []float64{1, -1}[tie-1]*math.Pow(10, -float64(e)-2)
	} else if x.Bool() { // many digits before the point, too
		v += float64(k) * 1234.5
	}
	x.Begin(fmt.Sprintf("number %v", v))
	x.Op(4)
	for n := 0; n <= 8; n++ {
		if got := RoundPlaces(v, n); math.Abs(got-v) > 0.5*math.Pow(10, -float64(n))*(1+1e-9)+1e-15*math.Abs(v) || math.Abs(got*math.Pow(10, float64(n))-math.Round(got*math.Pow(10, float64(n)))) > 1e-6+1e-15*math.Abs(v)*math.Pow(10, float64(n)) {
			x.Fail("round", "%g rounded to %d places is %g", v, n, got)
		}
	}
	if got := Round(v); math.Abs(float64(got)-v) > 0.5+1e-12 {
		x.Fail("round", "%g rounded is %d", v, got)
	}
	if AlmostZero(v) != (math.Abs(v) < 1e-6) && math.Abs(math.Abs(v)-1e-6) > 1e-12 {
		x.Fail("zero", "%g almost zero: %v", v, AlmostZero(v))
	}
	if !near(ToRadians(v), v*math.Pi/180, 1e-12*(1+math.Abs(v))) {
		x.Fail("radians", "%g degrees are %g", v, ToRadians(v))
	}
	var back float64
	fmt.Sscanf(StrF(v), "%g", &back)
	if math.Abs(back-v) > 0.0005000001+1e-15*math.Abs(v) {
		x.Fail("text", "%g is written as %s", v, StrF(v))
	}
	if got := ParseFloat(StrF(v)); math.Abs(got-back) > 1e-6*(1+math.Abs(back)) {
		x.Fail("text", "%s is read as %g", StrF(v), got)
	}
	x.State(newHash().F(v).Sum())
	x.Outcome(newHash().F(v).Sum())
}

func init() {
	register(&Prop{ID: "C26", Level: "model_checking",
		Rule:   "all pairs of segments, all triangles and planes, all lines and points of integer grids; all numbers of a decimal grid",
		Models: []Model{{Name: "segments", Run: c26Segments}, {Name: "planes", Run: c26PlaneTriangle}, {Name: "points", Run: c26Points}, {Name: "numbers", Run: c26Numbers}}})
}
