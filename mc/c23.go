//go:build go1.22

package main

import (
	"fmt"
	"math"

	. "github.com/l1va/goosli/primitives"
)

// C23: what is inside, what is a hole, where the middle is.

type ipt struct{ x, y int }

func iorient(a, b, c ipt) int {
	v := (b.x-a.x)*(c.y-a.y) - (b.y-a.y)*(c.x-a.x)
	switch {
	case v > 0:
		return 1
	case v < 0:
		return -1
	}
	return 0
}

func ionseg(p, a, b ipt) bool {
	return iorient(a, b, p) == 0 && min(a.x, b.x) <= p.x && p.x <= max(a.x, b.x) && min(a.y, b.y) <= p.y && p.y <= max(a.y, b.y)
}

// do segments a-b and c-d share a point
func icross(a, b, c, d ipt) bool {
	if iorient(a, b, c)*iorient(a, b, d) < 0 && iorient(c, d, a)*iorient(c, d, b) < 0 {
		return true
	}
	return ionseg(a, c, d) || ionseg(b, c, d) || ionseg(c, a, b) || ionseg(d, a, b)
}

func isimple(ps []ipt) bool {
	n := len(ps)
	for i := range ps {
		a, b, c := ps[i], ps[(i+1)%n], ps[(i+2)%n]
		if a == b || iorient(a, b, c) == 0 && (b.x-a.x)*(c.x-b.x)+(b.y-a.y)*(c.y-b.y) < 0 {
			return false
		}
		for j := i + 2; j < n; j++ {
			if i == 0 && j == n-1 {
				continue
			}
			if icross(a, b, ps[j], ps[(j+1)%n]) {
				return false
			}
		}
	}
	return n > 2
}

// even-odd test of p against the polygon, on: p lies on it
func iinside(p ipt, ps []ipt) (in, on bool) {
	for i, a := range ps {
		b := ps[(i+1)%len(ps)]
		if ionseg(p, a, b) {
			return false, true
		}
		if (a.y > p.y) != (b.y > p.y) && (iorient(a, b, p) > 0) == (b.y > a.y) {
			in = !in
		}
	}
	return in, false
}

// a simple lattice polygon of n vertices, any start and direction
func latticePolygon(x *X, n, w, h int) []ipt {
	ps := make([]ipt, 0, n)
	for len(ps) < n {
		k := x.Choose(w * h)
		p := ipt{2 * (k % w), 2 * (k / w)}
		for _, q := range ps {
			if q == p {
				x.Prune()
			}
		}
		for i := 1; i+1 < len(ps); i++ { // the new edge may not cross the older ones
			if icross(ps[i-1], ps[i], ps[len(ps)-1], p) {
				x.Prune()
			}
		}
		ps = append(ps, p)
	}
	if !isimple(ps) {
		x.Prune()
	}
	return ps
}

type frame23 struct {
	name string
	up   bool // the projection on XY keeps the winding
	f    func(a, b float64) Point
}

func frames23() []frame23 {
	return []frame23{
		{"flat", true, func(a, b float64) Point { return Point{a, b, 0} }},
		{"high", true, func(a, b float64) Point { return Point{a*1.3 + 118.37, b*0.9 - 41.2, 203.15} }},
		{"inclined 60", true, func(a, b float64) Point { return rotPoint(Point{a - 3, b + 2, 5}, Point{}, AxisX, 60) }},
		{"turned and inclined", true, func(a, b float64) Point {
			return rotPoint(rotPoint(Point{a + 7, b, -2}, Point{1, 2, 3}, AxisX, -50), Point{}, AxisZ, 130)
		}},
		{"small", true, func(a, b float64) Point { return Point{a * 0.03, b * 0.03, 7} }},
		{"tiny", true, func(a, b float64) Point { return Point{a*0.006 + 1, b*0.006 - 2, 3} }},
		{"small, moved and inclined", true, func(a, b float64) Point { return rotPoint(Point{a*0.05 - 3, b*0.05 + 2, 5}, Point{}, AxisX, 60) }},
		{"big", true, func(a, b float64) Point { return Point{a*83 - 60, b*71 - 12, 1.5} }},
		{"upright", false, func(a, b float64) Point { return Point{a + 4, 11, b - 1} }},
		{"upright diagonal", false, func(a, b float64) Point { return rotPoint(Point{2, a - 1, b + 3}, Point{}, AxisZ, 35) }},
	}
}

func c23Polygons(x *X) {
	n := 3 + x.Choose(Tier(x, 4, 6))
	w, h := 3, 3
	if n < Tier(x, 5, 6) {
		w = 4
	}
	ps := latticePolygon(x, n, w, h)
	frs := frames23()
	k := x.Choose(len(frs))
	if n > Tier(x, 4, 5) && k != 0 && k != 3 && k != 6 {
		x.Prune()
	}
	fr := frs[k]
	x.Begin(fmt.Sprintf("polygon %v %s", ps, fr.name))
	c23Check(x, ps, fr, 2*w, 2*h, 1)
}

// contours of many vertices
func c23Large(x *X) {
	n := Pick(x, 12, 33, 64, 65, 100, 300, 1000)
	kind := Pick(x, "circle", "comb", "star", "spiral")
	frs := frames23()
	fr := frs[x.Choose(len(frs))]
	start := x.Choose(3)
	x.Begin(fmt.Sprintf("%s of %d, start %d, %s", kind, n, start, fr.name))
	var ps []ipt
	round := func(r, a float64) ipt { return ipt{int(math.Round(r * math.Cos(a))), int(math.Round(r * math.Sin(a)))} }
	switch kind {
	case "circle":
		for i := 0; i < n; i++ {
			ps = append(ps, round(float64(4*n+20), 2*math.Pi*float64(i)/float64(n)))
		}
	case "comb":
		for i := 0; i < n; i++ {
			ps = append(ps, ipt{4 * i, 2 + 7*(i%2) + i%5})
		}
		ps = append(ps, ipt{4*n - 4, 0}, ipt{0, 0})
	case "star":
		for i := 0; i < 2*n; i++ {
			ps = append(ps, round(float64(8*n+60)*(1-0.6*float64(i%2)), math.Pi*float64(i)/float64(n)))
		}
	case "spiral":
		for i := 0; i < n; i++ {
			ps = append(ps, round(20+float64(i), 0.41*float64(i)))
		}
		for i := n - 1; i >= 0; i-- {
			ps = append(ps, round(24+float64(i), 0.41*float64(i)))
		}
	}
	if !isimple(ps) {
		x.Prune()
	}
	k := start * len(ps) / 3
	ps = append(append([]ipt{}, ps[k:]...), ps[:k]...)
	lo, hi := ps[0], ps[0]
	for _, p := range ps {
		lo, hi = ipt{min(lo.x, p.x), min(lo.y, p.y)}, ipt{max(hi.x, p.x), max(hi.y, p.y)}
	}
	for i := range ps {
		ps[i].x, ps[i].y = ps[i].x-lo.x, ps[i].y-lo.y
	}
	c23Check(x, ps, fr, hi.x-lo.x, hi.y-lo.y, max(1, max(hi.x-lo.x, hi.y-lo.y)/15))
}

// the laws for the polygon ps; points of a grid are tested from -1,-1 to w,h
func c23Check(x *X, ps []ipt, fr frame23, w, h, step int) {
	n := len(ps)
	at := func(p ipt) Point { return fr.f(float64(p.x)*0.5, float64(p.y)*0.5) }
	var path Path
	area2, cx, cy := 0, 0, 0
	for i, p := range ps {
		q := ps[(i+1)%n]
		path.Points = append(path.Points, at(p))
		d := p.x*q.y - q.x*p.y
		area2 += d
		cx += (p.x + q.x) * d
		cy += (p.y + q.y) * d
	}
	if n > 2 && path.IsClosed() {
		x.Fail("closed", "an open path counts as closed")
	}
	if pair := (Path{Points: path.Points[:2]}); pair.IsClosed() || len(pair.Close().Points) != 3 || pair.Close().Points[2] != path.Points[0] {
		x.Fail("closed", "a pair of points is closed to %v", pair.Close().Points)
	}
	if one := (Path{Points: path.Points[:1]}); !one.IsClosed() || len(one.Close().Points) != 1 || len((Path{}).Close().Points) != 0 {
		x.Fail("closed", "a point is closed to %v", one.Close().Points)
	}
	open := append([]Point{}, path.Points...)
	x.Op(1)
	path = path.Close()
	if len(path.Points) != n+1 || path.Points[n] != path.Points[0] || !path.IsClosed() {
		x.Fail("closed", "closing %v gives %v", open, path.Points)
	}
	if again := path.Close(); len(again.Points) != n+1 {
		x.Fail("closed", "closing twice gives %d points", len(again.Points))
	}
	if fr.up { // the closing edge counts also when it is not written
		if o := (Path{Points: open}); o.IsWindingCW() != (area2 < 0) || o.IsHole() == (area2 < 0) {
			x.Fail("winding", "open path: clockwise is %v, area is %g", o.IsWindingCW(), float64(area2)/8)
		}
	}
	rev := path.Reverse()
	for i := range path.Points {
		if rev.Points[n-i] != path.Points[i] {
			x.Fail("reverse", "point %d of the reverse is %v", n-i, rev.Points[n-i])
		}
	}
	if !path.Equal(path) || path.Equal(rev) || !rev.Reverse().Equal(path) {
		x.Fail("equal", "a path must equal itself and the reverse of its reverse, not its reverse")
	}
	if fr.up {
		cw := area2 < 0
		if path.IsWindingCW() != cw || rev.IsWindingCW() == cw {
			x.Fail("winding", "clockwise is %v (reversed %v), area is %g", path.IsWindingCW(), rev.IsWindingCW(), float64(area2)/8)
		}
		if path.IsHole() == cw || path.IsSolid() != cw {
			x.Fail("winding", "clockwise %v, hole %v, solid %v", cw, path.IsHole(), path.IsSolid())
		}
	}
	size := 1.0 // rounding and noise grow with the contour
	for _, p := range path.Points {
		size = math.Max(size, dist(p, path.Points[0])/50)
	}
	want := fr.f(float64(cx)/float64(3*area2)*0.5, float64(cy)/float64(3*area2)*0.5)
	for _, p := range []Path{path, rev} {
		if got := FindCentroid(p); dist(got, want) > 1e-6*size {
			x.Fail("centroid", "centroid is %v, must be %v", got, want)
		}
	}
	// closed as exactly as joined sections are, which lie flat or inclined
	for _, e := range []Vector{{4e-7, -3e-7, 2e-7}, {-2e-7, -4e-7, 0}, {0, 0, -4e-7}} {
		if n > 8 && !fr.up {
			break
		}
		noisy := Path{Points: append([]Point{}, path.Points...)}
		noisy.Points[n] = vadd(noisy.Points[n], e)
		if got := FindCentroid(noisy); dist(got, want) > 1e-5*size {
			x.Fail("centroid", "centroid is %v, must be %v; the end is %v off the start", got, want, e)
		}
	}
	hh := newHash()
	for a := -1; a <= w; a += step {
		for b := -1; b <= h; b += step {
			in, on := iinside(ipt{a, b}, ps)
			if on {
				continue
			}
			x.Op(1)
			if got := at(ipt{a, b}).Inside(path); got != in {
				x.Fail("inside", "point (%d,%d) inside: %v, must be %v", a, b, got, in)
			}
			if got := at(ipt{a, b}).Inside(rev); got != in {
				x.Fail("inside", "point (%d,%d) inside the reversed path: %v, must be %v", a, b, got, in)
			}
			if in {
				hh.I(a).I(b)
			}
		}
	}
	x.State(hh.Sum())
	x.Outcome(hh.I(area2).Sum())
}

func c23Nested(x *X) {
	shapes := [][]ipt{
		{{0, 0}, {6, 0}, {6, 6}, {0, 6}},
		{{0, 0}, {6, 0}, {6, 6}, {4, 6}, {4, 2}, {2, 2}, {2, 6}, {0, 6}},
		{{0, 0}, {6, 2}, {2, 6}},
		{{0, 0}, {1, 0}, {1, 1}, {0, 1}},
		{{0, 0}, {2, 1}, {0, 2}, {1, 1}},
		{{0, 3}, {3, 0}, {6, 3}, {3, 6}},
	}
	a := x.Choose(len(shapes))
	b := x.Choose(len(shapes))
	dx, dy := x.Choose(10)-2, x.Choose(10)-2
	flip := x.Choose(4)
	start := x.Choose(3)
	x.Begin(fmt.Sprintf("shape %d moved by %d,%d in shape %d, reversed %d start %d", a, dx, dy, b, flip, start))
	mk := func(k, dx, dy int, rev bool) ([]ipt, Path) {
		var r []ipt
		for i := range shapes[k] {
			j := (i + start) % len(shapes[k])
			if rev {
				j = len(shapes[k]) - 1 - j
			}
			r = append(r, ipt{shapes[k][j].x + dx, shapes[k][j].y + dy})
		}
		var p Path
		for _, q := range append(r, r[0]) {
			p.Points = append(p.Points, Point{float64(q.x)*1.5 + 20, float64(q.y)*1.5 - 7, 12.4})
		}
		return r, p
	}
	ia, pa := mk(a, dx, dy, flip&1 != 0)
	ib, pb := mk(b, 0, 0, flip&2 != 0)
	for i := range ia {
		for j := range ib {
			if icross(ia[i], ia[(i+1)%len(ia)], ib[j], ib[(j+1)%len(ib)]) {
				x.Op(1)
				if pa.IsInside(pb) || pb.IsInside(pa) {
					x.Fail("crossing", "crossing contours count as nested")
				}
				x.Outcome(1)
				return
			}
		}
	}
	x.Op(1)
	ab, _ := iinside(ia[0], ib)
	ba, _ := iinside(ib[0], ia)
	if got := pa.IsInside(pb); got != ab {
		x.Fail("nested", "first in second: %v, must be %v", got, ab)
	}
	if got := pb.IsInside(pa); got != ba {
		x.Fail("nested", "second in first: %v, must be %v", got, ba)
	}
	x.State(newHash().I(a).I(b).I(dx).I(dy).Sum())
	x.Outcome(newHash().I(a).I(b).I(dx).I(dy).Sum())
}

// sections of solids: outer contours are solid, holes are holes, centroids are those of the area
func c23Sections(x *X) {
	all := shapes()
	s := all[x.Choose(len(all))]
	k := x.Choose(5)
	x.Begin(fmt.Sprintf("sections of %s at %d/6", s.name, k+1))
	lo, hi := minmax(s.ts, AxisZ)
	z := lo + (hi-lo)*(float64(k)+0.973)/6
	x.Op(1)
	l := Plane{Point{0, 0, z}, AxisZ}.IntersectMesh(meshOf(s.ts))
	sec := sectionChain(s.ts, AxisZ, z, 0)
	nt := 0
	for _, p := range l.Paths {
		if len(p.Points) < 4 || math.Abs(signedAreaXY(p.Points)) < 1e-3 || !simpleLoops([][]Point{openLoop(p)}, 1e-6) {
			continue
		}
		nt++
		// the winding of the solid just outside of the contour tells what it is
		a, b := p.Points[0], p.Points[1]
		best := 0.0
		for i := 1; i < len(p.Points); i++ {
			if d := dist(p.Points[i-1], p.Points[i]); d > best {
				best, a, b = d, p.Points[i-1], p.Points[i]
			}
		}
		m := lerp(a, b, 0.4873)
		u := vunit(vsub(b, a))
		l, r := windingXY(sec, m.X-u.Y*1e-4, m.Y+u.X*1e-4), windingXY(sec, m.X+u.Y*1e-4, m.Y-u.X*1e-4)
		if (l != 0) == (r != 0) {
			continue // an inner contact
		}
		lin, _ := iin(Point{m.X - u.Y*1e-4, m.Y + u.X*1e-4, z}, p)
		hole := (l != 0) != lin // material is not inside
		if p.IsHole() != hole {
			x.Fail("hole", "contour %v of the section at %g: hole is %v, must be %v", clip(fmt.Sprint(p.Points), 120), z, p.IsHole(), hole)
		}
	}
	x.State(newHash().S(s.name).I(nt).I(k).Sum())
	x.Outcome(newHash().S(s.name).I(nt).Sum())
}

// even-odd
func iin(p Point, c Path) (in, on bool) {
	for i := 1; i < len(c.Points); i++ {
		a, b := c.Points[i-1], c.Points[i]
		if (a.Y > p.Y) != (b.Y > p.Y) && (vcross(vsub(b, a), vsub(p, a)).Z > 0) == (b.Y > a.Y) {
			in = !in
		}
	}
	return in, false
}

func init() {
	register(&Prop{ID: "C23", Level: "model_checking",
		Rule:   "every simple polygon of 3 to 6 (8) vertices of a 3x3 or 4x3 grid with every start and direction x frame x every point of the half grid; pairs of nested shapes; sections of the catalogue",
		Models: []Model{{Name: "polygons", Run: c23Polygons}, {Name: "large", Run: c23Large}, {Name: "nested", Run: c23Nested}, {Name: "sections", Run: c23Sections}}})
}
