//go:build go1.22

package main

import (
	"fmt"
	"math"
	"os"
	"path/filepath"

	"github.com/l1va/goosli/helpers"
	. "github.com/l1va/goosli/primitives"
	"github.com/l1va/goosli/slicers"
)

// C17: overhangs are found exactly.

func angleBetween(a, b Vector) float64 {
	return math.Atan2(vlen(vcross(a, b)), vdot(a, b)) * 180 / math.Pi
}

// directions with integer coordinates up to k, without multiples
func directions(k int) []Vector {
	var r []Vector
	for a := -k; a <= k; a++ {
		for b := -k; b <= k; b++ {
			for c := -k; c <= k; c++ {
				if gcd(gcd(abs(a), abs(b)), abs(c)) == 1 {
					r = append(r, Vector{float64(a), float64(b), float64(c)})
				}
			}
		}
	}
	return r
}

func abs(a int) int {
	if a < 0 {
		return -a
	}
	return a
}

// a triangle around p with normal in direction n
func facing(n Vector, p Point, size float64, turn int) tri {
	u := Vector{1, 0, 0}
	if math.Abs(n.X) > math.Abs(n.Y) {
		u = Vector{0, 1, 0}
	}
	a := vunit(vcross(n, u))
	b := vunit(vcross(n, a))
	pt := func(deg float64) Point {
		c, s := math.Cos(deg*math.Pi/180), math.Sin(deg*math.Pi/180)
		return vadd(p, vmul(vadd2(vmul(a, c), vmul(b, s)), size))
	}
	t := tri{pt(10), pt(130), pt(265)}
	return tri{t[turn%3], t[(turn+1)%3], t[(turn+2)%3]}
}

func vadd2(a, b Vector) Vector { return Vector{a.X + b.X, a.Y + b.Y, a.Z + b.Z} }

// marked: 1 must be marked, 0 must not, -1 on the limit
func marked(n Vector, angle float64, v Vector) int {
	a := angleBetween(n, vmul(v, -1))
	switch {
	case vlen(n) == 0: // looks nowhere
		return 0
	case near(a, 90-angle, 1e-5):
		return -1
	case a < 90-angle:
		return 1
	}
	return 0
}

func c17Colors(x *X) {
	dirs := directions(Tier(x, 3, 5))
	vs := directions(1)
	v := vs[x.Choose(len(vs))]
	angle := Pick(x, 0.0, 1, 10, 30, 44.9, 45.1, 60, 89, 90)
	size := Pick(x, 1.0, 0.004, 300)
	vl := Pick(x, 1.0, 0.1, 7)
	place := Pick(x, Point{0, 0, 0}, Point{-120, 80, 33})
	via := x.Choose(2) // library, command line tool
	if via == 1 && (size == 0.004 || v.X != 0 && v.Y != 0 && v.Z != 0) {
		x.Prune()
	}
	v = vmul(v, vl)
	x.Begin(fmt.Sprintf("colors: direction %v, angle %g, triangles of size %g at %v, via %d", v, angle, size, rp(place), via))
	var ts []tri
	for i, d := range dirs {
		ts = append(ts, facing(d, vadd(place, Vector{float64(i % 7), float64(i % 5), float64(i % 3)}), size, i))
	}
	for i, d := range dirs { // without area
		if t := facing(d, place, size, i); i%5 == 0 {
			t[(i+1)%3] = t[i%3]
			if i%10 == 0 {
				t[(i+2)%3] = t[i%3]
			}
			ts = append(ts, t)
		}
	}
	m := meshOf(ts)
	var got []bool
	x.Op(1)
	if via == 0 {
		got = helpers.ColorizeTriangles(*m, angle, v)
		var want []Triangle
		for i, c := range got {
			if c {
				want = append(want, m.Triangles[i])
			}
		}
		x.Op(1)
		if fs := helpers.FilterTrianglesByColor(*m, angle, v); dumpTris(fs) != dumpTris(want) {
			x.Fail("filter", "filtered triangles are not the marked ones: %d, must be %d", len(fs), len(want))
		}
	} else {
		dir := filepath.Join(x.Scratch, "color")
		os.MkdirAll(dir, 0755)
		copyData(dir)
		must(SaveSTL(filepath.Join(dir, "m.stl"), m))
		ts = round32(ts)
		code, out := runCLI(dir, -1, "goosli_colorizer", "-s", "m.stl", "-o", "c.bin", "-a", fmt.Sprint(angle),
			fmt.Sprintf("--normali=%g", v.X), fmt.Sprintf("--normalj=%g", v.Y), fmt.Sprintf("--normalk=%g", v.Z))
		if code != 0 {
			x.Fail("exit", "colorizer exits with %d: %s", code, clip(out, 200))
		}
		b, err := os.ReadFile(filepath.Join(dir, "c.bin"))
		must(err)
		for _, c := range b {
			if c > 1 {
				x.Fail("file", "byte %d in the file of the colorizer", c)
			}
			got = append(got, c == 1)
		}
	}
	if len(got) != len(ts) {
		x.Fail("count", "%d marks for %d triangles", len(got), len(ts))
	}
	h := newHash()
	for i, t := range ts {
		w := marked(t.normal(), angle, v)
		if w >= 0 && got[i] != (w == 1) {
			if via == 1 && near(angleBetween(t.normal(), vmul(v, -1)), 90-angle, 1e-2) {
				continue
			}
			x.Fail("mark", "triangle %d with normal %v at %.4f degrees from the opposite of %v is marked %v with angle %g", i, vunit(t.normal()), angleBetween(t.normal(), vmul(v, -1)), v, got[i], angle)
		}
		if got[i] {
			h.I(i)
		}
	}
	x.State(h.Sum())
	x.Outcome(h.Sum())
}

// CalculateFails: two layers, the upper one moved and scaled
func c17Fails(x *X) {
	n := Pick(x, 4, 7, 16, 24)
	phase := Pick(x, 0.0, 0.2)
	h := Pick(x, 0.2, 1.0)
	steps := Tier(x, 24, 72)
	dirStep := x.Choose(steps)
	over := Pick(x, 0.0, 0.5, 0.75, 0.95, 1.3, 3, 12) // overhang in units of the limit h*tan(40)
	grow := Pick(x, 1.0, 0.8)
	at := Pick(x, Point{0, 0, 0}, Point{-70, 45, 0}, Point{13, -200, 0})
	layout := Pick(x, "one", "hole", "second", "nested", "nested2", "many")
	start := x.Choose(Tier(x, 2, 3))
	R := 10.0
	x.Begin(fmt.Sprintf("fails: %d-gon phase %g, step %g, moved to %d/%d of a turn by %g of the limit, scaled by %g, at %v, %s, start %d", n, phase, h, dirStep, steps, over, grow, rp(at), layout, start))
	deg := 360*float64(dirStep)/float64(steps) + 1.7 // not on the measured directions
	d := vmul(Vector{math.Cos(deg * math.Pi / 180), math.Sin(deg * math.Pi / 180), 0}, over*h*math.Tan(40*math.Pi/180))
	contour := func(c Point, r, z float64, hole bool) Path {
		g := ngon(n, r, phase)
		var p Path
		for i := 0; i <= n; i++ {
			k := (start*3 + n - i%n) % n // clockwise
			if hole {
				k = (start*3 + i) % n
			}
			p.Points = append(p.Points, Point{c.X + g[k].X, c.Y + g[k].Y, z})
		}
		return p
	}
	z0 := 5.3
	cur := vadd(at, d)
	a := Layer{Norm: AxisZ, Paths: []Path{contour(at, R, z0, false)}}
	b := Layer{Norm: AxisZ, Paths: []Path{contour(cur, R*grow, z0+h, false)}}
	switch layout {
	case "hole":
		a.Paths = append([]Path{contour(at, 2, z0, true)}, a.Paths...)
		b.Paths = append(b.Paths, contour(cur, 1.5, z0+h, true))
	case "nested", "nested2": // a ring around
		big := []Path{contour(at, 30, z0, false), contour(at, 22, z0, true)}
		big2 := []Path{contour(at, 30, z0+h, false), contour(at, 22, z0+h, true)}
		a.Paths = append(big, a.Paths...)
		if layout == "nested" {
			b.Paths = append(big2, b.Paths...)
		} else {
			b.Paths = append(b.Paths, big2...)
		}
	case "many": // the last of several bodies
		for i := 0; i < 6; i++ {
			o := vadd(at, vmul(vecAt(float64(i)*60+7), 45))
			a.Paths = append([]Path{contour(o, 4, z0, false)}, a.Paths...)
			b.Paths = append([]Path{contour(o, 4, z0+h, false)}, b.Paths...)
		}
	case "second":
		far := vadd(at, Vector{60, 35, 0})
		a.Paths = append([]Path{contour(far, 4, z0, false)}, a.Paths...)
		b.Paths = append([]Path{contour(far, 4, z0+h, false)}, b.Paths...)
	}
	// reference: in every direction, how far the upper contour is out of the lower one, seen from its center
	P, C := a.Paths[len(a.Paths)-1], b.Paths[0]
	if layout == "second" || layout == "nested" || layout == "many" {
		C = b.Paths[len(b.Paths)-1]
	}
	worst := math.Inf(-1)
	sx, sy := 0.0, 0.0
	cnt := 0
	out := [36]bool{}
	limit := 40.0
	for i := 0; i < 36; i++ {
		u := vecAt(float64(i) * 10)
		rp, rc := rayOut(cur, u, P), rayOut(cur, u, C)
		if math.IsNaN(rp) || math.IsNaN(rc) {
			x.Prune()
		}
		ang := math.Atan2(rc-rp, h) * 180 / math.Pi
		worst = math.Max(worst, ang)
		if near(ang, limit, 0.5) {
			x.Trivial()
			return // too near to the limit
		}
		if ang > limit {
			sx, sy = sx+u.X, sy+u.Y
			cnt++
			out[i] = true
		}
	}
	// the directions in which it hangs over lie in an arc from first to last
	first, arc := 0, 360
	runs := 0
	for i := range out {
		if out[i] && !out[(i+35)%36] {
			runs++
			for w := 35; w > 0; w-- {
				if out[(i+w)%36] {
					if w*10 < arc {
						first, arc = i*10, w*10
					}
					break
				}
			}
		}
	}
	astray := func(v Vector) float64 { // degrees from the middle, in case of several sectors from the arc
		if runs < 2 {
			return angleBetween(v, Vector{sx, sy, 0})
		}
		return angleBetween(v, vecAt(float64(first)+float64(arc)/2)) - float64(arc)/2
	}
	tol := 2.0
	x.Op(1)
	pl := slicers.CalculateFails(a, b)
	hh := newHash().I(cnt)
	if pl == nil {
		if cnt > 0 {
			x.Fail("missed", "no cutting plane, but the contour hangs over by %.2f degrees in %d directions", worst, cnt)
		}
		x.State(hh.Sum())
		return
	}
	hh.F(pl.N.X).F(pl.N.Y).F(pl.P.X)
	x.State(hh.Sum())
	x.Outcome(hh.Sum())
	if cnt == 0 {
		x.Fail("false", "cutting plane %v %v, but the steepest overhang has %.2f degrees", pl.P, pl.N, worst)
	}
	if a := angleBetween(pl.N, AxisZ); !near(a, 60, 1e-6) {
		x.Fail("tilt", "cutting plane is inclined by %.4f degrees, must be 60", a)
	}
	if math.Hypot(sx, sy) < 0.5 || cnt > 17 || runs > 1 && arc > 170 {
		x.Trivial() // it hangs over on all sides, there is no direction
		return
	}
	if astray(Vector{pl.N.X, pl.N.Y, 0}) > tol {
		x.Fail("direction", "cutting plane leans to %.1f degrees, the overhang is at %.1f", math.Atan2(pl.N.Y, pl.N.X)*180/math.Pi, math.Atan2(sy, sx)*180/math.Pi)
	}
	if dd := distToSegs(pl.P, pathSegs([]Path{P})); dd > 1e-6 {
		x.Fail("point", "cutting plane goes through %v, which is %.6g mm from the contour of the layer below", rp(pl.P), dd)
	}
	if a := astray(vsub(Point{pl.P.X, pl.P.Y, 0}, Point{cur.X, cur.Y, 0})); a > tol {
		x.Fail("point", "cutting plane goes through %v, which is not on the side of the overhang: %.2f degrees from it", rp(pl.P), a)
	}
}

// the upper contour is not over the lower one at all, or only just
func c17Away(x *X) {
	n := Pick(x, 3, 4, 7, 16, 24)
	m := Pick(x, 4, 9, 20)
	h := Pick(x, 0.2, 1.0, 3.7)
	steps := Tier(x, 36, 120)
	dirStep := x.Choose(steps)
	far := Pick(x, 1.3, 2.05, 3, 9)
	r := Pick(x, 10.0, 2.0, 31.0)
	at := Pick(x, Point{0, 0, 0}, Point{-70, 45, 0}, Point{13, -200, 0})
	x.Begin(fmt.Sprintf("away: %d-gon over %d-gon, step %g, moved to %d/%d of a turn by %g radiuses, radius %g, at %v", m, n, h, dirStep, steps, far, r, rp(at)))
	u := vecAt(360*float64(dirStep)/float64(steps) + 1.7)
	contour := func(k int, c Point, r, z float64) (p Path) {
		g := ngon(k, r, 0.23)
		for i := 0; i <= k; i++ {
			q := g[(k-i)%k]
			p.Points = append(p.Points, Point{c.X + q.X, c.Y + q.Y, z})
		}
		return
	}
	P, C := contour(n, at, 10, 1.1), contour(m, vadd(at, vmul(u, far*10)), r, 1.1+h)
	if far < 2 && n < 7 {
		x.Prune() // the centre may still be over the lower one
	}
	x.Op(1)
	pl := slicers.CalculateFails(Layer{Norm: AxisZ, Paths: []Path{P}}, Layer{Norm: AxisZ, Paths: []Path{C}})
	if pl == nil {
		x.Fail("missed", "no cutting plane, but the upper contour stands in the air")
	}
	if a := angleBetween(pl.N, AxisZ); !near(a, 60, 1e-6) {
		x.Fail("tilt", "cutting plane is inclined by %.4f degrees, must be 60", a)
	}
	if a := angleBetween(Vector{pl.N.X, pl.N.Y, 0}, u); a > 2 {
		x.Fail("direction", "cutting plane leans to %.1f degrees, the overhang is at %.1f", math.Atan2(pl.N.Y, pl.N.X)*180/math.Pi, math.Atan2(u.Y, u.X)*180/math.Pi)
	}
	if dd := distToSegs(pl.P, pathSegs([]Path{P})); dd > 1e-6 {
		x.Fail("point", "cutting plane goes through %v, which is %.6g mm from the contour of the layer below", rp(pl.P), dd)
	}
	if a := angleBetween(vsub(Point{pl.P.X, pl.P.Y, 0}, Point{at.X, at.Y, 0}), u); a > 2 {
		x.Fail("point", "cutting plane goes through %v, which is not on the side of the overhang: %.2f degrees from it", rp(pl.P), a)
	}
	hh := newHash().F(pl.N.X).F(pl.N.Y).F(pl.P.X)
	x.State(hh.Sum())
	x.Outcome(hh.Sum())
}

// convex contours of different shape
func c17Unlike(x *X) {
	fam := [][]Point{
		{{-5, -5, 0}, {-5, 5, 0}, {5, 5, 0}, {5, -5, 0}},
		{{-9, -1, 0}, {-9, 1, 0}, {9, 1, 0}, {9, -1, 0}},
		{{-4, -4, 0}, {-3, 8, 0}, {7, -2, 0}},
		{{-6, 0, 0}, {-2, 5, 0}, {3, 4, 0}, {6, -1, 0}, {0, -6, 0}},
		{{-0.6, -7, 0}, {-1.1, 6, 0}, {0.4, 6, 0}, {0.9, -7, 0}},
	}
	i, j := x.Choose(len(fam)), x.Choose(len(fam))
	t := x.Choose(Tier(x, 6, 18))
	sc := Pick(x, 1.0, 0.4, 1.9)
	h := Pick(x, 0.2, 1.0, 3.1)
	steps := Tier(x, 12, 36)
	dirStep := x.Choose(steps)
	far := Pick(x, 0.0, 0.3, 1.1, 2.7)
	if far == 0 && dirStep > 0 {
		x.Prune()
	}
	big := Pick(x, 1.0, 5.0)
	x.Begin(fmt.Sprintf("unlike: contour %d turned %d scaled %g over contour %d, step %g, moved by %g to %d/%d, all times %g", j, t, sc, i, h, far, dirStep, steps, big))
	mk := func(k int, f func(Point) Point) (p Path) {
		for n := 0; n <= len(fam[k]); n++ {
			p.Points = append(p.Points, f(fam[k][n%len(fam[k])]))
		}
		return
	}
	d := vmul(vecAt(360*float64(dirStep)/float64(steps)+4.4), far)
	P := mk(i, func(p Point) Point { return Point{p.X*big + 3, p.Y*big - 40, 2} })
	C := mk(j, func(p Point) Point {
		q := rotPoint(Point{p.X * sc, p.Y * sc, 0}, Point{}, AxisZ, float64(t)*19.3+2.2)
		return Point{(q.X+d.X)*big + 3, (q.Y+d.Y)*big - 40, 2 + h}
	})
	a, b := Layer{Norm: AxisZ, Paths: []Path{P}}, Layer{Norm: AxisZ, Paths: []Path{C}}
	x.Op(1)
	pl := slicers.CalculateFails(a, b)
	if !failKnown(x, a, b, pl) {
		x.Trivial()
	}
	hh := newHash()
	if pl != nil {
		hh.F(pl.N.X).F(pl.N.Y).F(pl.P.X).F(pl.P.Y)
		if a := angleBetween(pl.N, AxisZ); !near(a, 60, 1e-6) {
			x.Fail("tilt", "cutting plane is inclined by %.4f degrees, must be 60", a)
		}
		if dd := distToSegs(pl.P, pathSegs([]Path{P})); dd > 1e-6 {
			x.Fail("point", "cutting plane goes through %v, which is %.6g mm from the contour of the layer below", rp(pl.P), dd)
		}
	}
	x.State(hh.Sum())
	x.Outcome(hh.Sum())
}

// concave contours, thin ones, and the centroid outside of them
func c17Concave(x *X) {
	shapes := [][]Point{
		{{0, 0, 0}, {0, 20, 0}, {4, 20, 0}, {4, 4, 0}, {16, 4, 0}, {16, 20, 0}, {20, 20, 0}, {20, 0, 0}},                                                 // U
		{{0, 0, 0}, {0, 18, 0}, {5, 18, 0}, {5, 5, 0}, {14, 5, 0}, {14, 0, 0}},                                                                           // L
		{{0, 0, 0}, {0, 18, 0}, {0.5, 18, 0}, {0.5, 0.6, 0}, {14, 0.6, 0}, {14, 0, 0}},                                                                   // thin L
		{{0, 0, 0}, {0, 0.5, 0}, {30, 0.5, 0}, {30, 0, 0}},                                                                                               // thin wall
		{{0, 0, 0}, {0, 4, 0}, {8, 4, 0}, {8, 12, 0}, {0, 12, 0}, {0, 16, 0}, {12, 16, 0}, {12, 0, 0}},                                                   // C
		{{6, 0, 0}, {6, 6, 0}, {0, 6, 0}, {0, 10, 0}, {6, 10, 0}, {6, 16, 0}, {10, 16, 0}, {10, 10, 0}, {16, 10, 0}, {16, 6, 0}, {10, 6, 0}, {10, 0, 0}}, // plus
		{{0, 0, 0}, {4, 9, 0}, {0, 18, 0}, {22, 9, 0}},                                                                                                   // arrow
	}
	k := x.Choose(len(shapes))
	names := []string{"U", "L", "thin L", "thin wall", "C", "plus", "arrow"}
	g := shapes[k]
	start := x.Choose(Tier(x, 4, 12))
	start2 := x.Choose(Tier(x, 4, 12))
	if start >= len(g) || start2 >= len(g) {
		x.Prune()
	}
	h := Pick(x, 0.2, 1.0)
	turn := x.Choose(Tier(x, 5, 12))
	steps := Tier(x, 8, 16)
	dirStep := x.Choose(steps)
	over := Pick(x, 0.0, 0.3, 0.8, 1.4, 5)
	grow := Pick(x, 1.0, 0.97, 1.004)
	deg := 360*float64(dirStep)/float64(steps) + 1.7
	if over == 0 && dirStep > 0 {
		x.Prune()
	}
	x.Begin(fmt.Sprintf("concave: %s turned %d, step %g, moved to %g degrees by %g of the limit, scaled by %g, start %d and %d", names[k], turn, h, deg, over, grow, start, start2))
	c := loopCentroid(append(append([]Point{}, g...), g[0]))
	d := vmul(vecAt(deg), over*h*math.Tan(40*math.Pi/180))
	contour := func(f float64, sh Vector, z float64, st int) Path {
		var p Path
		for i := range g {
			q := g[(i+st)%len(g)]
			q = rotPoint(vadd(c, vmul(vsub(q, c), f)), c, AxisZ, float64(turn)*29.3)
			q = vadd(q, sh)
			q.Z = z
			p.Points = append(p.Points, q)
		}
		p.Points = append(p.Points, p.Points[0])
		return p
	}
	P, C := contour(1, Vector{}, 3.3, start), contour(grow, d, 3.3+h, start2)
	cur := vadd(c, d)
	cnt := 0
	sx, sy := 0.0, 0.0
	worst := math.Inf(-1)
	for i := 0; i < 36; i++ {
		u := vecAt(float64(i) * 10)
		var reach [2]float64
		for m, q := range []Path{P, C} {
			reach[m] = rayFar(cur, u, q)
			for _, e := range []Vector{{0.003, 0, 0}, {-0.003, 0, 0}, {0, 0.003, 0}, {0, -0.003, 0}} {
				r := rayFar(vadd(cur, e), u, q)
				if math.IsNaN(r) != math.IsNaN(reach[m]) || math.Abs(r-reach[m]) > 0.05 {
					x.Prune() // along a border or over a corner
				}
			}
			if math.Abs(reach[m]) < 2*vlen(d)+0.05 {
				x.Prune()
			}
		}
		if math.IsNaN(reach[0]) || math.IsNaN(reach[1]) {
			continue
		}
		ang := math.Atan2(reach[1]-reach[0], h) * 180 / math.Pi
		worst = math.Max(worst, ang)
		if near(ang, 40, 0.5) {
			x.Prune()
		}
		if ang > 40 {
			cnt++
			sx, sy = sx+u.X, sy+u.Y
		}
	}
	x.Op(1)
	pl := slicers.CalculateFails(Layer{Norm: AxisZ, Paths: []Path{P}}, Layer{Norm: AxisZ, Paths: []Path{C}})
	hh := newHash().I(cnt)
	w := []float64{4, 5, 0.5, 0.5, 4, 4, 4}[k]
	over0 := vlen(d)+math.Abs(grow-1)*18 > w/2 // moved so far that there may be no contour below
	switch {
	case pl == nil && cnt > 0:
		if u := vunit(Vector{sx, sy, 0}); !over0 && cnt < 9 && math.Hypot(sx, sy) > float64(cnt)*0.9 && !math.IsNaN(rayFar(cur, u, P)) {
			x.Fail("missed", "no cutting plane, but the contour hangs over by %.2f degrees in %d directions", worst, cnt)
		}
	case pl != nil:
		hh.F(pl.N.X).F(pl.N.Y).F(pl.P.X)
		if cnt == 0 && !over0 {
			x.Fail("false", "cutting plane %v %v, but the steepest overhang has %.2f degrees", pl.P, pl.N, worst)
		}
		if a := angleBetween(pl.N, AxisZ); !near(a, 60, 1e-6) {
			x.Fail("tilt", "cutting plane is inclined by %.4f degrees, must be 60", a)
		}
		if dd := distToSegs(pl.P, pathSegs([]Path{P})); dd > 1e-6 {
			x.Fail("point", "cutting plane goes through %v, which is %.6g mm from the contour of the layer below", rp(pl.P), dd)
		}
	}
	x.State(hh.Sum())
	x.Outcome(hh.Sum())
}

// rayFar: distance from c along u to the farthest point of the closed path p
func rayFar(c Point, u Vector, p Path) float64 {
	best := math.NaN()
	for i := 1; i < len(p.Points); i++ {
		a, b := vsub(p.Points[i-1], c), vsub(p.Points[i], c)
		ca, cb := u.X*a.Y-u.Y*a.X, u.X*b.Y-u.Y*b.X
		if ca*cb > 0 || ca == cb {
			continue
		}
		q := lerp(p.Points[i-1], p.Points[i], ca/(ca-cb))
		if r := (q.X-c.X)*u.X + (q.Y-c.Y)*u.Y; r > 0 && !(r < best) {
			best = r
		}
	}
	return best
}

// rayOut: distance from c along u to the convex closed path p
func rayOut(c Point, u Vector, p Path) float64 {
	for i := 1; i < len(p.Points); i++ {
		a, b := vsub(p.Points[i-1], c), vsub(p.Points[i], c)
		ca, cb := u.X*a.Y-u.Y*a.X, u.X*b.Y-u.Y*b.X
		if ca*cb > 0 || ca == cb {
			continue
		}
		q := lerp(p.Points[i-1], p.Points[i], ca/(ca-cb))
		if r := (q.X-c.X)*u.X + (q.Y-c.Y)*u.Y; r > 0 {
			return r
		}
	}
	return math.NaN()
}

func init() {
	register(&Prop{ID: "C17", Level: "model_checking",
		Rule:   "all normals of an integer grid x directions x angles x sizes; all pairs of layers of the families (alike, unlike, concave, nested, one away from the other) x direction and amount of the overhang",
		Models: []Model{{Name: "colors", Run: c17Colors}, {Name: "fails", Run: c17Fails}, {Name: "concave", Run: c17Concave}, {Name: "away", Run: c17Away}, {Name: "unlike", Run: c17Unlike}}})
}
