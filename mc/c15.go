//go:build go1.22

package main

import (
	"fmt"
	"math"
	"os"
	"path/filepath"

	"github.com/l1va/goosli/helpers"
	. "github.com/l1va/goosli/primitives"
	"github.com/l1va/goosli/slicers"
	"github.com/l1va/goosli/slicers/vip"
)

// C15: walls are insets of the contours and skirt loops are outsets of them, one line
// width apart.  The reference is a mitred offset with edge events (an edge that shrinks
// to nothing disappears and its neighbours meet), simulated event by event.

// refOffset offsets the polygon to its left (seen against +Z) by d; ok=false when it
// vanishes or when the answer is ill-conditioned.
func refOffset(ps []Point, d float64) (res []Point, ok bool) {
	res, ok, _ = refOffsetEv(ps, d)
	return
}

// refOffsetEv also tells whether a vanished edge left a corner sharper than its miter limit allows.
func refOffsetEv(ps []Point, d float64) (res []Point, ok, sharp bool) {
	rev := func(l []Point) []Point {
		var r []Point
		for i := range l {
			r = append(r, l[len(l)-1-i])
		}
		return r
	}
	if d < 0 {
		r, ok, sharp := refOffsetEv(rev(ps), -d)
		return rev(r), ok, sharp
	}
	type edge struct {
		p Point  // a point of the line at time 0
		u Vector // direction
		m Vector // left normal
	}
	var es []edge
	for i := range ps {
		a, b := ps[i], ps[(i+1)%len(ps)]
		if dist(a, b) < 1e-9 {
			continue
		}
		u := vunit(vsub(b, a))
		es = append(es, edge{a, u, Vector{X: -u.Y, Y: u.X}})
	}
	// join collinear neighbours
	for i := 0; i < len(es) && len(es) > 2; {
		j := (i + 1) % len(es)
		if math.Abs(vcross(es[i].u, es[j].u).Z) < 1e-9 && vdot(es[i].u, es[j].u) > 0 {
			es = append(es[:j], es[j+1:]...)
			if j < i {
				i--
			}
			continue
		}
		i++
	}
	vertex := func(i int, t float64) (Point, bool) { // intersection of line i and i+1 at time t
		a, b := es[i], es[(i+1)%len(es)]
		cr := vcross(a.u, b.u).Z
		if math.Abs(cr) < 1e-7 {
			return Point{}, false
		}
		pa, pb := vadd(a.p, vmul(a.m, t)), vadd(b.p, vmul(b.m, t))
		s := vcross(vsub(pb, pa), b.u).Z / cr
		return vadd(pa, vmul(a.u, s)), true
	}
	t := 0.0
	for {
		n := len(es)
		if n < 3 {
			return nil, false, sharp
		}
		best, bi := math.Inf(1), -1
		for i := range es {
			h := (i + n - 1) % n
			a0, ok1 := vertex(h, t)
			b0, ok2 := vertex(i, t)
			a1, _ := vertex(h, t+1)
			b1, _ := vertex(i, t+1)
			if !ok1 || !ok2 {
				return nil, false, sharp
			}
			l0, l1 := vdot(vsub(b0, a0), es[i].u), vdot(vsub(b1, a1), es[i].u)
			if l1 < l0-1e-12 {
				if tt := t + math.Max(0, l0)/(l0-l1); tt < best {
					best, bi = tt, i
				}
			}
		}
		if math.Abs(best-d) < 1e-4 {
			return nil, false, sharp
		}
		if best > d {
			break
		}
		t = best
		es = append(es[:bi:bi], es[bi+1:]...)
		u, v := es[(bi+len(es)-1)%len(es)].u, es[bi%len(es)].u
		if th := math.Atan2(vcross(u, v).Z, vdot(u, v)); d*math.Tan(math.Abs(th)/2) > 1.9 {
			sharp = true
		}
	}
	for i := range es {
		p, ok := vertex((i+len(es)-1)%len(es), d)
		if !ok {
			return nil, false, sharp
		}
		p.Z = ps[0].Z
		res = append(res, p)
	}
	return res, true, sharp
}

func segsCross(a, b, c, d Point, eps float64) bool {
	o := func(p, q, r Point) float64 { return vcross(vsub(q, p), vsub(r, p)).Z / math.Max(1e-9, dist(p, q)) }
	o1, o2, o3, o4 := o(a, b, c), o(a, b, d), o(c, d, a), o(c, d, b)
	return (o1 > -eps && o2 < eps || o1 < eps && o2 > -eps) && (o3 > -eps && o4 < eps || o3 < eps && o4 > -eps)
}

// simple: no two non-adjacent edges of the loops come closer than eps.
func simpleLoops(ls [][]Point, eps float64) bool {
	type e struct {
		a, b Point
		l, i int
		n    int
	}
	var es []e
	for li, l := range ls {
		for i := range l {
			es = append(es, e{l[i], l[(i+1)%len(l)], li, i, len(l)})
		}
	}
	for i := range es {
		for j := 0; j < i; j++ {
			p, q := es[i], es[j]
			if p.l == q.l && ((p.i+1)%p.n == q.i || (q.i+1)%p.n == p.i) {
				continue
			}
			if math.Max(p.a.X, p.b.X) < math.Min(q.a.X, q.b.X)-eps || math.Max(q.a.X, q.b.X) < math.Min(p.a.X, p.b.X)-eps ||
				math.Max(p.a.Y, p.b.Y) < math.Min(q.a.Y, q.b.Y)-eps || math.Max(q.a.Y, q.b.Y) < math.Min(p.a.Y, p.b.Y)-eps {
				continue
			}
			if segsCross(p.a, p.b, q.a, q.b, eps) {
				return false
			}
		}
	}
	return true
}

func openLoop(p Path) []Point { return p.Points[:len(p.Points)-1] }

func loopSegs(l []Point) []seg {
	var r []seg
	for i := range l {
		r = append(r, seg{l[i], l[(i+1)%len(l)]})
	}
	return r
}

// longMiter: a corner so sharp that its miter is cut (2 mm beyond the offset lines).
func longMiter(l []Point, step float64) bool {
	for i := range l {
		a, b, c := l[(i+len(l)-1)%len(l)], l[i], l[(i+1)%len(l)]
		u, v := vunit(vsub(b, a)), vunit(vsub(c, b))
		th := math.Atan2(vcross(u, v).Z, vdot(u, v)) // turn
		if math.Abs(step*math.Tan(th/2)) > 1.9 {
			return true
		}
		if math.Abs(th) < 0.01 && math.Abs(th) > 1e-9 {
			return true // nearly straight corners are not resolved exactly
		}
	}
	return false
}

// expectedWalls: offsets k*lw for k=1..n of the contours; count of k for which the
// reference is valid for all contours together.
func expectedWalls(cs []Path, n int, step float64, limited bool) (walls [][][]Point, valid int) {
	for _, c := range cs {
		if longMiter(openLoop(c), math.Abs(step)) {
			return nil, 0
		}
	}
	for k := 1; k <= n; k++ {
		var lv [][]Point
		for _, c := range cs {
			o, ok, sharp := refOffsetEv(openLoop(c), step*float64(k))
			if !ok || longMiter(o, math.Abs(step)) || limited && sharp {
				return walls, k - 1
			}
			lv = append(lv, o)
		}
		if !simpleLoops(lv, 1e-3) {
			return walls, k - 1
		}
		walls = append(walls, lv)
	}
	return walls, n
}

func sameLoop(got Path, want []Point) string {
	if len(got.Points) < 2 {
		return fmt.Sprintf("has %d points", len(got.Points))
	}
	for _, p := range got.Points {
		if !finite(p) {
			return "is not finite"
		}
	}
	if d := dist(got.Points[0], got.Points[len(got.Points)-1]); d > 2e-5 {
		return fmt.Sprintf("is not closed: gap %.6g", d)
	}
	g, w := pathSegs([]Path{got}), loopSegs(want)
	msg := chainDiff(g, w, 5e-5)
	if msg != "" && symDiffArea(g, w, AxisZ) > 2e-5*(segsLen(w)+1) {
		return msg + fmt.Sprintf("; area of the difference %.6g mm2", symDiffArea(g, w, AxisZ))
	}
	return ""
}

// roomToFail: the contours do not touch themselves and no offset has a mitre above the limit.
func roomToFail(cs []Path, n int, lw float64) bool {
	var ls [][]Point
	for _, c := range cs {
		ls = append(ls, openLoop(c))
	}
	if !simpleLoops(ls, 1e-3) {
		return false
	}
	for _, l := range ls {
		if longMiter(l, lw) {
			return false
		}
		for k := 1; k <= n; k++ {
			if o, ok, sharp := refOffsetEv(l, -lw*float64(k)); sharp || ok && longMiter(o, lw) {
				return false
			}
		}
	}
	return true
}

func distToSegs(p Point, ss []seg) float64 {
	d := math.Inf(1)
	for _, s := range ss {
		d = math.Min(d, ptSegDist(p, s.a, s.b))
	}
	return d
}

// c15Check prepares one layer and compares its walls, then its skirt.
func c15Check(x *X, cs []Path, lw, wt float64, skirt int, tilt int, where string) {
	limited := where == "large" // corners left by vanished edges are held to the miter limit as well
	n := int(math.Floor(wt/lw+1e-9)) - 1
	if n < 0 {
		n = 0
	}
	sett := c13Settings("Lines", 20, lw)
	sett.WallThickness = wt
	norm := AxisZ
	fwd := func(p Point) Point { return p }
	back := fwd
	if tilt > 0 {
		ax, ang := Vector{X: 1}, 60.0
		if tilt == 2 {
			ax, ang = Vector{X: 0.6, Y: -0.8}, 35
		}
		norm = rotVec(AxisZ, ax, ang)
		fwd = func(p Point) Point { return rotPoint(p, Point{1, 2, 3}, ax, ang) }
		back = func(p Point) Point { return rotPoint(p, Point{1, 2, 3}, ax, -ang) }
	}
	mapPaths := func(ps []Path, f func(Point) Point) []Path {
		r := copyPaths(ps)
		for i := range r {
			for j := range r[i].Points {
				r[i].Points[j] = f(r[i].Points[j])
			}
		}
		return r
	}
	x.Op(1)
	same := 3 // the walls of a layer do not depend on the layers around it
	if where == "ngon" {
		same = 1
	}
	var in []Layer
	for i := 0; i < same; i++ {
		if i == same-1 {
			in = append(in, Layer{Norm: norm, Paths: mapPaths(decoy(cs), fwd)})
		}
		in = append(in, Layer{Norm: norm, Paths: mapPaths(cs, fwd)})
	}
	res := vip.PrepareLayers(in, sett, nil, nil)
	if len(res) != same+1 {
		x.Fail("layers", "%s: %d layers returned for %d", where, len(res), same+1)
	}
	res = append(res[:same-1], res[same])
	for i := 1; i < same; i++ {
		if a, b := fmt.Sprint(res[0].Paths, res[0].MiddlePs, res[0].InnerPs), fmt.Sprint(res[i].Paths, res[i].MiddlePs, res[i].InnerPs); a != b {
			x.Fail("alike", "%s: layer %d of equal ones has other walls than the first: %s", where, i, firstDiff(a, b))
		}
	}
	l := res[0]
	if d := chainDiff(pathSegs(mapPaths(l.Paths, back)), pathSegs(cs), 2e-5); d != "" {
		x.Fail("outer", "%s: the outer walls are changed: %s", where, d)
	}
	if n == 0 {
		if len(l.MiddlePs) != 0 || len(l.InnerPs) != 0 {
			x.Fail("count", "%s: %d+%d extra walls for wall thickness %g and line width %g", where, len(l.MiddlePs), len(l.InnerPs), wt, lw)
		}
	}
	ref, valid := expectedWalls(cs, n, -lw, limited)
	if valid < n {
		x.Trivial() // a feature is too thin for all the walls
	} else if n > 0 {
		if len(l.MiddlePs) != (n-1)*len(cs) || len(l.InnerPs) != len(cs) {
			x.Fail("count", "%s: %d middle and %d inner walls for %d contours, wall thickness %g and line width %g", where, len(l.MiddlePs), len(l.InnerPs), len(cs), wt, lw)
		}
	}
	if valid == n {
		inner := mapPaths(l.InnerPs, back)
		middle := mapPaths(l.MiddlePs, back)
		// the walls may come in any order: match them by shape
		match := func(got []Path, want [][]Point, name string) {
			used := make([]bool, len(got))
			for wi, w := range want {
				best := ""
				found := false
				for gi, g := range got {
					if used[gi] {
						continue
					}
					msg := sameLoop(g, w)
					if msg == "" {
						used[gi], found = true, true
						break
					}
					if best == "" || math.Abs(signedAreaXY(g.Points)-signedAreaXY(w)) < 0.5 {
						best = msg
					}
				}
				if !found {
					x.Fail("wall", "%s: %s wall %d (area %.4f) is not among the %d walls: %s", where, name, wi, signedAreaXY(w), len(got), best)
				}
			}
		}
		if n > 0 {
			match(inner, ref[n-1], "inner")
			var mid [][]Point
			for _, lv := range ref[:n-1] {
				mid = append(mid, lv...)
			}
			match(middle, mid, "middle")
		}
	}
	if valid > 0 && valid < n {
		// the walls that have room must not be lost together with those that have none
		all := append(mapPaths(l.MiddlePs, back), mapPaths(l.InnerPs, back)...)
		for k, lv := range ref[:valid] {
			for wi, w := range lv {
				found := false
				for gi := range all {
					if sameLoop(all[gi], w) == "" {
						found = true
						break
					}
				}
				if !found {
					x.Fail("lost", "%s: wall %d of contour %d is missing, %d walls of %d have room", where, k+1, wi, valid, n)
				}
			}
		}
	}
	if valid < n && len(cs) == 1 && roomToFail(cs, n, lw) {
		// whatever is left of the walls that have no room must not leave the material (walls of different
		// contours do not know of each other)
		css := pathSegs(cs)
		for _, p := range append(mapPaths(l.MiddlePs, back), mapPaths(l.InnerPs, back)...) {
			for _, q := range p.Points {
				if d := windingXY(css, q.X, q.Y); d == 0 && distToSegs(q, css) > 1e-3 {
					x.Fail("outside", "%s: wall point %v is outside of the part (%d walls of %d have room)", where, rp(q), valid, n)
				}
			}
		}
	}
	// skirt
	h := newHash()
	h.I(len(l.MiddlePs))
	for _, p := range l.InnerPs {
		h.F(p.Points[0].X)
		h.F(p.Points[0].Y)
		h.I(len(p.Points))
	}
	if skirt > 0 {
		sref, ok := expectedWalls(cs, skirt, lw, limited)
		l.Paths = mapPaths(cs, fwd)
		x.Op(1)
		s := vip.SkirtPathes(l, skirt, lw)
		for ci, c := range cs { // the contours stay whatever comes of the skirt
			found := false
			for _, g := range mapPaths(s.Paths, back) {
				if sameLoop(g, openLoop(c)) == "" {
					found = true
					break
				}
			}
			if !found {
				x.Fail("skirt", "%s: contour %d is lost when the skirt is added", where, ci)
			}
		}
		if ok == skirt {
			if len(s.Paths) != len(cs)*(skirt+1) {
				x.Fail("skirt", "%s: %d paths with %d skirt lines for %d contours", where, len(s.Paths), skirt, len(cs))
			}
			got := mapPaths(s.Paths, back)
			for ci := range cs {
				for k := 0; k <= skirt; k++ {
					w := openLoop(cs[ci])
					if k > 0 {
						w = sref[k-1][ci]
					}
					found := false
					msg := ""
					for gi := range got {
						if got[gi].Points == nil {
							continue
						}
						if m := sameLoop(got[gi], w); m == "" {
							found = true
							got[gi].Points = nil
							break
						} else if msg == "" || math.Abs(signedAreaXY(got[gi].Points)-signedAreaXY(w)) < 0.5 {
							msg = m
						}
					}
					if !found {
						x.Fail("skirt", "%s: skirt line %d of contour %d is missing: %s", where, k, ci, msg)
					}
				}
			}
		}
		if len(s.InnerPs) != len(l.InnerPs) || len(s.MiddlePs) != len(l.MiddlePs) || len(s.Fill) != len(l.Fill) {
			x.Fail("skirt", "%s: walls or filling change when the skirt is added", where)
		}
		h.I(len(s.Paths))
	}
	x.State(h.Sum())
	x.Outcome(h.Sum())
}

// reversed: the direction the slicer gives to contours (material on the right).
func reversedLoop(ps []Point, start int) Path {
	var p Path
	n := len(ps)
	for i := range ps {
		p.Points = append(p.Points, ps[((start-i)%n+n)%n])
	}
	p.Points = append(p.Points, p.Points[0])
	return p
}

var c15Widths = []float64{0.4, 0.45, 0.8}

func c15Walls(x *X) (lw, wt float64) {
	lw = c15Widths[x.Choose(len(c15Widths))]
	k := x.Choose(Tier(x, 7, 11))
	return lw, []float64{lw, 2 * lw, 3 * lw, 1.2, 2.35*lw + 0.01, 2.97 * lw, 2.04 * lw, lw / 2, 4 * lw, 1.6, 3.96 * lw}[k]
}

func c15Ngons(x *X) {
	n := Pick(x, 3, 4, 5, 6, 8, 12, 24, 40)
	r := Pick(x, 3.0, 6.0, 20.0, 0.7)
	phase := Pick(x, 0.0, 0.37, math.Pi/4)
	start := x.Choose(Tier(x, 3, 5))
	lw, wt := c15Walls(x)
	skirt := x.Choose(Tier(x, 2, 4))
	tilt := x.Choose(Tier(x, 2, 3))
	hole := x.Bool()
	if r < 1 && !hole {
		x.Prune() // no room for walls
	}
	x.Begin(fmt.Sprintf("%d-gon r=%g phase=%.2f start=%d lw=%g wt=%g skirt=%d tilt=%d hole=%v", n, r, phase, start, lw, wt, skirt, tilt, hole))
	ps := ngon(n, r, phase)
	for i := range ps {
		ps[i].Z = 0.7
	}
	cs := []Path{reversedLoop(ps, start)}
	if hole { // a hole is directed the other way; make it a frame
		out := ngon(4, math.Max(3*r, 7), 0.3)
		for i := range out {
			out[i].Z = 0.7
		}
		cs = []Path{reversedLoop(out, 0), cs[0].Reverse()}
	}
	c15Check(x, cs, lw, wt, skirt, tilt, "ngon")
}

// c15Features: a square with one modified corner (chamfer, notch, bump, rounding) of every size.
func c15Features(x *X) {
	kind := x.Choose(6)
	size := []float64{0.07, 0.23, 0.41, 0.55, 0.9, 1.7, 3.1, 4.9}[x.Choose(Tier(x, 6, 8))]
	start := x.Choose(Tier(x, 4, 12))
	lw, wt := c15Walls(x)
	rot := x.Choose(2)
	skirt := x.Choose(Tier(x, 2, 4))
	x.Begin(fmt.Sprintf("feature %d size=%g start=%d lw=%g wt=%g rot=%d skirt=%d", kind, size, start, lw, wt, rot, skirt))
	s := size
	ps := []Point{{0, 0, 0}, {14, 0, 0}}
	switch kind {
	case 0: // chamfer
		ps = append(ps, Point{14, 14 - s, 0}, Point{14 - s, 14, 0})
	case 1: // uneven chamfer
		ps = append(ps, Point{14, 14 - s, 0}, Point{14 - 2*s, 14, 0})
	case 2: // corner cut out
		ps = append(ps, Point{14, 14 - s, 0}, Point{14 - s, 14 - s, 0}, Point{14 - s, 14, 0})
	case 3: // bump in the middle of a side
		ps = append(ps, Point{14, 14, 0}, Point{9.5, 14, 0}, Point{9, 14 + s, 0}, Point{5, 14 + s, 0}, Point{4.5, 14, 0})
	case 4: // dent
		ps = append(ps, Point{14, 14, 0}, Point{9.5, 14, 0}, Point{9, 14 - s, 0}, Point{5, 14 - s, 0}, Point{4.5, 14, 0})
	case 5: // rounding
		for i := 0; i <= 6; i++ {
			a := float64(i) * math.Pi / 12
			ps = append(ps, Point{14 - s + s*math.Cos(a), 14 - s + s*math.Sin(a), 0})
		}
	}
	ps = append(ps, Point{0, 14, 0})
	for i := range ps {
		ps[i].Z = 0.3
		if rot == 1 {
			ps[i] = rotPoint(vadd(ps[i], Vector{-7, -7, 0}), Point{}, AxisZ, 31)
		}
	}
	c15Check(x, []Path{reversedLoop(ps, start%len(ps))}, lw, wt, skirt, 0, "feature")
}

// c15Cells: every set of wide cells, holes and islands included.
func c15Cells(x *X) {
	nx, ny := 3, 3
	mask := x.Choose(1 << (nx * ny))
	lw, wt := c15Walls(x)
	skirt := x.Choose(Tier(x, 1, 3))
	x.Begin(fmt.Sprintf("cells mask=%b lw=%g wt=%g skirt=%d", mask, lw, wt, skirt))
	lps := traceCells(func(i, j int) bool { return mask>>(j*nx+i)&1 == 1 }, nx, ny, true)
	ps := loopsOf(lps, func(a, b float64) Point { return Point{a*7 - 3, b * 6, 1} }, mask%4)
	if len(ps) == 0 {
		x.Trivial()
		return
	}
	for i := range ps {
		ps[i] = ps[i].Reverse()
	}
	// cells that touch in a corner only: their walls are too close to be compared
	c15Check(x, ps, lw, wt, skirt, 0, "cells")
}

// c15Shapes: contours made by the slicer itself.
func c15Shapes(x *X) {
	si := x.Choose(len(shapeCache))
	rot := x.Choose(Tier(x, 2, 4))
	lw, wt := c15Walls(x)
	skirt := x.Choose(Tier(x, 2, 3))
	sh := shapeCache[si]
	x.Begin(fmt.Sprintf("%s rot=%d lw=%g wt=%g skirt=%d", sh.name, rot, lw, wt, skirt))
	ts := mapTris(scale(sh.ts, 1.5), func(p Point) Point { return rotPoint(p, Point{}, AxisZ, []float64{0, 27.7, 90, 200}[rot]) })
	sett := c13Settings("Lines", 20, lw)
	sett.LayerHeight = 2.3
	x.Op(1)
	for i, l := range slicers.SliceByVector(meshOf(ts), AxisZ, sett) {
		ok := len(l.Paths) > 0
		for _, p := range l.Paths {
			if len(p.Points) < 4 || dist(p.Points[0], p.Points[len(p.Points)-1]) > 1e-9 {
				ok = false
			}
		}
		if ok {
			c15Check(x, l.Paths, lw, wt, skirt, 0, fmt.Sprintf("%s layer %d", sh.name, i))
		}
	}
}

// c15Corner: a square with one corner rounded by edges of all lengths, so that they vanish one after another.
func c15Corner(x *X) {
	k := 2 + x.Choose(Tier(x, 3, 4))
	lens := Tier(x, []float64{0.05, 0.31, 0.83, 1.7}, []float64{0.05, 0.31, 0.55, 0.83, 1.7})
	var es []float64
	for i := 0; i < k; i++ {
		es = append(es, lens[x.Choose(len(lens))])
	}
	spread := x.Choose(3)
	start := Pick(x, 0, 3)
	walls := Pick(x, 2, 4)
	inward := x.Choose(Tier(x, 1, 2)) // a hole rounded like that
	x.Begin(fmt.Sprintf("corner of edges %v, angles %d, start %d, %d walls, hole %d", es, spread, start, walls, inward))
	p := Point{14, 9, 0}
	ps := []Point{{0, 0, 0}, {14, 0, 0}, p}
	for i, e := range es {
		t := float64(i+1) / float64(k+1)
		switch spread {
		case 1:
			t = math.Pow(t, 1.7)
		case 2:
			t = math.Pow(t, 0.6)
		}
		a := math.Pi / 2 * (1 + t)
		p = vadd(p, Vector{e * math.Cos(a), e * math.Sin(a), 0})
		ps = append(ps, p)
	}
	ps = append(ps, Point{0, p.Y, 0})
	for i := range ps {
		ps[i].Z = 0.3
	}
	cs := []Path{reversedLoop(ps, start%len(ps))}
	if inward == 1 {
		cs[0] = cs[0].Reverse()
		cs = append([]Path{reversedLoop([]Point{{-9, -9, 0.3}, {25, -9, 0.3}, {25, 30, 0.3}, {-9, 30, 0.3}}, 0)}, cs...)
	}
	c15Check(x, cs, 0.4, 0.4*float64(walls)+0.01, 0, 0, "large")
}

// c15Large: contours with many points, many of them on edges shorter than the walls, and long ones; many walls.
func c15Large(x *X) {
	kind := x.Choose(6)
	n := Pick(x, 3, 9, 17, 40)
	size := Pick(x, 0.11, 0.37, 0.9, 2.3)
	lw := Pick(x, 0.2, 0.4, 1.2)
	walls := Pick(x, 2, 3, 5, 9)
	if lw*float64(walls-1) > 1.7 { // miters are limited to 2 mm
		x.Prune()
	}
	scl := Tier(x, []float64{1, 6}, []float64{1, 3, 6, 20})[x.Choose(Tier(x, 2, 4))]
	rot := x.Choose(Tier(x, 2, 4))
	skirt := x.Choose(2)
	if lw > 1 && skirt > 0 { // 2.4 mm away
		x.Prune()
	}
	x.Begin(fmt.Sprintf("large %d n=%d size=%g lw=%g walls=%d scale=%g rot=%d skirt=%d", kind, n, size, lw, walls, scl, rot, skirt))
	s := size
	W := 30 * scl
	ps := []Point{{0, 0, 0}, {W, 0, 0}, {W, W, 0}}
	switch kind {
	case 0, 1: // bumps, dents along the upper side
		d := s
		if kind == 1 {
			d = -s
		}
		step := W / float64(n+1)
		for i := 0; i < n; i++ {
			c := W - float64(i+1)*step
			w := math.Min(step/3, 2*s)
			ps = append(ps, Point{c + w, W, 0}, Point{c + w*0.8, W + d, 0}, Point{c - w*0.8, W + d, 0}, Point{c - w, W, 0})
		}
	case 2: // every corner rounded with n points
		ps = nil
		r := math.Min(4*s, W/3)
		for q := 0; q < 4; q++ {
			c := []Point{{W - r, r, 0}, {W - r, W - r, 0}, {r, W - r, 0}, {r, r, 0}}[q]
			for i := 0; i <= n; i++ {
				a := float64(q-1)*math.Pi/2 + math.Pi/2*float64(i)/float64(n)
				ps = append(ps, Point{c.X + r*math.Cos(a), c.Y + r*math.Sin(a), 0})
			}
		}
	case 3: // teeth all around
		ps = nil
		m := 2*n + 4
		for i := 0; i < m; i++ {
			for k, a := range []float64{0, 0.3, 0.5, 0.8} {
				r := W / 2
				if k >= 2 {
					r += s
				}
				t := 2 * math.Pi * (float64(i) + a) / float64(m)
				ps = append(ps, Point{r * math.Cos(t), r * math.Sin(t), 0})
			}
		}
	case 4: // a staircase instead of the corner
		step := math.Min(s, W/2/float64(n))
		ps = ps[:2]
		for i := 0; i < n; i++ {
			h := W - step*float64(n) + step*float64(i)
			ps = append(ps, Point{W - step*float64(i), h, 0}, Point{W - step*float64(i+1), h, 0})
		}
		ps = append(ps, Point{W - step*float64(n), W, 0})
	case 5: // chamfers of chamfers of all the corners
		ps = nil
		for i := 0; i < 4*n; i++ {
			t := 2 * math.Pi * (float64(i) + 0.2*math.Sin(float64(i))) / float64(4*n)
			ps = append(ps, Point{W / 2 * math.Cos(t), W / 2 * math.Sin(t), 0})
		}
	}
	if kind < 2 || kind == 4 {
		ps = append(ps, Point{0, W, 0})
	}
	for i := range ps {
		ps[i].Z = 0.3
		ps[i] = rotPoint(ps[i], Point{}, AxisZ, []float64{0, 31, 90, 203}[rot])
	}
	c15Check(x, []Path{reversedLoop(ps, 1)}, lw, lw*(float64(walls)+[]float64{0.3, 0.985}[rot%2]), skirt*2, 0, "large")
}

// c15Printed: walls and the skirt of whole prints, as the printer gets them.
func c15Printed(x *X) {
	names := []string{"cube", "tower", "L", "ring8", "U", "frustum"}
	name := names[x.Choose(len(names))]
	lw := Pick(x, 0.4, 0.25, 0.7)
	lh := Pick(x, 0.83, 0.31, 60.0)
	skirt := Pick(x, 0, 1, 3, 6, 9, 17)
	walls := x.Choose(4)
	cut := x.Bool()
	x.Begin(fmt.Sprintf("%s lw=%g layer height=%g skirt=%d walls=%d cut=%v", name, lw, lh, skirt, walls, cut))
	if lh < 0.5 && !x.Thorough && walls != 2 {
		x.Prune()
	}
	if lh > 50 && cut {
		x.Prune()
	}
	ts := shift(scale(shapeNamed(name), 1.6), 2.1, -1.3, 0)
	lo, hi := minmax(ts, AxisZ)
	sett := c13Settings("Lines", 0, lw)
	sett.LayerHeight = lh
	sett.WallThickness = lw * (float64(walls) + []float64{0.4, 0.985}[walls%2])
	sett.TopLayers, sett.BottomLayers = 0, 0
	sett.SkirtLineCount = skirt
	g := *sett.GcodeSettings
	g.LayerHeight = lh
	sett.GcodeSettings = &g
	z := hi + 3
	if cut {
		z = r3(lo + 0.5127*(hi-lo))
	}
	sett.PlanesFile = filepath.Join(x.Scratch, "planes.txt")
	must(os.WriteFile(sett.PlanesFile, []byte(fmt.Sprintf("X0.000 Y0.000 Z%.3f Tfalse R0.000\n", z)), 0644))
	parts := [][]tri{ts}
	if cut {
		up, down, err := helpers.CutMesh(meshOf(ts), Plane{P: Point{Z: float64(float32(z))}, N: AxisZ})
		must(err)
		parts = [][]tri{trisOf(down), trisOf(up)}
	}
	x.Op(1)
	gc := vip.Slice(meshOf(ts), sett)
	mc := newMachine()
	if err := mc.run(render(&gc)); err != nil {
		x.Fail("gcode", "%v", err)
	}
	pr := mc.printed()
	total := 0
	for i, part := range parts {
		n := len(pr)
		if cut && i == 0 {
			for n = 0; n < len(pr) && layerZ(pr[n]) < z; n++ {
			}
		}
		total += checkPrintedPart(x, pr[:n], part, sett, true, []int{skirt, 0}[i], fmt.Sprintf("part %d", i))
		pr = pr[n:]
	}
	if total == 0 {
		x.Trivial()
	}
	x.State(hashStr(x.desc))
	x.Outcome(newHash().I(total).Sum())
}

func init() {
	register(&Prop{ID: "C15", Level: "model_checking",
		Rule:   "every polygon x start vertex x line width x wall thickness x skirt x plane; compared with a mitred offset with edge events",
		Assume: []string{"features are wider than all their walls together and miters are shorter than 2 mm; corners are not nearly straight"},
		Models: []Model{{Name: "ngons", Run: c15Ngons}, {Name: "features", Run: c15Features}, {Name: "cells", Run: c15Cells}, {Name: "shapes", Run: c15Shapes}, {Name: "corner", Run: c15Corner}, {Name: "large", Run: c15Large}, {Name: "printed", Run: c15Printed}}})
}
