//go:build go1.22

package main

import (
	"fmt"
	"math"
	"sort"

	. "github.com/l1va/goosli/primitives"
	"github.com/l1va/goosli/slicers"
	"github.com/l1va/goosli/slicers/vip"
)

// C13: infill is exactly the inside part of every filling line.
// C14: the filling lines form the configured pattern and go to the right layers.

type span [2]float64

// lineSpans: even-odd inside intervals of the line n.p = c, parametrised by t = (-n.Y, n.X).
func lineSpans(ss []seg, n Vector, c float64) []span {
	var ts []float64
	for _, s := range ss {
		a, b := s.a.X*n.X+s.a.Y*n.Y-c, s.b.X*n.X+s.b.Y*n.Y-c
		if (a > 0) == (b > 0) {
			continue
		}
		p := lerp(s.a, s.b, a/(a-b))
		ts = append(ts, -p.X*n.Y+p.Y*n.X)
	}
	sort.Float64s(ts)
	var r []span
	for i := 0; i+1 < len(ts); i += 2 {
		r = append(r, span{ts[i], ts[i+1]})
	}
	return r
}

func unionSpans(l []span) []span {
	l = append([]span{}, l...)
	sort.Slice(l, func(i, j int) bool { return l[i][0] < l[j][0] })
	var r []span
	for _, s := range l {
		if n := len(r); n > 0 && s[0] <= r[n-1][1] {
			r[n-1][1] = math.Max(r[n-1][1], s[1])
		} else {
			r = append(r, s)
		}
	}
	return r
}

func lenSpans(l []span) float64 {
	s := 0.0
	for _, e := range l {
		s += e[1] - e[0]
	}
	return s
}

func interSpans(a, b []span) []span {
	a, b = unionSpans(a), unionSpans(b)
	var r []span
	for _, p := range a {
		for _, q := range b {
			lo, hi := math.Max(p[0], q[0]), math.Min(p[1], q[1])
			if hi > lo {
				r = append(r, span{lo, hi})
			}
		}
	}
	return r
}

// lenMinus: length of a without b.
func lenMinus(a, b []span) float64 { return lenSpans(unionSpans(a)) - lenSpans(interSpans(a, b)) }

type fline struct {
	n Vector
	c float64
}

// checkFill compares fill with the inside parts of the lines ls of the contours.
func checkFill(x *X, contours []Path, ls []fline, fill []Path, height func(px, py float64) float64, where string) {
	checkFillSegs(x, pathSegs(contours), ls, fill, height, where, 1e-5)
}

// checkFillSegs: eps is the precision of the points of the filling.
func checkFillSegs(x *X, ss []seg, ls []fline, fill []Path, height func(px, py float64) float64, where string, eps float64) {
	got := make([][]span, len(ls))
	for fi, f := range fill {
		if len(f.Points) < 2 {
			x.Fail("shape", "%s: filling path %d has %d points", where, fi, len(f.Points))
		}
		for i := 1; i < len(f.Points); i++ {
			a, b := f.Points[i-1], f.Points[i]
			for _, p := range []Point{a, b} {
				if !finite(p) || !near(p.Z, height(p.X, p.Y), eps) {
					x.Fail("plane", "%s: filling point %v is out of the plane of its layer", where, rp(p))
				}
			}
			best, bd := -1, eps
			for li, l := range ls {
				d := math.Max(math.Abs(a.X*l.n.X+a.Y*l.n.Y-l.c), math.Abs(b.X*l.n.X+b.Y*l.n.Y-l.c))
				if d < bd {
					best, bd = li, d
				}
			}
			if best < 0 {
				x.Fail("line", "%s: filling segment %v - %v lies on no filling line", where, rp(a), rp(b))
			}
			n := ls[best].n
			t0, t1 := -a.X*n.Y+a.Y*n.X, -b.X*n.Y+b.Y*n.X
			got[best] = append(got[best], span{math.Min(t0, t1), math.Max(t0, t1)})
		}
	}
	for li, l := range ls {
		must := lineSpans(ss, l.n, l.c)
		may := must
		for _, s := range ss {
			if math.Abs(s.a.X*l.n.X+s.a.Y*l.n.Y-l.c) < eps/5 {
				lo, hi := lineSpans(ss, l.n, l.c-eps*0.4), lineSpans(ss, l.n, l.c+eps*0.4)
				must = interSpans(lo, hi)
				may = unionSpans(append(append([]span{}, lo...), hi...))
				break
			}
		}
		tol := 10 * eps * float64(1+len(must)+len(may)+len(got[li]))
		if d := lenMinus(got[li], may); d > tol {
			x.Fail("outside", "%s: line %v*p=%.6g: %.6g mm of filling are outside of the contours; got %v, inside is %v", where, rp(l.n.ToPoint()), l.c, d, got[li], may)
		}
		if d := lenMinus(must, got[li]); d > tol {
			x.Fail("missing", "%s: line %v*p=%.6g: %.6g mm of filling are missing; got %v, inside is %v", where, rp(l.n.ToPoint()), l.c, d, got[li], must)
		}
		if d := lenSpans(got[li]) - lenSpans(unionSpans(got[li])); d > tol {
			x.Fail("twice", "%s: line %v*p=%.6g: %.6g mm are filled twice; got %v", where, rp(l.n.ToPoint()), l.c, d, got[li])
		}
	}
}

// traceCells: boundary loops of a set of unit cells; at corners where two cells touch
// diagonally the loop turns left (lt) or right.
func traceCells(occ func(i, j int) bool, nx, ny int, lt bool) [][][2]int {
	type ed struct{ x, y, dx, dy int }
	set := map[ed]bool{}
	var order []ed
	add := func(e ed) { set[e] = true; order = append(order, e) }
	for j := 0; j < ny; j++ {
		for i := 0; i < nx; i++ {
			if !occ(i, j) {
				continue
			}
			if j == 0 || !occ(i, j-1) {
				add(ed{i, j, 1, 0})
			}
			if i == nx-1 || !occ(i+1, j) {
				add(ed{i + 1, j, 0, 1})
			}
			if j == ny-1 || !occ(i, j+1) {
				add(ed{i + 1, j + 1, -1, 0})
			}
			if i == 0 || !occ(i-1, j) {
				add(ed{i, j + 1, 0, -1})
			}
		}
	}
	var loops [][][2]int
	for _, s := range order {
		if !set[s] {
			continue
		}
		var lp [][2]int
		e := s
		for set[e] {
			delete(set, e)
			lp = append(lp, [2]int{e.x, e.y})
			qx, qy := e.x+e.dx, e.y+e.dy
			l, r, f := ed{qx, qy, -e.dy, e.dx}, ed{qx, qy, e.dy, -e.dx}, ed{qx, qy, e.dx, e.dy}
			cand := []ed{l, f, r}
			if !lt {
				cand = []ed{r, f, l}
			}
			for _, c := range cand {
				if set[c] {
					e = c
					break
				}
			}
		}
		// drop straight points
		var m [][2]int
		for i := range lp {
			p, q, r := lp[(i+len(lp)-1)%len(lp)], lp[i], lp[(i+1)%len(lp)]
			if (q[0]-p[0])*(r[1]-q[1]) != (q[1]-p[1])*(r[0]-q[0]) {
				m = append(m, q)
			}
		}
		loops = append(loops, m)
	}
	return loops
}

// loopsOf makes closed Paths of integer loops.
func loopsOf(lps [][][2]int, f func(px, py float64) Point, start int) []Path {
	var r []Path
	for _, l := range lps {
		var p Path
		for i := range l {
			q := l[(i+start)%len(l)]
			p.Points = append(p.Points, f(float64(q[0]), float64(q[1])))
		}
		p.Points = append(p.Points, p.Points[0])
		r = append(r, p)
	}
	return r
}

func vecAt(deg float64) Vector {
	s, c := math.Sincos(deg * math.Pi / 180)
	return Vector{X: c, Y: s}
}

func c13Settings(kind string, density int, lw float64) slicers.Settings {
	s := settingsT(0.2)
	s.FillingType, s.FillDensity = kind, density
	g := *s.GcodeSettings
	g.LineWidth = lw
	s.GcodeSettings = &g
	return s
}

func flat(z float64) func(a, b float64) float64 { return func(a, b float64) float64 { return z } }

// c13Cells: every set of cells of a grid as the contours of a layer.
func c13Cells(x *X) {
	nx, ny := 3, Tier(x, 3, 4)
	mask := x.Choose(1 << (nx * ny))
	lt := x.Bool()
	kind := x.Choose(3) // directions of lines
	place := x.Choose(3)
	tilt := x.Choose(2)
	lps := traceCells(func(i, j int) bool { return mask>>(j*nx+i)&1 == 1 }, nx, ny, lt)
	if lt {
		if fmt.Sprint(lps) == fmt.Sprint(traceCells(func(i, j int) bool { return mask>>(j*nx+i)&1 == 1 }, nx, ny, false)) {
			x.Prune() // same loops: explored with lt=false
		}
	}
	x.Begin(fmt.Sprintf("cells %dx%d mask=%b left=%v lines=%d place=%d tilt=%d", nx, ny, mask, lt, kind, place, tilt))
	if len(lps) == 0 {
		x.Trivial()
	}
	u := 2.0
	ox, oy := []float64{0, -3, 0.7371}[place], []float64{0, -3, -2.9113}[place]
	z := flat(0.3)
	if tilt == 1 {
		z = func(a, b float64) float64 { return 0.3 + 0.4*a - 0.25*b }
	}
	ps := loopsOf(lps, func(a, b float64) Point {
		px, py := ox+a*u, oy+b*u
		return Point{px, py, z(px, py)}
	}, mask%3)
	var ls []fline
	for _, deg := range [][]float64{{0}, {45, 135}, {0, 60, 120}}[kind] {
		for k := -12; k <= 12; k++ {
			ls = append(ls, fline{vecAt(deg), float64(k) * 0.5})
		}
	}
	fillAndCheck(x, ps, ls, z, "cells")
}

func planesOf(ls []fline) []Plane {
	var r []Plane
	for _, l := range ls {
		r = append(r, Plane{P: Point{l.n.X * l.c, l.n.Y * l.c, 0}, N: l.n})
	}
	return r
}

func fillAndCheck(x *X, ps []Path, ls []fline, z func(a, b float64) float64, where string) {
	sett := c13Settings("Lines", 20, 0.4)
	sett.TopLayers, sett.BottomLayers = 0, 0
	const far = 1e5
	outer := []Path{{Points: []Point{{-far, -far, z(-far, -far)}, {far, -far, z(far, -far)}, {far, far, z(far, far)}, {-far, far, z(-far, far)}, {-far, -far, z(-far, -far)}}}}
	orig := copyPaths(ps)
	// the contours are the paths of one layer and the inner walls of another one
	layers := []Layer{{Order: 0, Norm: AxisZ, Paths: decoy(ps)}, {Order: 1, Norm: AxisZ, Paths: ps},
		{Order: 2, Norm: AxisZ, Paths: outer, InnerPs: decoy(ps)}, {Order: 3, Norm: AxisZ, Paths: outer, InnerPs: copyPaths(ps)}}
	if len(ps) == 0 {
		layers = layers[:2]
	}
	x.Op(len(ls))
	res := slicers.FillLayers(layers, planesOf(ls), nil, sett)
	if len(res) != len(layers) {
		x.Fail("layers", "%d layers filled, %d returned", len(layers), len(res))
	}
	h := newHash()
	for i, l := range res {
		if i%2 == 0 { // others before: they must not matter
			continue
		}
		checkFill(x, orig, ls, l.Fill, z, fmt.Sprintf("%s layer %d", where, i))
		for _, f := range l.Fill {
			for _, p := range f.Points {
				h.F(p.X)
				h.F(p.Y)
			}
		}
	}
	x.State(h.Sum())
	x.Outcome(h.Sum())
}

// decoy: contours that look like ps (their number, points, starts) but are others
func decoy(ps []Path) []Path {
	r := copyPaths(ps)
	for _, p := range r {
		n := len(p.Points)
		if n < 4 {
			continue
		}
		a, b := p.Points[0], p.Points[n/2]
		d := vmul(vsub(b, a), 0.07)
		p.Points[n/2] = vadd(b, Vector{d.X - 0.3*d.Y, d.Y + 0.3*d.X, d.Z})
	}
	return r
}

func copyPaths(ps []Path) []Path {
	var r []Path
	for _, p := range ps {
		q := p
		q.Points = append([]Point{}, p.Points...)
		r = append(r, q)
	}
	return r
}

// c13Sections: sections of the catalogue, every direction of lines, lines through every vertex.
func c13Sections(x *X) {
	si := x.Choose(len(shapeCache))
	rot := x.Choose(Tier(x, 3, 6))
	cut := x.Choose(Tier(x, 2, 4))
	deg := float64(x.Choose(Tier(x, 12, 36))) * 180 / float64(Tier(x, 12, 36))
	through := x.Bool()
	sh := shapeCache[si]
	x.Begin(fmt.Sprintf("%s rot=%d cut=%d deg=%g through=%v", sh.name, rot, cut, deg, through))
	ts := mapTris(sh.ts, func(p Point) Point { return rotPoint(p, Point{}, AxisZ, []float64{0, 17.3, 45, 90, 133.7, 180}[rot]) })
	lo, hi := minmax(ts, AxisZ)
	zc := lo + (hi-lo)*[]float64{0.31, 0.77, 0.1137, 0.531}[cut]
	ps := loopsFromChain(sectionChain(ts, AxisZ, zc, 1))
	if len(ps) == 0 {
		x.Trivial()
		return
	}
	n := vecAt(deg)
	var cs []float64
	if through {
		for _, p := range ps {
			for _, q := range p.Points {
				cs = append(cs, q.X*n.X+q.Y*n.Y)
			}
		}
	} else {
		for k := -40; k <= 40; k++ {
			cs = append(cs, float64(k)*0.6+0.01)
		}
	}
	sort.Float64s(cs)
	var ls []fline
	for i, c := range cs {
		if i == 0 || c-ls[len(ls)-1].c > 1e-3 {
			ls = append(ls, fline{n, c})
		}
	}
	fillAndCheck(x, ps, ls, flat(zc), sh.name)
}

// loopsFromChain links a balanced set of directed segments into closed paths.
func loopsFromChain(ss []seg) []Path {
	cl := newClusters(1e-7)
	out := map[int][]int{}
	type e struct{ a, b int }
	var es []e
	pts := map[int]Point{}
	for _, s := range ss {
		a, b := cl.add(s.a), cl.add(s.b)
		if a == b {
			continue
		}
		pts[a], pts[b] = s.a, s.b
		out[a] = append(out[a], len(es))
		es = append(es, e{a, b})
	}
	used := make([]bool, len(es))
	var r []Path
	for i := range es {
		if used[i] {
			continue
		}
		p := Path{Points: []Point{pts[es[i].a]}}
		start, cur := es[i].a, i
		for {
			used[cur] = true
			at := es[cur].b
			p.Points = append(p.Points, pts[at])
			if at == start {
				break
			}
			nx := -1
			for _, k := range out[at] {
				if !used[k] {
					nx = k
					break
				}
			}
			if nx < 0 {
				return nil
			}
			cur = nx
		}
		p.Points[len(p.Points)-1] = p.Points[0]
		r = append(r, p)
	}
	return r
}

// c13Pipeline: slicing + walls + filling of the catalogue through the public pipeline.
func c13Pipeline(x *X) {
	si := x.Choose(len(shapeCache) + 3)
	kind := Pick(x, "Lines", "Squares", "Triangles")
	dens := Pick(x, 0, 20, 37, 100)
	walls := x.Choose(2)
	place := x.Choose(Tier(x, 2, 4))
	mode := x.Choose(2)
	var sh solid
	if si < len(shapeCache) {
		sh = shapeCache[si]
	} else { // some contours have no room for walls
		sh.name = "block and thin posts"
		for i, b := range [][4]float64{{-6, -5, 0, 5}, {2, -5, 2.6, -4.2}, {4, -4, 4.7, -3.3}, {4, 0, 9.5, 6}, {-9, -0.4, -8.5, 0.4}} {
			if i == si-len(shapeCache)+1 {
				continue
			}
			sh.ts = append(sh.ts, box(b[0], b[1], 0, b[2], b[3], 5)...)
		}
	}
	x.Begin(fmt.Sprintf("%s %s %d%% walls=%d place=%d mode=%d", sh.name, kind, dens, walls, place, mode))
	ts := mapTris(sh.ts, func(p Point) Point {
		switch place {
		case 1:
			return vadd(rotPoint(p, Point{}, AxisZ, 23), Vector{31.7, -18.3, 2})
		case 2:
			return vadd(p, Vector{-60, 0, 0})
		case 3:
			return vadd(rotPoint(p, Point{}, AxisZ, 90), Vector{0, 55.5, 0})
		}
		return p
	})
	sett := c13Settings(kind, dens, 0.45)
	sett.LayerHeight = 1.1
	sett.WallThickness = []float64{0.45, 1.35}[walls]
	sett.TopLayers, sett.BottomLayers = 1, 1
	m := meshOf(ts)
	layers := slicers.SliceByVector(m, AxisZ, sett)
	sparse, full := slicers.CalcFillPlanes(m, sett)
	var res []Layer
	if mode == 0 {
		res = vip.PrepareLayers(layers, sett, sparse, full)
	} else {
		res = slicers.FillLayers(layers, sparse, full, sett)
	}
	filled := 0
	h := newHash()
	for i, l := range res {
		ls := patternLines(kind, dens, 0.45, ts)
		if i < 1 || i >= len(res)-1 {
			ls = patternLines("Lines", 100, 0.45, ts)
		}
		cs := l.InnerPs
		if cs == nil {
			cs = l.Paths
		}
		if len(cs) == 0 {
			continue
		}
		bad := false
		for _, c := range cs {
			if len(c.Points) > 1 && dist(c.Points[0], c.Points[len(c.Points)-1]) > 1e-6 {
				bad = true // an inner wall that collapsed: there is no inside
			}
		}
		if bad {
			continue
		}
		z := cs[0].Points[0].Z
		checkFill(x, cs, ls, l.Fill, flat(z), fmt.Sprintf("%s layer %d", sh.name, i))
		filled += len(l.Fill)
		x.Op(len(ls))
		for _, f := range l.Fill {
			h.F(f.Points[0].X)
			h.F(f.Points[0].Y)
		}
	}
	x.State(h.Sum())
	x.Outcome(h.Sum())
	if filled == 0 {
		x.Trivial()
	}
}

// patternLines: the lines of a pattern that can meet ts, every direction through the origin.
func patternLines(kind string, dens int, lw float64, ts []tri) []fline {
	if dens == 0 {
		return nil
	}
	var ls []fline
	degs := map[string][]float64{"Lines": {0}, "Squares": {45, 135}, "Triangles": {0, 60, 120}}[kind]
	step := lw * 100 / float64(dens) * float64(len(degs))
	for _, deg := range degs {
		n := vecAt(deg)
		lo, hi := minmax(ts, n)
		for k := math.Floor(lo/step) - 1; k <= math.Ceil(hi/step)+1; k++ {
			ls = append(ls, fline{n, k * step})
		}
	}
	return ls
}

// c13Large: long and far contours, lines with many crossings, contours of many points.
func c13Large(x *X) {
	kind := x.Choose(4)
	size := Pick(x, 0.05, 1.0, 12, Tier(x, 90.0, 300))
	turn := Pick(x, 0.0, 90, 31)
	pat := Pick(x, "Lines", "Squares", "Triangles")
	var cs [][]Point
	name := ""
	ring := func(x0, y0, x1, y1 float64) []Point { return []Point{{x0, y0, 0}, {x0, y1, 0}, {x1, y1, 0}, {x1, y0, 0}} }
	switch kind {
	case 0: // comb: a line crosses every tooth
		n := Pick(x, 3, 6, 7, 8, 13, 40, Tier(x, 41, 150))
		name = fmt.Sprintf("comb of %d teeth", n)
		p := []Point{{0, 0, 0}}
		for i := 0; i < n; i++ {
			t := float64(2 * i)
			p = append(p, Point{t, 10, 0}, Point{t + 1, 10, 0}, Point{t + 1, 3, 0}, Point{t + 2, 3, 0})
		}
		p[len(p)-1] = Point{float64(2*n - 1), 0, 0}
		p = append(p[:len(p)-2], p[len(p)-1])
		cs = append(cs, p)
	case 1: // separate islands, far from each other
		n := Pick(x, 2, 9, 30)
		gap := Pick(x, 3.0, 60, 1500)
		name = fmt.Sprintf("%d islands, gap %g", n, gap)
		for i := 0; i < n; i++ {
			t := float64(i) * (gap + 2)
			cs = append(cs, ring(t, 0.1*float64(i%3), t+2, 5+float64(i%2)))
		}
	case 2: // a plate with many holes
		n := Pick(x, 2, 5, 12)
		name = fmt.Sprintf("plate with %dx%d holes", n, n)
		w := float64(2*n + 1)
		cs = append(cs, ring(0, 0, w, w))
		for i := 0; i < n; i++ {
			for j := 0; j < n; j++ {
				h := ring(float64(2*i)+1, float64(2*j)+1, float64(2*i)+1.9, float64(2*j)+1.7)
				cs = append(cs, []Point{h[0], h[3], h[2], h[1]})
			}
		}
	case 3: // a round contour of many points
		n := Pick(x, 50, 360, Tier(x, 1500, 20000))
		name = fmt.Sprintf("round of %d points", n)
		var p []Point
		for i := 0; i < n; i++ {
			s, c := math.Sincos(-2 * math.Pi * float64(i) / float64(n))
			r := 5 + 0.5*float64(i%2)
			if n > 400 {
				r = 5 + 0.5*math.Sin(float64(i)*40*math.Pi/float64(n))
			}
			p = append(p, Point{r * c, r * s, 0})
		}
		cs = append(cs, p)
	}
	x.Begin(fmt.Sprintf("%s scale=%g turn=%g %s", name, size, turn, pat))
	var ps []Path
	var all []tri
	lo, hi := math.Inf(1), math.Inf(-1)
	for _, c := range cs {
		var p Path
		for _, q := range c {
			q = rotPoint(Point{q.X * size, q.Y * size, 0.7}, Point{}, AxisZ, turn)
			p.Points = append(p.Points, q)
			all = append(all, tri{q, q, q})
			lo, hi = math.Min(lo, math.Min(q.X, q.Y)), math.Max(hi, math.Max(q.X, q.Y))
		}
		p.Points = append(p.Points, p.Points[0])
		ps = append(ps, p)
	}
	lines := 25.0 // lines per direction
	if kind == 1 {
		lines = 150
	}
	ls := patternLines(pat, 100, (hi-lo)/lines*1.0137, all)
	fillAndCheck(x, ps, ls, flat(0.7), name)
}

// ---- C14 ----

func c14Planes(x *X) {
	type bx struct{ x0, y0, x1, y1 float64 }
	all := []bx{{0, 0, 10, 10}, {-5, -5, 5, 5}, {-30, 10, -12, 14}, {3, -40, 9, -2}, {-8, 3, 25, 4}, {0.1, 0.1, 0.7, 0.9}, {-60, -60, -50, -50}, {2, 2, 2.5, 60}, {-1, 20, 1, 100}, {40, -3, 90, 3}, {-0.4, -0.4, 0.4, 0.4}, {10, -20, 20, -10}, {-20, 10, -10, 20}, {10, 10, 20, 20}, {-33, -33, -30, -30}, {-300, -250, 310, 260}, {5, -0.01, 5.02, 0.01}}
	b := all[x.Choose(len(all))]
	kind := Pick(x, "Lines", "Squares", "Triangles")
	dens := 0
	if x.Thorough {
		dens = x.Choose(101)
	} else {
		dens = Pick(x, 0, 1, 2, 5, 7, 10, 13, 15, 20, 25, 31, 33, 37, 40, 45, 50, 51, 60, 67, 75, 80, 99, 100)
	}
	lw := Pick(x, 0.4, 0.35, 1.0, 0.8)
	shape := x.Choose(2)
	x.Begin(fmt.Sprintf("box %v %s %d%% lw=%g shape=%d", b, kind, dens, lw, shape))
	var ts []tri
	if shape == 0 {
		ts = box(b.x0, b.y0, 0, b.x1, b.y1, 3)
	} else { // a diamond inside of the same box
		ts = prism([]Point{{(b.x0 + b.x1) / 2, b.y0, 0}, {b.x1, (b.y0 + b.y1) / 2, 0}, {(b.x0 + b.x1) / 2, b.y1, 0}, {b.x0, (b.y0 + b.y1) / 2, 0}}, 0, 3, nil)
	}
	sett := c13Settings(kind, dens, lw)
	x.Op(1)
	sparse, full := slicers.CalcFillPlanes(meshOf(ts), sett)
	x.State(hashStr(fmt.Sprint(b, kind, dens, lw, shape)))
	x.Outcome(hashStr(fmt.Sprint(len(sparse), len(full))))
	checkFamily(x, ts, full, 1, 0, lw, "full filling")
	fams := map[string]int{"Lines": 1, "Squares": 2, "Triangles": 3}[kind]
	if dens == 0 {
		checkNone(x, ts, sparse)
		return
	}
	checkFamily(x, ts, sparse, fams, []float64{0, 90, 60}[fams-1], lw*100/float64(dens)*float64(fams), kind)
}

func checkNone(x *X, ts []tri, pl []Plane) {
	for _, p := range pl {
		if finite(p.P) {
			lo, hi := minmax(ts, p.N)
			c := pdot(p.P, p.N)
			if c > lo && c < hi {
				x.Fail("density", "density 0 has a filling line at %g", c)
			}
		}
	}
}

// checkFamily: pl is fams families of lines, turned by ang, that cover ts with spacing step.
func checkFamily(x *X, ts []tri, pl []Plane, fams int, ang, step float64, what string) {
	type fam struct {
		n  Vector
		cs []float64
	}
	var fs []*fam
	for _, p := range pl {
		if !near(vlen(p.N), 1, 1e-9) && !near(vlen(p.N), 1, 1e-6) || !near(p.N.Z, 0, 1e-9) {
			x.Fail("direction", "%s: normal %v of a filling plane is not a horizontal unit vector", what, rp(p.N.ToPoint()))
		}
		var f *fam
		for _, g := range fs {
			if math.Abs(vdot(g.n, p.N)) > 0.99999 {
				f = g
			}
		}
		if f == nil {
			f = &fam{n: p.N}
			fs = append(fs, f)
		}
		f.cs = append(f.cs, pdot(p.P, f.n))
	}
	if len(fs) != fams {
		x.Fail("direction", "%s: %d directions of lines, must be %d", what, len(fs), fams)
	}
	for i := range fs {
		for j := 0; j < i; j++ {
			if d := math.Abs(vdot(fs[i].n, fs[j].n)); !near(d, math.Abs(math.Cos(ang*math.Pi/180)), 1e-5) {
				x.Fail("direction", "%s: angle between directions %v and %v", what, rp(fs[i].n.ToPoint()), rp(fs[j].n.ToPoint()))
			}
		}
	}
	for _, f := range fs {
		sort.Float64s(f.cs)
		lo, hi := minmax(ts, f.n)
		at := map[int64]int{}
		for _, c := range f.cs {
			k := math.Round(c / step)
			if !near(c, k*step, 1e-5*math.Max(1, step)) {
				x.Fail("grid", "%s: filling line at %.6g is not a multiple of the spacing %.6g", what, c, step)
			}
			at[int64(k)]++
			if at[int64(k)] > 1 {
				x.Fail("grid", "%s: two filling lines at %.6g", what, c)
			}
		}
		for k := int64(math.Ceil(lo/step + 1e-9)); float64(k)*step < hi-1e-9*math.Max(1, step); k++ {
			if at[k] == 0 {
				x.Fail("cover", "%s: no filling line at %.6g (direction %v), the model spans %.6g..%.6g", what, float64(k)*step, rp(f.n.ToPoint()), lo, hi)
			}
		}
	}
}

func c14Layers(x *X) {
	n := x.Choose(Tier(x, 7, 10))
	top := x.Choose(Tier(x, 5, 8))
	bottom := x.Choose(Tier(x, 5, 8))
	inner := x.Choose(3) // no inner walls / inner walls / inner walls in some layers only
	kind := Pick(x, "Lines", "Squares", "Triangles")
	dens := Pick(x, 0, 20, 45, 100)
	stage := x.Bool()
	x.Begin(fmt.Sprintf("layers=%d top=%d bottom=%d inner=%d %s %d%% prepare=%v", n, top, bottom, inner, kind, dens, stage))
	sq := func(r, z float64) []Path {
		return []Path{{Points: []Point{{-r, -r, z}, {r, -r, z}, {r, r, z}, {-r, r, z}, {-r, -r, z}}}}
	}
	sett := c13Settings(kind, dens, 0.4)
	sett.TopLayers, sett.BottomLayers = top, bottom
	sett.WallThickness = 0.4
	ts := box(-6.03, -6.03, 0, 6.03, 6.03, 4)
	var layers []Layer
	for i := 0; i < n; i++ {
		l := Layer{Order: i, Norm: AxisZ, Paths: sq(6.03, float64(i)*0.2+0.1)}
		if inner == 1 || inner == 2 && i%2 == 0 {
			l.InnerPs = sq(4.71, float64(i)*0.2+0.1)
		}
		layers = append(layers, l)
	}
	sparse, full := slicers.CalcFillPlanes(meshOf(ts), sett)
	x.Op(1 + n)
	var res []Layer
	if stage {
		res = vip.PrepareLayers(layers, sett, sparse, full)
	} else {
		res = slicers.FillLayers(layers, sparse, full, sett)
	}
	if len(res) != n {
		x.Fail("layers", "%d layers in, %d out", n, len(res))
	}
	if n == 0 {
		x.Trivial()
	}
	h := newHash()
	for i, l := range res {
		r := 6.03
		if inner == 1 || inner == 2 && i%2 == 0 {
			r = 4.71
		}
		isFull := i < bottom || i >= n-top
		var ls []fline
		mk := func(deg, step float64) {
			for k := -60; k <= 60; k++ {
				ls = append(ls, fline{vecAt(deg), float64(k) * step})
			}
		}
		if isFull {
			mk(0, 0.4)
		} else if dens > 0 {
			f := map[string][]float64{"Lines": {0}, "Squares": {45, 135}, "Triangles": {0, 60, 120}}[kind]
			for _, deg := range f {
				mk(deg, 0.4*100/float64(dens)*float64(len(f)))
			}
		}
		checkFill(x, sq(r, 0.1+float64(i)*0.2), ls, l.Fill, flat(0.1+float64(i)*0.2), fmt.Sprintf("layer %d of %d (full=%v)", i, n, isFull))
		h.I(len(l.Fill))
	}
	x.State(hashStr(fmt.Sprint(n, top, bottom, inner, kind, dens)))
	x.Outcome(h.Sum())
}

func init() {
	register(&Prop{ID: "C13", Level: "model_checking",
		Rule:   "every set of cells of a 3x3 (thorough 3x4) grid as contours x line directions x placement x tilt; sections of the catalogue x 12 (36) directions incl. lines through every vertex; the slicing pipeline over the catalogue; compared with even-odd intervals of every line",
		Assume: []string{"contours do not cross each other"},
		Models: []Model{{Name: "cells", Run: c13Cells}, {Name: "sections", Run: c13Sections}, {Name: "pipeline", Run: c13Pipeline}, {Name: "large", Run: c13Large}, {Name: "pattern", Run: c14Planes}}})
	register(&Prop{ID: "C14", Level: "model_checking",
		Rule:   "every model placement x pattern x density x line width for the grid; every number of layers x top x bottom x inner walls x pattern x density for the choice of full layers",
		Models: []Model{{Name: "planes", Run: c14Planes}, {Name: "layers", Run: c14Layers}}})
}
