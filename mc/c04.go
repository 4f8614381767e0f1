//go:build go1.22

package main

import (
	"fmt"
	"math"

	. "github.com/l1va/goosli/primitives"
	"github.com/l1va/goosli/slicers"
)

// C04: joining loose segments / path pieces into contours, and merging collinear edges.

type loopSet struct {
	name     string
	loops    [][]Point // closed implicitly
	disjoint bool
}

func loopSets() []loopSet {
	sq := func(x, y, s float64) []Point { return []Point{{x, y, 0}, {x, y + s, 0}, {x + s, y + s, 0}, {x + s, y, 0}} }
	rev := func(p []Point) []Point {
		var r []Point
		for i := len(p) - 1; i >= 0; i-- {
			r = append(r, p[i])
		}
		return r
	}
	return []loopSet{
		{"triangle", [][]Point{{{0, 0, 0}, {1, 5, 0}, {4, 0, 0}}}, true},
		{"square", [][]Point{sq(0, 0, 3)}, true},
		{"L", [][]Point{{{0, 0, 0}, {0, 4, 0}, {2, 4, 0}, {2, 2, 0}, {4, 2, 0}, {4, 0, 0}}}, true},
		{"two triangles", [][]Point{{{0, 0, 0}, {1, 5, 0}, {4, 0, 0}}, {{0, 8, 0}, {1, 13, 0}, {4, 8, 0}}}, true},
		{"triangle with a triangular hole", [][]Point{{{-9, -9, 0}, {0, 20, 0}, {9, -9, 0}}, {{-1, 0, 0}, {1, 0, 0}, {0, 2, 0}}}, true},
		{"two squares touching in a corner", [][]Point{sq(0, 0, 1), sq(1, 1, 1)}, false},
		{"two triangles touching in a corner", [][]Point{{{0, 0, 0}, {-2, 1, 0}, {-1, 3, 0}}, {{0, 0, 0}, {2, -1, 0}, {1, -3, 0}}}, false},
		{"square in a square", [][]Point{sq(0, 0, 9), rev(sq(3, 3, 3))}, true},
		{"same x", [][]Point{{{0, 0, 0}, {0, 5, 0}, {0, 7, 0}, {3, 5, 0}}}, true},
		{"regular 6-gon", [][]Point{rev(ngon(6, 4, 0.1))}, true},
		{"tiny", [][]Point{{{0, 0, 0}, {0.0002, 0.001, 0}, {0.0009, 0, 0}}}, true},
		{"negative", [][]Point{{{-0.5, -0.25, 0}, {-3.125, 4, 0}, {2.5, 1e-3, 0}, {-0.5, -7, 0}}}, true},
	}
}

func bigLoopSets() []loopSet {
	rev := func(p []Point) []Point {
		var r []Point
		for i := len(p) - 1; i >= 0; i-- {
			r = append(r, p[i])
		}
		return r
	}
	mv := func(p []Point, x, y float64) []Point {
		var r []Point
		for _, q := range p {
			r = append(r, Point{q.X + x, q.Y + y, q.Z})
		}
		return r
	}
	var star []Point
	for i := 0; i < 40; i++ {
		r := 5.0
		if i%2 == 0 {
			r = 9
		}
		a := -2 * math.Pi * float64(i) / 40
		star = append(star, Point{r * math.Cos(a), r * math.Sin(a), 0})
	}
	var comb []Point
	for i := 0; i < 20; i++ {
		x := float64(i)
		comb = append(comb, Point{x, 0, 0}, Point{x, 8, 0}, Point{x + 0.5, 8, 0}, Point{x + 0.5, 0, 0})
	}
	comb = append(comb, Point{19.5, -1, 0}, Point{0, -1, 0})
	var grid [][]Point
	for i := 0; i < 6; i++ {
		for j := 0; j < 6; j++ {
			grid = append(grid, mv([]Point{{0, 0, 0}, {0, 1, 0}, {1, 1, 0}, {1, 0, 0}}, float64(2*i), float64(2*j)))
		}
	}
	var chess [][]Point
	for i := 0; i < 5; i++ {
		for j := 0; j < 5; j++ {
			if (i+j)%2 == 0 {
				chess = append(chess, mv([]Point{{0, 0, 0}, {0, 1, 0}, {1, 1, 0}, {1, 0, 0}}, float64(i), float64(j)))
			}
		}
	}
	return []loopSet{
		{"star", [][]Point{star}, true},
		{"comb", [][]Point{comb}, true},
		{"grid of 36 squares", grid, true},
		{"chessboard", chess, false},
		{"300-gon", [][]Point{rev(ngon(300, 50, 0.01))}, true},
		{"ring of 100-gons", [][]Point{rev(ngon(100, 20, 0)), ngon(100, 19, 0.003)}, true},
	}
}

var c04Places = []struct {
	name string
	f    func(Point) Point
}{
	{"xy", func(p Point) Point { return p }},
	{"xz", func(p Point) Point { return Point{p.X, 3.5, p.Y} }},
	{"yz", func(p Point) Point { return Point{-2, p.X, p.Y} }},
	{"zx", func(p Point) Point { return Point{p.Y, 1, p.X} }},
	{"tilted", func(p Point) Point {
		return rotPoint(Point{p.X + 10, p.Y - 3, 2}, Point{}, Vector{1, 0.3, 0.2}, 37)
	}},
	{"turned", func(p Point) Point { return rotPoint(Point{p.X, p.Y, 7}, Point{}, AxisZ, 90) }},
}

func round8(p Point) Point {
	r := func(v float64) float64 { return math.Round(v*1e8) / 1e8 }
	return Point{r(p.X), r(p.Y), r(p.Z)}
}

// pieces: the loops as loose pieces of at most g segments, starting at index st.
func pieces(ls [][]Point, g, st, jit int, f func(Point) Point) (ps []Path, want []seg) {
	k := 0
	for _, l := range ls {
		n := len(l)
		at := func(i int) Point { return round8(f(l[(i+st)%n])) }
		for i := 0; i < n; {
			e := i + g
			if e > n {
				e = n
			}
			var p Path
			for q := i; q <= e; q++ {
				v := at(q)
				if q > i {
					want = append(want, seg{at(q - 1), v})
				}
				if q == i || q == e { // ends of a piece carry the rounding noise of the intersection
					k++
					switch jit {
					case 1:
						v.X += 1e-8 * float64(k%3-1)
					case 2:
						v.X += 1e-8 * float64(k%3-1)
						v.Y -= 1e-8 * float64(k/2%3-1)
						v.Z += 1e-8 * float64(k/3%3-1)
					}
				}
				p.Points = append(p.Points, v)
			}
			ps = append(ps, p)
			i = e
		}
	}
	return
}

func permute(x *X, n int) []int {
	rest := make([]int, n)
	for i := range rest {
		rest[i] = i
	}
	var r []int
	for len(rest) > 0 {
		i := x.Choose(len(rest))
		r = append(r, rest[i])
		rest = append(rest[:i:i], rest[i+1:]...)
	}
	return r
}

func patterned(kind, n int) []int {
	var r []int
	switch kind {
	case 0:
		for i := 0; i < n; i++ {
			r = append(r, i)
		}
	case 1:
		for i := n - 1; i >= 0; i-- {
			r = append(r, i)
		}
	case 2:
		for s := 0; s < 2; s++ {
			for i := s; i < n; i += 2 {
				r = append(r, i)
			}
		}
	case 3: // from the ends inwards
		for i, j := 0, n-1; i <= j; i, j = i+1, j-1 {
			r = append(r, i)
			if i != j {
				r = append(r, j)
			}
		}
	default: // a stride coprime to n
		st := []int{7, 11, 13, 37, 101}[kind-4]
		for gcd(st, n) != 1 {
			st++
		}
		for i := 0; i < n; i++ {
			r = append(r, i*st%n)
		}
	}
	return r
}

func gcd(a, b int) int {
	for b != 0 {
		a, b = b, a%b
	}
	return a
}

func checkJoined(x *X, got []Path, want []seg, chains int, disjoint, closed bool, what string) {
	segs := 0
	for _, p := range got {
		if len(p.Points) < 2 {
			x.Fail("contours", "%s: a contour of %d points", what, len(p.Points))
		}
		segs += len(p.Points) - 1
		if closed && dist(p.Points[0], p.Points[len(p.Points)-1]) > 2e-6 {
			x.Fail("contours", "%s: contour %d of %d is open: %v .. %v", what, len(got), len(p.Points), rp(p.Points[0]), rp(p.Points[len(p.Points)-1]))
		}
	}
	if d := chainDiff(pathSegs(got), want, 1e-6); d != "" {
		x.Fail("contours", "%s: the contours do not consist of the given segments: %s", what, d)
	}
	if lg, lw := segsLen(pathSegs(got)), segsLen(want); !near(lg, lw, 1e-5*(1+lw)) {
		x.Fail("contours", "%s: contour length %.6g instead of %.6g", what, lg, lw)
	}
	if disjoint && len(got) != chains {
		x.Fail("contours", "%s: %d contours instead of %d", what, len(got), chains)
	}
	if disjoint { // each contour is one of the given ones
		h := newHash().I(len(got)).I(segs)
		x.Outcome(h.Sum())
	}
}

func c04Perm(x *X) {
	s := loopSets()[x.Choose(len(loopSets()))]
	pl := c04Places[x.Choose(len(c04Places))]
	jit := x.Choose(3)
	g := 1 + x.Choose(2)
	drop := x.Choose(2) // 1: one segment is missing, the contour stays open
	ps, want := pieces(s.loops, g, 0, jit, pl.f)
	if len(ps) > Tier(x, 6, 8) {
		x.Prune()
	}
	closed := true
	if drop == 1 {
		if !s.disjoint || g != 1 {
			x.Prune()
		}
		ps, want, closed = ps[1:], want[1:], false
	}
	ord := permute(x, len(ps))
	x.Begin(fmt.Sprintf("%s in %s, pieces of %d segments, jitter %d, order %v, open %v", s.name, pl.name, g, jit, ord, !closed))
	in := make([]Path, len(ps))
	for i, o := range ord {
		in[i] = Path{Points: append([]Point{}, ps[o].Points...)}
	}
	got := JoinPaths3(in)
	x.Op(len(ord))
	x.State(newHash().S(s.name).S(pl.name).S(fmt.Sprint(ord)).Sum())
	checkJoined(x, got, want, len(s.loops), s.disjoint, closed, "joining")
	// the same with collinear edges merged
	for i, o := range ord {
		in[i] = Path{Points: append([]Point{}, ps[o].Points...)}
	}
	got = JoinPaths3AndMinimize(in)
	x.Op(len(ord))
	if !closed {
		return
	}
	if d := sameSection(pathSegs(got), want, planeNormal(want)); d != "" {
		x.Fail("minimized", "joined and minimized contours differ: %s", d)
	}
	for _, p := range got {
		if dist(p.Points[0], p.Points[len(p.Points)-1]) > 2e-6 {
			x.Fail("minimized", "joined and minimized contour is open")
		}
	}
}

func planeNormal(ss []seg) Vector {
	best := Vector{}
	for _, s := range ss {
		c := vcross(vsub(ss[0].b, ss[0].a), vsub(s.b, ss[0].a))
		if vlen(c) > vlen(best) {
			best = c
		}
	}
	return vunit(best)
}

func c04Big(x *X) {
	all := bigLoopSets()
	s := all[x.Choose(len(all))]
	pl := c04Places[x.Choose(len(c04Places))]
	jit := x.Choose(3)
	g := Pick(x, 1, 3)
	st := x.Choose(2)
	kind := x.Choose(9)
	x.Begin(fmt.Sprintf("%s in %s, pieces of %d segments from vertex %d, jitter %d, order pattern %d", s.name, pl.name, g, st*3, jit, kind))
	ps, want := pieces(s.loops, g, st*3, jit, pl.f)
	var in []Path
	for _, o := range patterned(kind, len(ps)) {
		in = append(in, Path{Points: append([]Point{}, ps[o].Points...)})
	}
	got := JoinPaths3(in)
	x.Op(len(in))
	x.State(newHash().S(s.name).S(pl.name).I(jit).I(g).I(st).I(kind).Sum())
	checkJoined(x, got, want, len(s.loops), s.disjoint, true, "joining")
}

// c04Minimize: every way to put extra vertices on the edges of a loop, from every starting vertex.
func c04Minimize(x *X) {
	bases := [][]Point{
		{{0, 0, 0}, {0, 3, 0}, {4, 0, 0}},
		{{0, 0, 0}, {0, 3, 0}, {3, 3, 0}, {3, 0, 0}},
		{{0, 0, 0}, {0, 6, 0}, {2, 6, 0}, {2, 2, 0}, {5, 2, 0}, {5, 0, 0}},
		{{0, 0, 0}, {-1, 5, 0}, {3, 2, 0}, {7, 6, 0}, {6, -1, 0}},
	}
	bi := x.Choose(len(bases))
	b := bases[bi]
	pl := c04Places[x.Choose(len(c04Places))]
	var l []Point
	d := ""
	for i := range b {
		k := x.Choose(Tier(x, 3, 4))
		d += fmt.Sprint(k)
		l = append(l, b[i])
		for j := 1; j <= k; j++ {
			l = append(l, lerp(b[i], b[(i+1)%len(b)], float64(j)/float64(k+1)))
		}
	}
	open := x.Bool()
	st := x.Choose(len(l))
	x.Begin(fmt.Sprintf("polygon %d in %s, extra vertices per edge %s, start %d, open %v", bi, pl.name, d, st, open))
	var p Path
	for i := 0; i <= len(l); i++ {
		if open && i == len(l) {
			break
		}
		p.Points = append(p.Points, pl.f(l[(i+st)%len(l)]))
	}
	in := Path{Points: append([]Point{}, p.Points...)}
	got := in.MinimizeLines()
	x.Op(1)
	x.State(newHash().I(bi).S(pl.name).S(d).I(st).Sum())
	x.Outcome(newHash().I(len(got.Points)).I(len(p.Points)).Sum())
	if dd := chainDiff(pathSegs([]Path{got}), pathSegs([]Path{p}), 1e-5); dd != "" {
		x.Fail("shape", "merging collinear edges changes the contour: %s", dd)
	}
	if lg, lw := segsLen(pathSegs([]Path{got})), segsLen(pathSegs([]Path{p})); !near(lg, lw, 1e-6*(1+lw)) {
		x.Fail("shape", "merging collinear edges changes the length %.9g to %.9g", lw, lg)
	}
	n := len(got.Points)
	if open {
		if dist(got.Points[0], p.Points[0]) > 1e-9 || dist(got.Points[n-1], p.Points[len(p.Points)-1]) > 1e-9 {
			x.Fail("shape", "an end of an open path moved")
		}
	} else {
		if dist(got.Points[0], got.Points[n-1]) > 1e-9 {
			x.Fail("shape", "the contour is not closed any more")
		}
		if n != len(b)+1 {
			x.Fail("collinear", "%d points left, the polygon has %d corners", n-1, len(b))
		}
	}
	for i := 1; i+1 < n; i++ {
		if vlen(vcross(vsub(got.Points[i], got.Points[i-1]), vsub(got.Points[i+1], got.Points[i]))) < 1e-9 {
			x.Fail("collinear", "points %d..%d are still collinear", i-1, i+1)
		}
	}
}

// c04Small: the section of solids as small as the finest details.
func c04Small(x *X) {
	n := Pick(x, 3, 5, 40, 300)
	r := Pick(x, 0.0004, 0.003, 0.05)
	at := x.Choose(3)
	inner := x.Bool()
	x.Begin(fmt.Sprintf("%d-gon of radius %g at %d, hole %v", n, r, at, inner))
	polys := [][]Point{ngon(n, r, 0.3)}
	if inner {
		polys = append(polys, revPts(ngon(n, r/2, 0.1)))
	}
	for i, p := range polys[0] {
		if dist(p, polys[0][(i+1)%n]) < 1e-5 {
			x.Prune() // edges as short as the tolerance
		}
	}
	if inner && n > 5 && r < 0.01 {
		x.Prune()
	}
	ts := shift(prismOf(polys, 2), []float64{0, 31.7, -118}[at], []float64{0, -12.2, 203}[at], 0)
	want := sectionChain(ts, AxisZ, 0.731, 1)
	for _, kind := range []string{"IntersectMesh", "slice"} {
		var ps []Path
		if kind == "slice" && dist(polys[0][0], polys[0][1]) < 0.003 {
			continue // the slicer merges edges that are nearly straight on this scale
		}
		x.Op(1)
		if kind == "slice" {
			sett := settingsT(4)
			ls := slicers.SliceByVector(meshOf(ts), AxisZ, sett)
			if len(ls) != 1 {
				x.Fail("small", "%d layers", len(ls))
			}
			ps = ls[0].Paths
			want = sectionChain(ts, AxisZ, 1, 1)
		} else {
			ps = Plane{P: Point{0, 0, 0.731}, N: AxisZ}.IntersectMesh(meshOf(ts)).Paths
		}
		if len(ps) != len(polys) {
			x.Fail("small", "%s: %d contours instead of %d", kind, len(ps), len(polys))
		}
		lw, lg := segsLen(want), segsLen(pathSegs(ps))
		if math.Abs(lw-lg) > 2e-2*lw {
			x.Fail("small", "%s: contours of length %g instead of %g", kind, lg, lw)
		}
		for _, p := range ps {
			if !p.IsClosed() {
				x.Fail("small", "%s: contour of %d points is open", kind, len(p.Points))
			}
		}
	}
	x.State(hashStr(x.desc))
	x.Outcome(hashStr(x.desc))
}

// cross-section of a mesh (Plane.IntersectMesh): disjoint contours, orientation and order are free
func c04IntersectMesh(x *X) {
	s := shapeCache[x.Choose(len(shapeCache))]
	n := Pick(x, AxisZ, AxisX, V(0, 1, 0), V(1, 2, 3), V(0, -1, 1))
	fr := Pick(x, 0.2371, 0.5123, 0.8417)
	x.Begin(fmt.Sprintf("shape %s cut by plane %v at %v of its extent", s.name, n, fr))
	n = vunit(n)
	lo, hi := minmax(s.ts, n)
	d := lo + (hi-lo)*fr
	want := sectionChain(s.ts, n, d, 1)
	deg := map[[3]int64]int{}
	for _, e := range want {
		for _, p := range []Point{e.a, e.b} {
			k := [3]int64{int64(math.Round(p.X * 1e5)), int64(math.Round(p.Y * 1e5)), int64(math.Round(p.Z * 1e5))}
			deg[k]++
			if deg[k] > 2 {
				x.Prune() // contours that touch are joined in any way
			}
		}
	}
	p := Plane{P: vadd(Point{}, vmul(n, d)), N: n}
	l := p.IntersectMesh(meshOf(s.ts))
	x.Op(1)
	x.State(newHash().S(s.name).F(n.X).F(n.Y).F(fr).Sum())
	x.Outcome(newHash().I(len(l.Paths)).I(len(want)).Sum())
	if len(want) == 0 {
		x.Trivial()
	}
	var und, wnd []seg
	for _, e := range pathSegs(l.Paths) {
		und = append(und, canonSeg(e))
	}
	for _, e := range want {
		wnd = append(wnd, canonSeg(e))
	}
	if dd := chainDiff(und, wnd, 1e-5); dd != "" {
		x.Fail("section", "the section is not the set of triangle intersections: %s", dd)
	}
	for _, q := range l.Paths {
		if len(q.Points) < 4 || dist(q.Points[0], q.Points[len(q.Points)-1]) > 1e-6 {
			x.Fail("section", "contour of %d points is open", len(q.Points))
		}
	}
}

func canonSeg(s seg) seg {
	a, b := s.a, s.b
	for _, d := range []float64{a.X - b.X, a.Y - b.Y, a.Z - b.Z} {
		if math.Abs(d) > 1e-5 {
			if d > 0 {
				return seg{b, a}
			}
			return s
		}
	}
	return s
}

func init() {
	register(&Prop{ID: "C04", Level: "model_checking",
		Rule:   "every order of the pieces (all permutations up to 6, thorough 8, pieces; 9 order patterns for large contours) x grouping x rounding noise x placement; every distribution of extra collinear vertices x start vertex",
		Assume: []string{"pieces are directed consistently, as the slicer produces them; ends that belong together differ by at most 2e-8 mm per axis"},
		Models: []Model{{Name: "permutations", Run: c04Perm}, {Name: "large", Run: c04Big}, {Name: "collinear", Run: c04Minimize}, {Name: "meshsection", Run: c04IntersectMesh}, {Name: "small", Run: c04Small}}})
}
