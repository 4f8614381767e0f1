//go:build go1.22

package main

import (
	"fmt"
	"math"
	"os"
	"path/filepath"

	"github.com/l1va/goosli/helpers"
	. "github.com/l1va/goosli/primitives"
)

// C18: simplification keeps the shape.

// refDist: distance of p to the line a-b (to the point, if they are the same)
func refDist(p, a, b Point) float64 {
	u := vsub(b, a)
	if vlen(u) == 0 {
		return dist(p, a)
	}
	return vlen(vcross(u, vsub(p, a))) / vlen(u)
}

// dpValid: may res (indices, increasing) be what is left between the first and the last of them
func dpValid(ps []Point, res []int, eps float64) string {
	lo, hi := res[0], res[len(res)-1]
	dmax := 0.0
	for k := lo + 1; k < hi; k++ {
		dmax = math.Max(dmax, refDist(ps[k], ps[lo], ps[hi]))
	}
	if len(res) == 2 {
		if dmax > eps+1e-9 {
			return fmt.Sprintf("a point between %v and %v is %.6g away from their line and is removed", rp(ps[lo]), rp(ps[hi]), dmax)
		}
		return ""
	}
	if dmax <= eps-1e-9 {
		return fmt.Sprintf("everything between %v and %v is within %.6g, but points are kept", rp(ps[lo]), rp(ps[hi]), dmax)
	}
	msg := fmt.Sprintf("the farthest point between %v and %v (%.6g) is removed, nearer ones are kept", rp(ps[lo]), rp(ps[hi]), dmax)
	for i := 1; i < len(res)-1; i++ {
		if refDist(ps[res[i]], ps[lo], ps[hi]) >= dmax-1e-9 {
			a, b := dpValid(ps, res[:i+1], eps), dpValid(ps, res[i:], eps)
			if a == "" && b == "" {
				return ""
			}
			msg = a + b
		}
	}
	return msg
}

// embed res in ps as a subsequence so that dpValid holds
func embed(ps, res []Point, eps float64) string {
	if len(res) < 2 {
		return fmt.Sprintf("%d points are left of %d", len(res), len(ps))
	}
	var idx []int
	last := "the result is not a part of the line in its order"
	ok := false
	var rec func(from int)
	rec = func(from int) {
		if ok {
			return
		}
		k := len(idx)
		if k == len(res) {
			if idx[k-1] == len(ps)-1 {
				m := dpValid(ps, idx, eps)
				if ok = m == ""; !ok {
					last = m
				}
			}
			return
		}
		for i := from; i < len(ps); i++ {
			if k == 0 && i > 0 {
				break
			}
			if ps[i] == res[k] {
				idx = append(idx, i)
				rec(i + 1)
				idx = idx[:k]
			}
		}
	}
	rec(0)
	if ok {
		return ""
	}
	return last
}

func c18Lines(x *X) {
	n := 2 + x.Choose(Tier(x, 4, 5))
	eps := Pick(x, 0.0, 0.45, 0.8, 1.0, 1.7)
	ps := make([]Point, n)
	for i := range ps {
		k := x.Choose(9)
		ps[i] = Point{float64(k % 3), float64(k/3) * 1.25, 0}
	}
	lift := x.Choose(2)
	if lift == 1 && n > Tier(x, 4, 5) {
		x.Prune()
	}
	for i := range ps {
		if lift == 1 {
			ps[i].Z = float64(i) * 0.7
			ps[i].X += 40
		}
	}
	x.Begin(fmt.Sprintf("line %v epsilon %g", ps, eps))
	c18Line(x, ps, eps)
}

func c18Line(x *X, ps []Point, eps float64) {
	in := append([]Point{}, ps...)
	x.Op(1)
	res := helpers.SimplifyLine(in, eps)
	for i := range ps {
		if in[i] != ps[i] {
			x.Fail("input", "point %d of the line is changed: %v, was %v", i, in[i], ps[i])
		}
	}
	if m := embed(ps, res, eps); m != "" {
		x.Fail("shape", "%v: %s", res, m)
	}
	h := newHash()
	for _, p := range res {
		h.F(p.X)
		h.F(p.Y)
	}
	x.State(h.Sum())
	x.Outcome(h.Sum())
}

// long lines: arcs, zigzags, spirals
func c18Long(x *X) {
	kind := Pick(x, "arc", "zigzag", "spiral", "noise", "helix")
	n := Pick(x, 10, 33, 100, 257, 301, 1025)
	eps := Pick(x, 0.001, 0.05, 0.3, 2, 10)
	x.Begin(fmt.Sprintf("%s of %d points, epsilon %g", kind, n, eps))
	var ps []Point
	for i := 0; i < n; i++ {
		t := float64(i) / float64(n)
		switch kind {
		case "arc":
			ps = append(ps, Point{10 * math.Cos(3*t), 10 * math.Sin(3*t), 1})
		case "zigzag":
			ps = append(ps, Point{20 * t, float64(i%2) * (1 + t), float64(i)})
		case "spiral":
			ps = append(ps, Point{20 * t * math.Cos(20*t), 20 * t * math.Sin(20*t), 0})
		case "noise":
			ps = append(ps, Point{float64(i), float64(i*i*7919%101) / 50, float64(i*31%17) / 10})
		case "helix":
			ps = append(ps, Point{3 * math.Cos(15*t), 3 * math.Sin(15*t), 30 * t})
		}
	}
	c18Line(x, ps, eps)
}

func c18Mesh(x *X) {
	names := []string{"grid2", "grid3", "grid421", "cube", "L", "ring8", "tube24", "arch", "stairs", "sphere", "cup", "cavity", "islands"}
	name := names[x.Choose(len(names))]
	var ts []tri
	exact := -1 // from this number of triangles on, the shape does not change
	all := func(i, j, k int) bool { return true }
	switch name {
	case "grid2":
		ts, exact = voxels(2, 2, 2, all, Point{-3, 2, 0}, Vector{5, 3, 4}), 12
	case "grid3":
		ts, exact = voxels(3, 3, 3, all, Point{-3, 2, 0}, Vector{2, 3, 4}), 12
	case "grid421":
		ts, exact = voxels(4, 2, 1, all, Point{0, 0, 10}, Vector{2, 2, 2}), 12
	default:
		ts = shapeNamed(name)
	}
	n := len(ts)
	targets := []int{n + 5, n, n - 1, n - 2, n * 3 / 4, n / 2, 20, 12}
	target := targets[x.Choose(len(targets))]
	via := x.Choose(2)
	if via == 1 && target != n/2 && target != n+5 || target < 12 && target < n {
		x.Prune()
	}
	scl := Pick(x, 1.0, 0.0005, 150)
	x.Begin(fmt.Sprintf("mesh %s x%g of %d triangles to %d, via %d", name, scl, n, target, via))
	ts = scale(ts, scl)
	m := meshOf(ts)
	before := dumpTris(m.Triangles)
	x.Op(1)
	var r *Mesh
	var err error
	if via == 0 {
		r, err = helpers.SimplifyMesh(m, target)
	} else {
		dir := filepath.Join(x.Scratch, "simp")
		os.MkdirAll(dir, 0755)
		copyData(dir)
		must(SaveSTL(filepath.Join(dir, "m.stl"), m))
		code, out := runCLI(dir, -1, "goosli_simplifier", "-s", "m.stl", "-o", "r.stl", "-t", fmt.Sprint(target))
		if code != 0 {
			x.Fail("exit", "simplifier exits with %d: %s", code, clip(out, 200))
		}
		r, err = LoadSTL(filepath.Join(dir, "r.stl"))
		ts = round32(ts)
	}
	if err != nil || r == nil {
		x.Fail("error", "simplification fails: %v", err)
	}
	if after := dumpTris(m.Triangles); after != before {
		x.Fail("input", "the simplified mesh is changed: %s", firstDiff(before, after))
	}
	got := trisOf(r)
	for i, t := range r.Triangles {
		if via == 0 && vlen(Vector{t.N.X - got[i].normal().X, t.N.Y - got[i].normal().Y, t.N.Z - got[i].normal().Z}) > 1e-9*(1+vlen(t.N)) {
			x.Fail("normal", "triangle %d has normal %v, must be %v", i, t.N, got[i].normal())
		}
	}
	if target >= n {
		if dumpTris(meshOf(got).Triangles) != dumpTris(meshOf(ts).Triangles) {
			x.Fail("same", "a mesh of %d triangles is changed though %d are allowed", n, target)
		}
		x.Outcome(hashTris(got))
		return
	}
	if len(got) > target && (exact >= 0 || target > n/2) {
		x.Fail("count", "%d triangles are left, %d asked for", len(got), target)
	}
	if len(got) >= n {
		x.Fail("count", "%d triangles are left of %d", len(got), n)
	}
	tol := 1e-6 * math.Max(scl, 1e-3)
	if via == 1 {
		tol *= 100
	}
	if d := meshBoundary(got, tol); d != "" {
		x.Fail("closed", "simplified mesh is open: %s", d)
	}
	if exact >= 0 && target >= exact {
		va, vb := volume(ts, Point{}), volume(got, Point{})
		slack := 1e-3
		if target < 2*exact { // few triangles: the last collapse in a plane can be barred by the others
			slack = 0.3
		}
		if !near(va, vb, slack*va) {
			x.Fail("solid", "a box of volume %.6g becomes %.6g", va, vb)
		}
		for _, ax := range []Vector{AxisX, AxisY, AxisZ} {
			a0, a1 := minmax(ts, ax)
			b0, b1 := minmax(got, ax)
			if !near(a0, b0, slack*(a1-a0)) || !near(a1, b1, slack*(a1-a0)) {
				x.Fail("solid", "the box reaches from %g to %g, was %g to %g", b0, b1, a0, a1)
			}
		}
	} else {
		va, vb := volume(ts, Point{}), volume(got, Point{})
		if target >= n-2 && !near(va, vb, math.Max(0.12*va, 1.1*oneCollapse(ts))) || target >= n/2 && vb < -0.01*va {
			x.Fail("solid", "volume %.6g becomes %.6g", va, vb)
		}
	}
	x.State(newHash().I(len(got)).S(name).Sum())
	x.Outcome(newHash().I(len(got)).S(name).I(via).Sum())
}

// oneCollapse: the most the volume changes when one edge shrinks to a point of it (linear along the
// edge); which edge it is, is left to the library when several are as good
func oneCollapse(ts []tri) float64 {
	va, worst := volume(ts, Point{}), 0.0
	for _, t := range ts {
		for k := range t {
			a, b := t[k], t[(k+1)%3]
			for _, to := range []Point{a, b} {
				rs := mapTris(ts, func(p Point) Point {
					if p == a || p == b {
						return to
					}
					return p
				})
				worst = math.Max(worst, math.Abs(volume(rs, Point{})-va))
			}
		}
	}
	return math.Min(worst, va/2)
}

func c18Edge(x *X) {
	k := x.Choose(4)
	x.Begin(fmt.Sprintf("edge case %d", k))
	x.Op(1)
	switch k {
	case 0:
		if r, err := helpers.SimplifyMesh(nil, 10); err == nil {
			x.Fail("nil", "no mesh is simplified to %v", r)
		}
	case 1:
		r, err := helpers.SimplifyMesh(&Mesh{}, 10)
		if err != nil || r == nil || len(r.Triangles) != 0 {
			x.Fail("empty", "an empty mesh becomes %v, %v", r, err)
		}
	case 2:
		if r := helpers.SimplifyLine(nil, 1); len(r) != 0 {
			x.Fail("empty", "an empty line becomes %v", r)
		}
	case 3:
		p := Point{1, 2, 3}
		for _, q := range helpers.SimplifyLine([]Point{p}, 1) {
			if q != p {
				x.Fail("single", "a single point %v becomes %v", p, q)
			}
		}
	}
	x.Outcome(uint64(k))
}

func init() {
	register(&Prop{ID: "C18", Level: "model_checking",
		Rule:   "every line of up to 5 (6) points of a 3x3 grid x epsilon; every mesh x number of triangles to leave",
		Models: []Model{{Name: "lines", Run: c18Lines}, {Name: "long", Run: c18Long}, {Name: "mesh", Run: c18Mesh}, {Name: "edge", Run: c18Edge}}})
}
