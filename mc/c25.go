//go:build go1.22

package main

import (
	"fmt"
	"math"
	"strings"

	"github.com/l1va/goosli/helpers"
	. "github.com/l1va/goosli/primitives"
	"github.com/l1va/goosli/slicers"
)

// C25: slicing along the profile of the model.

// loft: a tower of n-gons; ring k has radius r[k] and centre c[k].
func loft(n int, phase float64, r []float64, c []Point) []tri {
	at := func(k, i int) Point {
		a := (float64(i%n) + phase) * 2 * math.Pi / float64(n)
		return Point{c[k].X + r[k]*math.Cos(a), c[k].Y + r[k]*math.Sin(a), c[k].Z}
	}
	l := len(r) - 1
	var ts []tri
	for i := 1; i+1 < n; i++ {
		ts = append(ts, tri{at(0, 0), at(0, i+1), at(0, i)}, tri{at(l, 0), at(l, i), at(l, i+1)})
	}
	for k := 0; k < l; k++ {
		for i := 0; i < n; i++ {
			ts = append(ts, tri{at(k, i), at(k, i+1), at(k+1, i+1)}, tri{at(k, i), at(k+1, i+1), at(k+1, i)})
		}
	}
	return ts
}

func loopCentroid(ps []Point) Point {
	a, cx, cy := 0.0, 0.0, 0.0
	o := ps[0]
	for i := range ps {
		p, q := vsub(ps[i], o), vsub(ps[(i+1)%len(ps)], o)
		d := p.X*q.Y - q.X*p.Y
		a += d
		cx += (p.X + q.X) * d
		cy += (p.Y + q.Y) * d
	}
	return Point{o.X + cx/(3*a), o.Y + cy/(3*a), o.Z}
}

// refDP: the points Douglas-Peucker keeps; false when rounding decides
func refDP(ps []Point, eps float64) ([]Point, bool) {
	n := len(ps)
	if n < 3 {
		return append([]Point{}, ps...), true
	}
	best, second, at := -1.0, -1.0, 0
	for i := 1; i < n-1; i++ {
		d := refDist(ps[i], ps[0], ps[n-1])
		if d > best {
			best, second, at = d, best, i
		} else if d > second {
			second = d
		}
	}
	if math.Abs(best-eps) < 1e-6 {
		return nil, false
	}
	if best < eps {
		return []Point{ps[0], ps[n-1]}, true
	}
	if best-second < 1e-6 {
		return nil, false
	}
	a, ok1 := refDP(ps[:at+1], eps)
	b, ok2 := refDP(ps[at:], eps)
	return append(a[:len(a)-1:len(a)-1], b...), ok1 && ok2
}

// checkProfile slices ts by its profile and compares the G-code with the parts in their poses.
func checkProfile(x *X, ts []tri, sett slicers.Settings) {
	// the line through the centers of the layers
	lo, hi := minmax(ts, AxisZ)
	cnts := layerCounts(hi-lo, sett.LayerHeight)
	if len(cnts) > 1 {
		x.Prune()
	}
	var centers []Point
	refs := expectedLayers(x, ts, AxisZ, cnts[0])
	for i, r := range refs {
		ch := netChain(r.chain, 1e-5)
		if segsLen(ch) < 0.05 {
			if i == 0 || i == len(refs)-1 {
				x.Prune() // whether a layer without contours counts is not said
			}
		}
		ps := loopsFromChain(ch)
		if ps == nil {
			x.Prune()
		}
		var open [][]Point
		for _, p := range ps {
			open = append(open, openLoop(p))
		}
		if !simpleLoops(open, 1e-6) {
			x.Prune() // touching contours may be told apart in several ways
		}
		c := Point{Z: r.d}
		for _, p := range ps {
			q := loopCentroid(openLoop(p))
			c.X += q.X / float64(len(ps))
			c.Y += q.Y / float64(len(ps))
		}
		centers = append(centers, c)
	}
	var line []Point
	if len(centers) == 1 {
		line = []Point{centers[0], centers[0]}
	} else {
		var ok bool
		if line, ok = refDP(centers, sett.Epsilon); !ok {
			x.Prune()
		}
	}
	n := len(line) - 1
	rest := meshOf(ts)
	parts := make([][]tri, n)
	for i := 1; i < n; i++ {
		for _, t := range ts {
			for _, p := range t {
				if math.Abs(p.Z-line[i].Z) < 1e-4 {
					x.Prune()
				}
			}
		}
		up, down, err := helpers.CutMesh(rest, Plane{P: line[i], N: AxisZ})
		if err != nil {
			x.Fail("cut", "the mesh cannot be cut: %v", err)
		}
		parts[i-1], rest = trisOf(down), up
	}
	parts[n-1] = trisOf(rest)
	before := dumpTris(meshOf(ts).Triangles)
	m := meshOf(ts)
	x.Op(1)
	gc := slicers.SliceByProfile(m, sett)
	if a := dumpTris(m.Triangles); a != before {
		x.Fail("original", "the mesh is changed: %s", firstDiff(before, a))
	}
	chunks := strings.Split("\n"+render(&gc), "\nG62 ")
	if strings.TrimSpace(chunks[0]) != "" {
		x.Fail("pose", "something is printed before the bed is turned: %s", clip(chunks[0], 100))
	}
	chunks = chunks[1:]
	if len(chunks) != n {
		x.Fail("parts", "%d parts are printed, the profile %s has %d", len(chunks), clip(fmt.Sprint(line), 200), n)
	}
	mc := newMachine()
	done, total := 0, 0
	h := newHash()
	for i, ch := range chunks {
		if err := mc.run("G62 " + ch); err != nil {
			x.Fail("gcode", "%v", err)
		}
		ax, az := mc.g62[0], mc.g62[1]
		v := vsub(line[i+1], line[i])
		pose := func(p Point) Point { return rotPoint(rotPoint(p, Point{}, AxisZ, -az), Point{}, AxisX, -ax) }
		up := vsub(pose(vadd(Point{}, v)), Point{})
		if vlen(v) > 0 && !(math.Hypot(up.X, up.Y) < 2e-5*vlen(v)+1e-6 && up.Z > 0) {
			x.Fail("pose", "part %d: the profile goes along %v, in the pose %g %g it goes along %v, must be upright", i, rp(Point(v)), ax, az, rp(Point(up)))
		}
		if math.Abs(ax) > 90.001 {
			x.Fail("pose", "part %d: the bed is inclined by %g", i, ax)
		}
		pr := mc.printed()
		own := pr[done:]
		done = len(pr)
		if len(parts[i]) == 0 {
			if len(own) > 0 {
				x.Fail("extra", "part %d is empty, %d layers are printed", i, len(own))
			}
			continue
		}
		total += checkPrintedPart(x, own, mapTris(parts[i], pose), sett, false, 0, fmt.Sprintf("part %d of %d (pose %g %g)", i, n, ax, az))
		h.I(len(own)).F(math.Round(ax * 100)).F(math.Round(az * 100))
	}
	if total == 0 {
		x.Trivial()
	}
	x.State(hashStr(x.desc))
	x.Outcome(h.Sum())
}

func profileSettings(t, eps float64) slicers.Settings {
	sett := settingsT(t)
	sett.TopLayers, sett.BottomLayers, sett.FillDensity, sett.Epsilon = 0, 0, 0, eps
	g := *sett.GcodeSettings
	g.LayerHeight = t
	sett.GcodeSettings = &g
	return sett
}

func c25Towers(x *X) {
	n := 1 + x.Choose(3)
	nd := Tier(x, 8, 16)
	var dirs []int
	for i := 0; i < n; i++ {
		dirs = append(dirs, x.Choose(nd+1)) // nd: straight up
	}
	lean := Pick(x, 0.35, 1.3)
	eps := Pick(x, 0.3, 3.0)
	sides := Pick(x, 4, 5)
	th := Pick(x, 1.27, 0.71)
	if !x.Thorough && n == 3 && (dirs[0]+3*dirs[1]+5*dirs[2]+sides)%8 != 0 {
		x.Prune()
	}
	if n == 3 && th < 1 {
		x.Prune()
	}
	off := Pick(x, Point{2.3, -1.7, 0}, Point{-88.3, 61.2, 43})
	if off.Z > 0 && n == 3 && !x.Thorough {
		x.Prune()
	}
	x.Begin(fmt.Sprintf("tower of %d-gons at %v leaning %v by %g, layers %g, epsilon %g", sides, off, dirs, lean, th, eps))
	c := []Point{off}
	r := []float64{5}
	for i, d := range dirs {
		p := c[i]
		hgt := 6.1 + float64(i)*0.77
		q := Point{p.X, p.Y, p.Z + hgt}
		if d < nd {
			v := vecAt(float64(d)*360/float64(nd) + 3.1)
			q.X += v.X * lean * hgt
			q.Y += v.Y * lean * hgt
		}
		c = append(c, q)
		r = append(r, 5-0.5*float64(i+1))
	}
	checkProfile(x, loft(sides, 0.13, r, c), profileSettings(th, eps))
}

// c25Worms: profiles of many stretches.
func c25Worms(x *X) {
	n := Pick(x, 5, 7, 9, 13)
	kind := x.Choose(4)
	lean := Pick(x, 0.35, 0.9, 1.3)
	dir := Pick(x, 3.1, 97.0, 211.0)
	eps := Pick(x, 0.3, 1.0)
	th := Pick(x, 1.27, 2.3)
	x.Begin(fmt.Sprintf("worm of %d stretches kind %d dir %g leaning by %g, layers %g, epsilon %g", n, kind, dir, lean, th, eps))
	c := []Point{{2.3, -1.7, 0}}
	r := []float64{5}
	for i := 0; i < n; i++ {
		a := dir
		switch kind {
		case 0: // zigzag
			a += 180 * float64(i%2)
		case 1: // helix
			a += 75 * float64(i)
		case 2: // turn after turn, stretches of different lean
			a += 140 * float64(i%3)
		case 3: // straight up between the leaning ones
			a += 90 * float64(i/2)
		}
		l := lean * (1 + 0.1*float64(i%4))
		if kind == 3 && i%2 == 0 {
			l = 0
		}
		p := c[i]
		hgt := 5.1 + float64(i%3)*0.77
		v := vecAt(a)
		c = append(c, Point{p.X + v.X*l*hgt, p.Y + v.Y*l*hgt, p.Z + hgt})
		r = append(r, 5-0.2*float64(i+1))
	}
	checkProfile(x, loft(5, 0.13, r, c), profileSettings(th, eps))
}

func c25Shapes(x *X) {
	s := shapeCache[x.Choose(len(shapeCache))]
	th := Pick(x, 0.83, 1.61, 25)
	eps := Pick(x, 0.1, 1.0, 10)
	place := x.Choose(Tier(x, 4, 7))
	x.Begin(fmt.Sprintf("%s layers %g epsilon %g place %d", s.name, th, eps, place))
	ts := mapTris(s.ts, func(p Point) Point {
		p = rotPoint(p, Point{}, AxisZ, []float64{0, 47, 133, 222, 301, 10, 20}[place])
		return vadd(p, Vector{[]float64{0, 13.7, -40, 71, 5, 0, 140}[place], []float64{0, 2.2, 30, -60, 5, -60, 150}[place], []float64{0, 0, 0.4, 47, -11, 7, 160}[place]})
	})
	checkProfile(x, ts, profileSettings(th, eps))
}

// c25Fine: profiles of hundreds of centers, meshes of thousands of triangles
func c25Fine(x *X) {
	sides := Pick(x, 5, 37)
	rings := Pick(x, 8, 60)
	d1, d2 := x.Choose(3), x.Choose(3)
	th := Pick(x, 0.113, 0.37)
	eps := Pick(x, 0.3, 1.5)
	if sides > 5 && rings > 8 && th < 0.2 && !x.Thorough && d2 > 0 {
		x.Prune()
	}
	x.Begin(fmt.Sprintf("tower of %d-gons in %d rings leaning %d, %d, layers %g, epsilon %g", sides, rings, d1, d2, th, eps))
	p := Point{2.3, -1.7, 0}
	var c []Point
	var r []float64
	for k := 0; k <= rings; k++ {
		t := float64(k) / float64(rings)
		c = append(c, p)
		r = append(r, 5-t)
		l := vmul(vecAt(float64(d1)*120+3.1), 1.3)
		if t >= 0.5 {
			l = vmul(vecAt(float64(d2)*120+47), 0.9)
		}
		h := 27.7 / float64(rings) * (1 + 0.137*math.Sin(float64(7*k)))
		p = Point{p.X + l.X*h, p.Y + l.Y*h, p.Z + h}
	}
	checkProfile(x, loft(sides, 0.13, r, c), profileSettings(th, eps))
}

func init() {
	register(&Prop{ID: "C25", Level: "model_checking",
		Rule:   "every tower of 1 to 3 stretches leaning into every direction of a fan x layer height x epsilon; every solid of the catalogue x placement x layer height x epsilon",
		Assume: []string{"cutting planes miss the vertices by 1e-4 mm", "no ties in the simplification of the profile"},
		Models: []Model{{Name: "fine", Run: c25Fine}, {Name: "towers", Run: c25Towers}, {Name: "worms", Run: c25Worms}, {Name: "shapes", Run: c25Shapes}}})
}
