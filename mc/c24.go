//go:build go1.22

package main

import (
	"fmt"
	"math"
	"strconv"
	"strings"

	"github.com/l1va/goosli/helpers"
	. "github.com/l1va/goosli/primitives"
	"github.com/l1va/goosli/slicers/vip"
)

// C24: the analyzer suggests planes that support every overhang.

// planeWords reads "X1 Y2 Z3 Ttrue R4"
func planeWords(s string) (p Point, tilted bool, rot float64, err error) {
	w := strings.Fields(s)
	if len(w) != 5 {
		return p, false, 0, fmt.Errorf("%d words", len(w))
	}
	var v [5]float64
	for i, c := range "XYZTR" {
		if w[i][0] != byte(c) {
			return p, false, 0, fmt.Errorf("word %q", w[i])
		}
		if i == 3 {
			tilted, err = strconv.ParseBool(w[i][1:])
		} else {
			v[i], err = strconv.ParseFloat(w[i][1:], 64)
		}
		if err != nil {
			return
		}
	}
	return Point{v[0], v[1], v[2]}, tilted, v[4], nil
}

func c24Check(x *X, ts []tri, angle float64) {
	m := meshOf(ts)
	before := dumpTris(m.Triangles)
	x.Op(1)
	aps := vip.Analyze(m, angle)
	if a := dumpTris(m.Triangles); a != before {
		x.Fail("original", "the mesh is changed: %s", firstDiff(before, a))
	}
	if len(aps) > 6 {
		x.Fail("many", "%d planes", len(aps))
	}
	cur := meshOf(ts)
	up := AxisZ
	last := Plane{}
	h := newHash()
	for i := 0; ; i++ {
		// what hangs over now, relative to the direction of printing
		type cand struct {
			n    Vector
			low  []Point
			min  float64
			must bool
		}
		var cs []cand
		lim := math.Inf(1)
		for _, t := range trisOf(cur) {
			n := t.normal()
			if vlen(n) < 1e-9 {
				continue
			}
			a := angleBetween(n, vmul(up, -1))
			if a > 90-angle+1e-3 {
				continue
			}
			must := a < 90-angle-1e-3
			top, off := math.Inf(-1), 0.0
			for _, p := range t {
				top = math.Max(top, p.Z)
				off = math.Max(off, math.Abs(vdot(vsub(p, last.P), last.N)))
			}
			if top < 0.01-1e-6 { // on the bed
				continue
			}
			if i > 0 && off < 1e-7 { // on what is printed before
				continue
			}
			flat := math.Hypot(vunit(n).X, vunit(n).Y)
			if flat < 1e-9 {
				continue
			}
			if top < 0.01+1e-6 || i > 0 && off < 1e-4 || flat < 1e-4 || vlen(n) < 1e-4 || math.Hypot(n.X, n.Y) < 1e-4 {
				must = false
			}
			c := cand{n: n, must: must, min: math.Inf(1)}
			for _, p := range t {
				c.min = math.Min(c.min, pdot(p, up))
			}
			for _, p := range t {
				if pdot(p, up) < c.min+1e-5 {
					c.low = append(c.low, p)
				}
			}
			if must {
				lim = math.Min(lim, c.min)
			}
			cs = append(cs, c)
		}
		if i == len(aps) {
			if !math.IsInf(lim, 1) && i < 6 {
				x.Fail("missed", "after %d planes %v there still is an overhang that starts at %g along %v", i, aps, lim, rp(Point(up)))
			}
			break
		}
		ap := aps[i]
		h.S(ap.String())
		p, tilted, rot, err := planeWords(ap.String())
		if err != nil {
			x.Fail("text", "plane %q: %v", ap.String(), err)
		}
		if !finite(ap.P) || dist(p, ap.P) > 1e-3 {
			x.Fail("text", "plane through %v is written %q", rp(ap.P), ap.String())
		}
		if tilted != (i%2 == 0) {
			x.Fail("tilt", "plane %d of %v: planes are inclined and level in turn", i, aps)
		}
		var found *cand
		why := "no overhang starts there"
		for k := range cs {
			c := &cs[k]
			if c.min > lim+1e-5 {
				continue
			}
			at := false
			for _, q := range c.low {
				at = at || dist(q, ap.P) < 1e-5
			}
			if !at {
				continue
			}
			if tilted {
				az := math.Atan2(c.n.Y, c.n.X) * 180 / math.Pi
				want := Vector{math.Cos(az*math.Pi/180) * math.Sin(math.Pi/3), math.Sin(az*math.Pi/180) * math.Sin(math.Pi/3), 0.5}
				if vlen(vsub(Point(vunit(ap.N)), Point(want))) > 1e-4 {
					why = fmt.Sprintf("the overhang faces %g degrees, the plane has normal %v, must be %v", az, rp(Point(ap.N)), rp(Point(want)))
					continue
				}
				// what the text means
				tn := rotVec(rotVec(AxisZ, AxisX, -60), AxisZ, rot)
				if vlen(vsub(Point(tn), Point(want))) > 1e-4 {
					why = fmt.Sprintf("the overhang faces %g degrees, %q means normal %v", az, ap.String(), rp(Point(tn)))
					continue
				}
			} else if vlen(vsub(Point(vunit(ap.N)), Point(AxisZ))) > 1e-6 || rot != 0 {
				why = fmt.Sprintf("a level plane has normal %v and turn %g", rp(Point(ap.N)), rot)
				continue
			}
			found = c
			break
		}
		if found == nil {
			x.Fail("plane", "plane %d of %v: %s; the lowest overhang starts at %g along %v", i, aps, why, lim, rp(Point(up)))
		}
		last = Plane{P: ap.P, N: vunit(ap.N)}
		up = last.N
		next, _, err := helpers.CutMesh(cur, ap.Plane)
		if err != nil {
			x.Fail("cut", "%v", err)
		}
		cur = next
	}
	if len(aps) == 0 {
		x.Trivial()
	}
	x.State(hashStr(x.desc))
	x.Outcome(h.Sum())
}

func c24Shapes(x *X) {
	s := shapeCache[x.Choose(len(shapeCache))]
	nr := Tier(x, 9, 36)
	rot := x.Choose(nr)
	place := x.Choose(3)
	angle := Pick(x, 30.0, 10, 20, 45, 60, 75)
	x.Begin(fmt.Sprintf("%s turned %d place %d angle %g", s.name, rot, place, angle))
	lo, _ := minmax(s.ts, AxisZ)
	ts := mapTris(s.ts, func(p Point) Point {
		p = rotPoint(p, Point{}, AxisZ, float64(rot*360)/float64(nr)+0.7)
		return vadd(p, Vector{[]float64{0, 30, -17}[place], []float64{0, -25, 4.4}[place], []float64{-lo, -lo, -lo + 3}[place]})
	})
	c24Check(x, ts, angle)
}

// towers that lean into every direction and back
func c24Towers(x *X) {
	n := 1 + x.Choose(3)
	nd := Tier(x, 8, 12)
	var dirs []int
	for i := 0; i < n; i++ {
		dirs = append(dirs, x.Choose(nd+1))
	}
	lean := Pick(x, 0.4, 1.1, 2)
	sides := Pick(x, 4, 6)
	angle := Pick(x, 30.0, 50)
	if !x.Thorough && n == 3 && (dirs[0]+3*dirs[1]+5*dirs[2]+sides)%4 != 0 {
		x.Prune()
	}
	x.Begin(fmt.Sprintf("tower of %d-gons leaning %v by %g, angle %g", sides, dirs, lean, angle))
	c := []Point{{2.3, -1.7, 0}}
	r := []float64{5}
	for i, d := range dirs {
		p := c[i]
		hgt := 6.1 + float64(i)*0.77
		q := Point{p.X, p.Y, p.Z + hgt}
		if d < nd {
			v := vecAt(float64(d)*360/float64(nd) + 3.1)
			q.X += v.X * lean * hgt
			q.Y += v.Y * lean * hgt
		}
		c = append(c, q)
		r = append(r, 5-0.5*float64(i+1))
	}
	c24Check(x, loft(sides, 0.13, r, c), angle)
}

// c24Low: overhangs that start just above the bed, or are just as small.
func c24Low(x *X) {
	z := Pick(x, 0.012, 0.05, 0.13, 0.29, 0.4, 0.77)
	hgt := Pick(x, 0.02, 0.11, 0.3, 1.2)
	out := Pick(x, 0.04, 0.25, 2.0)
	dir := x.Choose(Tier(x, 8, 24))
	angle := Pick(x, 30.0, 50, 10)
	x.Begin(fmt.Sprintf("overhang from %g to %g that goes out by %g to %d, angle %g", z, z+hgt, out, dir, angle))
	v := vecAt(float64(dir)*360/float64(Tier(x, 8, 24)) + 3.1)
	b := []Point{{-5, -4, 0}, {5, -4, 0}, {5, 4, 0}, {-5, 4, 0}}
	var ls [][]Point
	for i, h := range []float64{0, z, z + hgt, z + hgt + 7} {
		var l []Point
		for _, p := range b {
			q := Point{p.X, p.Y, h}
			if i >= 2 && vdot(Vector{p.X, p.Y, 0}, v) > 0 {
				q.X += v.X * out
				q.Y += v.Y * out
			}
			l = append(l, rotPoint(q, Point{}, AxisZ, 12.3))
		}
		ls = append(ls, l)
	}
	var ts []tri
	for i := 0; i+1 < len(ls); i++ {
		for k := range b {
			p, q, r, s := ls[i][k], ls[i][(k+1)%4], ls[i+1][(k+1)%4], ls[i+1][k]
			ts = append(ts, tri{p, q, r}, tri{p, r, s})
		}
	}
	ts = append(ts, tri{ls[0][0], ls[0][2], ls[0][1]}, tri{ls[0][0], ls[0][3], ls[0][2]}, tri{ls[3][0], ls[3][1], ls[3][2]}, tri{ls[3][0], ls[3][2], ls[3][3]})
	c24Check(x, ts, angle)
}

// c24Ties: several bodies whose overhangs start at nearly the same height
func c24Ties(x *X) {
	n := 2 + x.Choose(2)
	delta := Pick(x, 0.0005, 0.004, 0.009, 0.03, 0.2)
	perm := x.Choose(n * (n - 1))
	d := x.Choose(Tier(x, 6, 12))
	z := Pick(x, 0.3, 4.0, 61)
	angle := Pick(x, 30.0, 50)
	x.Begin(fmt.Sprintf("%d bodies with overhangs from %g on, %g apart, order %d, leaning %d, angle %g", n, z, delta, perm, d, angle))
	var ts []tri
	left := []int{0, 1, 2}[:n]
	for i := 0; i < n; i++ {
		k := left[perm%len(left)]
		perm /= len(left)
		var o []int
		for _, q := range left {
			if q != k {
				o = append(o, q)
			}
		}
		left = o
		v := vmul(vecAt(float64(d*360)/float64(Tier(x, 6, 12))+float64(k)*77+3.1), 1.7)
		h := z + float64(k)*delta
		cx, cy := 40*float64(k)+2.3, -7.7*float64(k)
		c := []Point{{cx, cy, 0}, {cx, cy, h}, {cx + v.X*5, cy + v.Y*5, h + 5}, {cx + v.X*5, cy + v.Y*5, h + 9 + float64(k)*0.3}}
		ts = append(ts, loft(5, 0.13, []float64{5, 5, 4.7, 4.5}, c)...)
	}
	c24Check(x, ts, angle)
}

// c24Fine: thousands of triangles, in several orders
func c24Fine(x *X) {
	sides := Pick(x, 24, 61)
	rings := Pick(x, 12, 40)
	d1, d2 := x.Choose(4), x.Choose(3)
	order := x.Choose(3)
	angle := Pick(x, 30.0, 50)
	x.Begin(fmt.Sprintf("tower of %d-gons in %d rings leaning %d, %d, order %d, angle %g", sides, rings, d1, d2, order, angle))
	p := Point{2.3, -1.7, 0}
	var c []Point
	var r []float64
	for k := 0; k <= rings; k++ {
		t := float64(k) / float64(rings)
		c = append(c, p)
		r = append(r, 5-t+0.01*math.Sin(float64(k)*2.3))
		l := Vector{}
		switch {
		case t >= 0.3 && t < 0.6:
			l = vmul(vecAt(float64(d1)*90+3.1), 1.4)
		case t >= 0.7:
			l = vmul(vecAt(float64(d2)*120+47), 1.6)
		}
		h := 24.7 / float64(rings)
		p = Point{p.X + l.X*h, p.Y + l.Y*h, p.Z + h}
	}
	ts := loft(sides, 0.13, r, c)
	if order > 0 {
		n := len(ts)
		o := make([]tri, n)
		for i, t := range ts {
			o[[]int{0, n - 1 - i, i * 7 % n}[order]] = t
		}
		if order == 1 || n%7 != 0 {
			ts = o
		}
	}
	c24Check(x, ts, angle)
}

func init() {
	register(&Prop{ID: "C24", Level: "model_checking",
		Rule:   "every solid of the catalogue x turn x place x angle, every tower of 1 to 3 stretches leaning into every direction of a fan, bodies whose overhangs start at nearly the same height: the list of planes is replayed step by step",
		Models: []Model{{Name: "towers", Run: c24Towers}, {Name: "shapes", Run: c24Shapes}, {Name: "fine", Run: c24Fine}, {Name: "low", Run: c24Low}, {Name: "ties", Run: c24Ties}}})
}
