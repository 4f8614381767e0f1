//go:build go1.22

package main

import (
	"fmt"
	"math"

	. "github.com/l1va/goosli/primitives"
)

// C19: turning and moving is rigid.

type motion struct {
	axis  int // 0: about X, 1: about Z, 2: shift
	angle float64
	c     Point
	v     Vector
}

func (m motion) String() string {
	switch m.axis {
	case 0:
		return fmt.Sprintf("X%g about %v", m.angle, m.c)
	case 1:
		return fmt.Sprintf("Z%g about %v", m.angle, m.c)
	}
	return fmt.Sprintf("shift %v", m.v)
}

// the matrices turn clockwise, seen from the tip of the axis
func (m motion) ref(p Point) Point {
	switch m.axis {
	case 0:
		return rotExact(p, m.c, 0, -m.angle)
	case 1:
		return rotExact(p, m.c, 2, -m.angle)
	}
	return vadd(p, m.v)
}

// rotation about a coordinate axis, counterclockwise
func rotExact(p, c Point, axis int, deg float64) Point {
	s, co := math.Sincos(math.Mod(deg, 360) * math.Pi / 180)
	v := vsub(p, c)
	switch axis {
	case 0:
		v = Vector{v.X, v.Y*co - v.Z*s, v.Y*s + v.Z*co}
	case 1:
		v = Vector{v.X*co + v.Z*s, v.Y, -v.X*s + v.Z*co}
	default:
		v = Vector{v.X*co - v.Y*s, v.X*s + v.Y*co, v.Z}
	}
	return vadd(c, v)
}

func chooseMotion(x *X, few bool) motion {
	angles := []float64{0, 30, 45, 60, 90, 180, 270, 360, -60, -135, 37.3, 725}
	centers := []Point{{}, {10, -4, 2.5}, {0, 0, 80}, {1200, -800, 300}, {-0.013, 0.007, 0.0005}, {700, 0, 0}, {0, -2e4, 0}, {3, -5, 2}}
	if few {
		angles = []float64{60, -135, 90, 37.3}
		centers = centers[:2]
	}
	m := motion{axis: x.Choose(3)}
	if m.axis == 2 {
		m.v = Pick(x, Vector{5, -3, 2}, Vector{0, 0, -12.5}, Vector{}, Vector{0, 7.1, 0}, Vector{-4, 0, 0}, Vector{0, -0.3, 60}, Vector{3e4, -250, 0.0004}, Vector{0, 900, 0})
		if few && (m.v.Y == 7.1 || m.v.X == -4 || m.v.Y == 900) && !x.Thorough {
			x.Prune()
		}
		return m
	}
	m.angle = angles[x.Choose(len(angles))]
	m.c = centers[x.Choose(len(centers))]
	return m
}

func c19Meshes(x *X) {
	names := []string{"cube", "L", "tetra", "cup", "sphere", "cavity"}
	name := names[x.Choose(len(names))]
	n := 1 + x.Choose(Tier(x, 2, 3))
	var ms []motion
	for i := 0; i < n; i++ {
		ms = append(ms, chooseMotion(x, n > 1))
	}
	size := 1.0
	if n == 1 {
		size = Pick(x, 1.0, 130.0, 0.02)
	}
	x.Begin(fmt.Sprintf("%s x%g: %v", name, size, ms))
	ts := scale(shapeNamed(name), size)
	m := meshOf(ts)
	for i, mo := range ms {
		before := dumpTris(m.Triangles)
		old := m
		want := mapTris(ts, mo.ref)
		x.Op(1)
		switch mo.axis {
		case 0:
			m = m.Rotate(RotationAroundX(mo.angle), mo.c)
		case 1:
			m = m.Rotate(RotationAroundZ(mo.angle), mo.c)
		default:
			cp := m.CopyTriangles()
			mm := NewMesh(cp)
			m = &mm
			m.Shift(mo.v)
		}
		if a := dumpTris(old.Triangles); a != before {
			x.Fail("original", "step %d %v changes the original mesh: %s", i, mo, firstDiff(before, a))
		}
		if len(m.Triangles) != len(want) {
			x.Fail("triangles", "%d triangles become %d", len(want), len(m.Triangles))
		}
		got := trisOf(m)
		for k, t := range got {
			for j := range t {
				if dist(t[j], want[k][j]) > 1e-9*(10+vlen(vsub(t[j], Point{}))) || !finite(t[j]) {
					x.Fail("point", "step %d %v: point %d of triangle %d goes to %v, must go to %v", i, mo, j, k, rp(t[j]), rp(want[k][j]))
				}
			}
			nn := t.normal()
			if d := vsub(Point(m.Triangles[k].N), Point(nn)); vlen(d) > 1e-9*(1+vlen(nn))+1e-13*vlen(vsub(t[0], Point{}))*math.Sqrt(vlen(nn)) {
				x.Fail("normal", "step %d %v: normal of triangle %d is %v, must be %v", i, mo, k, m.Triangles[k].N, nn)
			}
		}
		for _, dir := range []Vector{AxisZ, AxisX, {1, -2, 2}} {
			a, b := m.MinMaxZ(dir)
			lo, hi := math.Inf(1), math.Inf(-1)
			for _, t := range want {
				for _, p := range t {
					lo, hi = math.Min(lo, pdot(p, dir)), math.Max(hi, pdot(p, dir))
				}
			}
			if !near(a, lo, 1e-7+1e-12*math.Abs(lo)) || !near(b, hi, 1e-7+1e-12*math.Abs(hi)) {
				x.Fail("extent", "step %d: along %v the mesh reaches from %g to %g, must be %g to %g", i, dir, a, b, lo, hi)
			}
		}
		ts = want
	}
	x.State(hashTris(trisOf(m)))
	x.Outcome(hashTris(trisOf(m)))
}

func c19Vectors(x *X) {
	dirs := directions(Tier(x, 2, 3))
	v := dirs[x.Choose(len(dirs))]
	ang := Pick(x, 0.0, 1, 15, 30, 45, 60, 90, 120, 180, 225, 270, 359, 360, -1, -45, -90, -210, 400)
	k := Pick(x, 1.0, 0.01, 37)
	x.Begin(fmt.Sprintf("vector %v*%g by %g", v, k, ang))
	v = vmul(v, k)
	same := func(key string, got, want Vector) {
		if !(vlen(vsub(Point(got), Point(want))) <= 1e-9*(1+vlen(want))) {
			x.Fail(key, "%v turned by %g: %s gives %v, must be %v", v, ang, key, got, want)
		}
	}
	ref := func(axis int, deg float64) Vector { return Vector(rotExact(Point(v), Point{}, axis, deg)) }
	x.Op(6)
	same("RotationAroundX", v.Rotate(RotationAroundX(ang)), ref(0, -ang))
	same("RotationAroundZ", v.Rotate(RotationAroundZ(ang)), ref(2, -ang))
	same("RotateAbout X", v.RotateAbout(AxisX, ang), ref(0, ang))
	same("RotateAbout Y", v.RotateAbout(AxisY, ang), ref(1, ang))
	same("RotateAbout Z", v.RotateAbout(AxisZ, ang), ref(2, ang))
	pl := Plane{Point{3, -4, 5}, v}
	r := pl.Rotate(RotationAroundZ(ang))
	same("Plane.Rotate", r.N, ref(2, -ang))
	if w := rotExact(pl.P, Point{}, 2, -ang); dist(r.P, w) > 1e-9*10 {
		x.Fail("Plane.Rotate", "point of the plane goes to %v, must go to %v", r.P, w)
	}
	// about any axis: parallel part stays, perpendicular part turns counterclockwise
	for _, b := range []Vector{{1, 1, 1}, {0, -3, 4}, {0.02, 0, 0.01}, v} {
		x.Op(1)
		got := v.RotateAbout(b, ang)
		u := vunit(b)
		par := vmul(u, vdot(v, u))
		per := Vector{v.X - par.X, v.Y - par.Y, v.Z - par.Z}
		s, c := math.Sincos(ang * math.Pi / 180)
		w := vcross(u, per)
		same("RotateAbout", got, Vector{par.X + per.X*c + w.X*s, par.Y + per.Y*c + w.Y*s, par.Z + per.Z*c + w.Z*s})
	}
	x.State(newHash().F(v.X).F(v.Y).F(v.Z).F(ang).Sum())
	x.Outcome(newHash().F(v.X).F(v.Y).F(v.Z).F(ang).Sum())
}

func init() {
	register(&Prop{ID: "C19", Level: "model_checking",
		Rule:   "every sequence of up to 2 (3) rotations and shifts of a mesh; every vector of an integer grid x angle x axis",
		Models: []Model{{Name: "meshes", Run: c19Meshes}, {Name: "vectors", Run: c19Vectors}}})
}
