//go:build go1.22

package main

import (
	"fmt"
	"math"

	. "github.com/l1va/goosli/primitives"
)

// solid is a closed, outward oriented triangle mesh.
type solid struct {
	name string
	ts   []tri
}

// voxels meshes the occupied cells of an nx*ny*nz grid of boxes of size s at origin o.
func voxels(nx, ny, nz int, occ func(i, j, k int) bool, o Point, s Vector) []tri {
	in := func(i, j, k int) bool {
		return i >= 0 && j >= 0 && k >= 0 && i < nx && j < ny && k < nz && occ(i, j, k)
	}
	at := func(i, j, k int) Point {
		return Point{o.X + float64(i)*s.X, o.Y + float64(j)*s.Y, o.Z + float64(k)*s.Z}
	}
	var r []tri
	quad := func(a, b, c, d Point) { r = append(r, tri{a, b, c}, tri{a, c, d}) }
	for i := 0; i < nx; i++ {
		for j := 0; j < ny; j++ {
			for k := 0; k < nz; k++ {
				if !in(i, j, k) {
					continue
				}
				if !in(i-1, j, k) {
					quad(at(i, j, k), at(i, j, k+1), at(i, j+1, k+1), at(i, j+1, k))
				}
				if !in(i+1, j, k) {
					quad(at(i+1, j, k), at(i+1, j+1, k), at(i+1, j+1, k+1), at(i+1, j, k+1))
				}
				if !in(i, j-1, k) {
					quad(at(i, j, k), at(i+1, j, k), at(i+1, j, k+1), at(i, j, k+1))
				}
				if !in(i, j+1, k) {
					quad(at(i, j+1, k), at(i, j+1, k+1), at(i+1, j+1, k+1), at(i+1, j+1, k))
				}
				if !in(i, j, k-1) {
					quad(at(i, j, k), at(i, j+1, k), at(i+1, j+1, k), at(i+1, j, k))
				}
				if !in(i, j, k+1) {
					quad(at(i, j, k+1), at(i+1, j, k+1), at(i+1, j+1, k+1), at(i, j+1, k+1))
				}
			}
		}
	}
	return r
}

func box(x0, y0, z0, x1, y1, z1 float64) []tri {
	return voxels(1, 1, 1, func(i, j, k int) bool { return true }, Point{x0, y0, z0}, Vector{x1 - x0, y1 - y0, z1 - z0})
}

// cells meshes a picture: rows[k][j][i] != '.' is solid; k is the layer from the bottom.
func cells(rows [][]string, o Point, s Vector) []tri {
	nz, ny, nx := len(rows), len(rows[0]), len(rows[0][0])
	return voxels(nx, ny, nz, func(i, j, k int) bool { return rows[k][ny-1-j][i] != '.' }, o, s)
}

func ngon(n int, r float64, phase float64) []Point {
	ps := make([]Point, n)
	for i := range ps {
		a := (float64(i) + phase) * 2 * math.Pi / float64(n)
		ps[i] = Point{r * math.Cos(a), r * math.Sin(a), 0}
	}
	return ps
}

// earclip triangulates a simple counter-clockwise polygon.
func earclip(ps []Point) [][3]int {
	idx := make([]int, len(ps))
	for i := range idx {
		idx[i] = i
	}
	cr := func(a, b, c Point) float64 { return (b.X-a.X)*(c.Y-a.Y) - (b.Y-a.Y)*(c.X-a.X) }
	var res [][3]int
	for len(idx) > 3 {
		done := false
		for i := range idx {
			n := len(idx)
			a, b, c := idx[(i+n-1)%n], idx[i], idx[(i+1)%n]
			if cr(ps[a], ps[b], ps[c]) <= 1e-12 {
				continue
			}
			ok := true
			for _, q := range idx {
				if q == a || q == b || q == c {
					continue
				}
				if cr(ps[a], ps[b], ps[q]) >= -1e-12 && cr(ps[b], ps[c], ps[q]) >= -1e-12 && cr(ps[c], ps[a], ps[q]) >= -1e-12 {
					ok = false
					break
				}
			}
			if ok {
				res = append(res, [3]int{a, b, c})
				idx = append(idx[:i], idx[i+1:]...)
				done = true
				break
			}
		}
		if !done {
			panic("earclip")
		}
	}
	return append(res, [3]int{idx[0], idx[1], idx[2]})
}

// prism connects the ccw polygon at z0 with its image under f at the top.
func prism(ps []Point, z0, z1 float64, f func(Point) Point) []tri {
	if f == nil {
		f = func(p Point) Point { return p }
	}
	bot, top := make([]Point, len(ps)), make([]Point, len(ps))
	for i, p := range ps {
		bot[i] = Point{p.X, p.Y, z0}
		q := f(p)
		top[i] = Point{q.X, q.Y, z1}
	}
	var r []tri
	for _, e := range earclip(ps) {
		r = append(r, tri{bot[e[0]], bot[e[2]], bot[e[1]]}, tri{top[e[0]], top[e[1]], top[e[2]]})
	}
	for i := range ps {
		j := (i + 1) % len(ps)
		r = append(r, tri{bot[i], bot[j], top[j]}, tri{bot[i], top[j], top[i]})
	}
	return r
}

// ring: n-gon tube with an inner hole.
func ring(n int, ro, ri, z0, z1 float64) []tri {
	o, in := ngon(n, ro, 0.3), ngon(n, ri, 0.3)
	at := func(p Point, z float64) Point { return Point{p.X, p.Y, z} }
	var r []tri
	for i := 0; i < n; i++ {
		j := (i + 1) % n
		quad := func(a, b, c, d Point) { r = append(r, tri{a, b, c}, tri{a, c, d}) }
		quad(at(o[i], z0), at(o[j], z0), at(o[j], z1), at(o[i], z1))
		quad(at(in[i], z0), at(in[i], z1), at(in[j], z1), at(in[j], z0))
		quad(at(o[i], z1), at(o[j], z1), at(in[j], z1), at(in[i], z1))
		quad(at(o[i], z0), at(in[i], z0), at(in[j], z0), at(o[j], z0))
	}
	return r
}

// revolve: closed surface of revolution of the profile (r,z) from bottom to top; r=0 at ends makes poles.
func revolve(n int, prof [][2]float64) []tri {
	at := func(k, i int) Point {
		a := (float64(i%n) + 0.25) * 2 * math.Pi / float64(n)
		return Point{prof[k][0] * math.Cos(a), prof[k][0] * math.Sin(a), prof[k][1]}
	}
	var r []tri
	if prof[0][0] != 0 {
		c := Point{0, 0, prof[0][1]}
		for i := 0; i < n; i++ {
			r = append(r, tri{c, at(0, i+1), at(0, i)})
		}
	}
	for k := 0; k+1 < len(prof); k++ {
		for i := 0; i < n; i++ {
			a, b, c, d := at(k, i), at(k, i+1), at(k+1, i+1), at(k+1, i)
			if prof[k][0] != 0 {
				r = append(r, tri{a, b, c})
			}
			if prof[k+1][0] != 0 {
				r = append(r, tri{a, c, d})
			}
			if prof[k+1][0] == 0 && prof[k][0] != 0 {
				// first triangle already reaches the pole
				continue
			}
		}
	}
	l := len(prof) - 1
	if prof[l][0] != 0 {
		c := Point{0, 0, prof[l][1]}
		for i := 0; i < n; i++ {
			r = append(r, tri{c, at(l, i), at(l, i+1)})
		}
	}
	return r
}

func sphere(n, m int, r float64) []tri {
	prof := make([][2]float64, m+1)
	for k := 0; k <= m; k++ {
		a := -math.Pi/2 + math.Pi*float64(k)/float64(m)
		prof[k] = [2]float64{r * math.Cos(a), r * math.Sin(a)}
	}
	prof[0][0], prof[m][0] = 0, 0
	return revolve(n, prof)
}

func tetra(a, b, c, d Point) []tri {
	ts := []tri{{a, b, c}, {a, c, d}, {a, d, b}, {b, d, c}}
	if volume(ts, Point{}) < 0 {
		for i := range ts {
			ts[i][1], ts[i][2] = ts[i][2], ts[i][1]
		}
	}
	return ts
}

func octa(r float64) []tri {
	p := []Point{{r, 0, 0}, {0, r, 0}, {-r, 0, 0}, {0, -r, 0}}
	u, d := Point{0, 0, r}, Point{0, 0, -r}
	var ts []tri
	for i := range p {
		j := (i + 1) % 4
		ts = append(ts, tri{p[i], p[j], u}, tri{p[j], p[i], d})
	}
	return ts
}

func shift(ts []tri, x, y, z float64) []tri {
	return mapTris(ts, func(p Point) Point { return Point{p.X + x, p.Y + y, p.Z + z} })
}

func scale(ts []tri, k float64) []tri {
	return mapTris(ts, func(p Point) Point { return Point{p.X * k, p.Y * k, p.Z * k} })
}

func join(a ...[]tri) []tri {
	var r []tri
	for _, t := range a {
		r = append(r, t...)
	}
	return r
}

// shapes is the catalogue of closed solids used by several models.
func shapes() []solid {
	o := Point{}
	u := Vector{4, 4, 4}
	L := []Point{{0, 0, 0}, {9, 0, 0}, {9, 4, 0}, {4, 4, 0}, {4, 10, 0}, {0, 10, 0}}
	U := []Point{{0, 0, 0}, {12, 0, 0}, {12, 9, 0}, {8, 9, 0}, {8, 3, 0}, {4, 3, 0}, {4, 9, 0}, {0, 9, 0}}
	star := []Point{}
	for i := 0; i < 10; i++ {
		r := 8.0
		if i%2 == 1 {
			r = 3.5
		}
		a := (float64(i) + 0.2) * math.Pi / 5
		star = append(star, Point{r * math.Cos(a), r * math.Sin(a), 0})
	}
	l := []solid{
		{"cube", box(0, 0, 0, 10, 10, 10)},
		{"flatbox", box(-7, -5, 0, 7, 5, 2)},
		{"tower", box(-2, -2, 0, 2, 2, 30)},
		{"tetra", tetra(Point{0, 0, 0}, Point{10, 1, 0}, Point{2, 9, 1}, Point{3, 3, 8})},
		{"octa", octa(7)},
		{"prism3", prism(ngon(3, 8, 0.1), 0, 9, nil)},
		{"prism6", prism(ngon(6, 8, 0), 0, 9, nil)},
		{"frustum", prism(ngon(5, 9, 0.3), 0, 10, func(p Point) Point { return Point{p.X * 0.4, p.Y * 0.4, 0} })},
		{"funnel", prism(ngon(5, 3, 0.3), 0, 10, func(p Point) Point { return Point{p.X * 2.5, p.Y * 2.5, 0} })},
		{"shear+x", prism(ngon(4, 5, 0.5), 0, 10, func(p Point) Point { return Point{p.X + 15, p.Y, 0} })},
		{"shear-y", prism(ngon(4, 5, 0.5), 0, 10, func(p Point) Point { return Point{p.X, p.Y - 15, 0} })},
		{"L", prism(L, 0, 7, nil)},
		{"U", prism(U, 0, 7, nil)},
		{"star", prism(star, 0, 6, nil)},
		{"startwist", prism(star, 0, 6, func(p Point) Point { return Point{p.X*0.8 - p.Y*0.3, p.X*0.3 + p.Y*0.8, 0} })},
		{"ring4", cells([][]string{{"###", "#.#", "###"}}, o, u)},
		{"ring8", ring(8, 9, 4, 0, 6)},
		{"tube24", ring(24, 9, 7, 0, 12)},
		{"twolegs", cells([][]string{{"#.#"}, {"#.#"}}, o, u)},
		{"arch", cells([][]string{{"#.#"}, {"#.#"}, {"###"}}, o, u)},
		{"T", cells([][]string{{".#."}, {".#."}, {"###"}}, o, u)},
		{"stairs", cells([][]string{{"###"}, {"##."}, {"#.."}}, o, u)},
		{"overstairs", cells([][]string{{"#.."}, {"##."}, {"###"}}, o, u)},
		{"cavity", cells([][]string{{"###", "###", "###"}, {"###", "#.#", "###"}, {"###", "###", "###"}}, o, u)},
		{"islands", cells([][]string{{"#.#.#", ".....", "#.#.#"}}, o, u)},
		{"ringInRing", cells([][]string{{"#######", "#.....#", "#.###.#", "#.#.#.#", "#.###.#", "#.....#", "#######"}}, o, u)},
		{"comb", cells([][]string{{"#.#.#.#", "#.#.#.#", "#######"}}, o, Vector{2, 4, 3})},
		{"diag", cells([][]string{{"#.", ".#"}}, o, u)},
		{"checker", cells([][]string{{"#.#", ".#.", "#.#"}, {".#.", "#.#", ".#."}}, o, u)},
		{"cone", revolve(16, [][2]float64{{8, 0}, {0, 12}})},
		{"cup", revolve(20, [][2]float64{{0, -3}, {6, 0}, {9, 12}, {8, 12}, {5, 2}, {0, 0}})},
		{"spindle", revolve(12, [][2]float64{{0, 0}, {5, 4}, {2, 8}, {6, 12}, {0, 16}})},
		{"mushroom", revolve(18, [][2]float64{{3, 0}, {3, 6}, {9, 10}, {0, 14}})},
		{"sphere", sphere(16, 8, 9)},
	}
	return l
}

var shapeCache = shapes()

func shapeNamed(n string) []tri {
	for _, s := range shapeCache {
		if s.name == n {
			return s.ts
		}
	}
	panic(fmt.Sprint("no shape ", n))
}
