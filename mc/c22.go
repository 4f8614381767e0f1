//go:build go1.22

package main

import (
	"fmt"
	"math"
	"os"
	"path/filepath"
	"strings"
	"time"

	. "github.com/l1va/goosli/primitives"
)

// C22: no model and no settings make a command crash or hang.

var hardSettings = [][]string{
	{"-t", "0.7"},
	{"-t", "1.9", "--wall_thickness", "0.4", "--fill_density", "100"},
	{"-t", "1.3", "--wall_thickness", "6", "--filling_type", "Squares"},
	{"-t", "40", "--top_layers", "0", "--bottom_layers", "0"},
	{"-t", "2.5", "--wall_thickness", "0", "--fill_density", "0", "--skirt_line_count", "0"},
	{"-t", "1.1", "--line_width", "1.7", "--wall_thickness", "3.4", "--filling_type", "Triangles", "--fill_density", "35"},
	{"-t", "1.6", "--epsilon", "0", "--retraction_on"},
	{"-t", "2.1", "--top_layers", "90", "--bottom_layers", "90", "--filling_type", "Unknown"},
	{"-t", "1.7", "--supports_on"},
	{"-t", "1.7", "--supports_on", "-a", "0", "--support_offset", "0", "--epsilon", "0.3"},
	{"-t", "1.7", "--planes_file", "cuts.txt", "--skirt_line_count", "40"},
	{"-t", "3.3", "--planes_file", "many.txt", "--rotcx", "5"},
	{"-t", "3.3", "--planes_file", "empty.txt", "--originx=-30", "--originz", "2"},
	{"-t", "1.5", "--originx=0.1", "--originy=-55", "--originz=-4"},
}

var c22Files map[string]string

func c22Run(x *X, dir, tool string, b []byte, args []string) {
	must(os.RemoveAll(dir))
	copyData(dir)
	must(os.WriteFile(filepath.Join(dir, "m.stl"), b, 0644))
	must(os.WriteFile(filepath.Join(dir, "cuts.txt"), []byte(cuts21), 0644))
	must(os.WriteFile(filepath.Join(dir, "empty.txt"), nil, 0644))
	must(os.WriteFile(filepath.Join(dir, "many.txt"), []byte("X0 Y0 Z2.013 Tfalse R0\nX1 Y1 Z3.17 Ttrue R90\nX0 Y0 Z4.0 Tfalse R0\nX0 Y0 Z6.9 Ttrue R-120.5\nX500 Y0 Z900 Ttrue R0\n"), 0644))
	for f, text := range c22Files {
		must(os.WriteFile(filepath.Join(dir, f), []byte(text), 0644))
	}
	x.Op(1)
	code, log := runCLITimed(dir, 45*time.Second, tool, args...)
	switch {
	case code == 254:
		x.Fail("hang", "does not end within 45 s: %s", clip(log, 200))
	case strings.Contains(log, "panic:") || strings.Contains(log, "goroutine "):
		i := strings.Index(log, "panic:")
		x.Fail("crash", "%s", clip(log[max(i, 0):], 400))
	case code != 0:
		x.Fail("status", "status %d: %s", code, clip(log, 300))
	}
}

func c22Modes(x *X) {
	si := x.Choose(len(shapeCache))
	kind := Pick(x, "3axes", "vip", "5axes", "5axes_by_profile")
	st := x.Choose(len(hardSettings))
	turn := x.Choose(Tier(x, 2, 5))
	if !x.Thorough && (si+st+turn)%2 != 0 {
		x.Prune()
	}
	args := append([]string{"-s", "m.stl", "-o", "o.gcode", "--slicing_type", kind}, hardSettings[st]...)
	x.Begin(fmt.Sprintf("%s turned %d: %s", shapeCache[si].name, turn, strings.Join(args, " ")))
	ts := shapeCache[si].ts
	lo, _ := minmax(ts, AxisZ)
	ts = shift(ts, 0, 0, -lo)
	if turn > 0 {
		ts = mapTris(ts, func(p Point) Point { return rotPoint(p, Point{}, AxisZ, []float64{0, 33.3, 90, 201.7, 315}[turn]) })
	}
	c22Program(x, ts, "c22", args)
}

// solids made of many triangles, of parts that stand one over another with a gap, of bodies of very
// different size; the decision where to cut is made on a simplified mesh when there are many triangles
func c22Special() []solid {
	rev := func(n int, off, z float64, prof ...[2]float64) []tri { return shift(revolve(n, prof), off, 0, z) }
	fine := func(n, m int, r func(t float64) (float64, float64)) []tri { // profile of m points
		var prof [][2]float64
		for k := 0; k <= m; k++ {
			a, b := r(float64(k) / float64(m))
			prof = append(prof, [2]float64{a, b})
		}
		return revolve(n, prof)
	}
	lean := func(n, m int, k, a float64) []tri { // finely meshed leaning tower
		ts := fine(n, m, func(t float64) (float64, float64) { return 5, 30 * t })
		return mapTris(ts, func(p Point) Point {
			d := 0.0
			if p.Z > 9 {
				d = (p.Z - 9) * k
			}
			return Point{p.X + d*math.Cos(a), p.Y + d*math.Sin(a), p.Z}
		})
	}
	return []solid{
		{"gap stack", join(rev(24, 0, 0, [2]float64{6, 0}, [2]float64{6, 5}), rev(24, 0, 9, [2]float64{7, 0}, [2]float64{7, 5}))},
		{"gap stack lifted", join(rev(24, 0, 0, [2]float64{6, 0}, [2]float64{9, 3}), rev(24, 3, 11, [2]float64{7, 0}, [2]float64{2, 5}))},
		{"gap cubes", join(box(0, 0, 0, 9, 9, 4), box(1, 1, 8, 7, 7, 13), box(20, 0, 16, 28, 9, 20))},
		{"two stacks", join(box(0, 0, 0, 5, 5, 4), box(15, 0, 0, 20, 5, 9), box(0, 0, 8, 5, 5, 13))},
		{"disc and needle", join(rev(32, 0, 0, [2]float64{9, 0}, [2]float64{9, 2}), shift(box(-0.3, -0.3, 0, 0.3, 0.3, 0.4), 0, 0, 6))},
		{"fine sphere", sphere(60, 40, 12)},
		{"fine vase", fine(64, 40, func(t float64) (float64, float64) { return 8 + 4*math.Sin(5*t), 30 * t })},
		{"fine mushroom", fine(48, 48, func(t float64) (float64, float64) { return 4 + 9*math.Max(0, t-0.5), 24 * t })},
		{"fine lean", lean(48, 40, 1.7, 0.4)},
		{"fine lean -y", lean(48, 40, 2.1, -1.9)},
		{"fine two", join(lean(40, 24, 1.8, 0.1), shift(lean(40, 24, 1.8, 3.3), 25, 1, 0))},
		{"fine spiky", join(sphere(60, 40, 10), shift(revolve(12, [][2]float64{{0.4, 0}, {0, 9}}), 0, 0, 9.9))},
		{"long", prism(ngon(40, 3, 0.2), 0, 400, func(p Point) Point { return Point{X: p.X + 5, Y: p.Y} })},
		{"wide", join(shift(box(0, 0, 0, 600, 450, 3), -300, -200, 0), box(0, 0, 3, 5, 4, 9))},
	}
}

func c22Large(x *X) {
	l := c22Special()
	si := x.Choose(len(l))
	kind := Pick(x, "3axes", "vip", "5axes", "5axes_by_profile")
	st := Pick(x, 0, 8, 12, len(hardSettings))
	turn := x.Choose(Tier(x, 1, 3))
	if st == len(hardSettings) && l[si].name != "long" {
		x.Prune()
	}
	if !x.Thorough && st == 12 && si >= 5 {
		x.Prune()
	}
	set := []string{"-t", "0.08"} // thousands of layers
	if st < len(hardSettings) {
		set = hardSettings[st]
	}
	args := append([]string{"-s", "m.stl", "-o", "o.gcode", "--slicing_type", kind}, set...)
	if l[si].name == "long" || l[si].name == "wide" {
		args = append(args, "--fill_density", "3", "--top_layers", "1", "--bottom_layers", "1")
	}
	x.Begin(fmt.Sprintf("%s turned %d: %s", l[si].name, turn, strings.Join(args, " ")))
	ts := l[si].ts
	lo, _ := minmax(ts, AxisZ)
	ts = shift(ts, 0, 0, -lo)
	if turn > 0 {
		ts = mapTris(ts, func(p Point) Point { return rotPoint(p, Point{}, AxisZ, []float64{0, 113.3, 231.7}[turn]) })
	}
	c22Program(x, ts, "c22l", args)
}

func c22Program(x *X, ts []tri, sub string, args []string) {
	dir := filepath.Join(x.Scratch, sub)
	c22Run(x, dir, "goosli", encodeSTL(ts, "x"), args)
	out, err := os.ReadFile(filepath.Join(dir, "o.gcode"))
	if err != nil {
		x.Fail("output", "%v", err)
	}
	mc := newMachine()
	if err := mc.run(string(out)); err != nil {
		x.Fail("machine", "%v", err)
	}
	if len(mc.printed()) == 0 {
		x.Fail("nothing", "nothing is printed")
	}
	x.State(hashStr(string(out)))
	x.Outcome(newHash().I(len(mc.layers)).I(len(mc.moves)).Sum())
}

// every list of planes: under, over, beside and through the model, on its faces, level and inclined
func c22Planes(x *X) {
	si := x.Choose(Tier(x, 3, len(shapeCache)))
	name := shapeCache[si].name
	if !x.Thorough {
		name = []string{"cube", "mushroom", "arch"}[si]
	}
	alpha := []string{"X0.0 Y0.0 Z-1.0 Tfalse R0.0", "X0.0 Y0.0 Z2.0 Tfalse R30.0", "X1.0 Y1.0 Z100.0 Tfalse R0.0", "X0.0 Y0.0 Z0.0 Tfalse R-10.0", "X0.5 Y0.5 Z2.3 Ttrue R45.0", "X-90.0 Y0.0 Z0.0 Ttrue R-90.0", "X90.0 Y0.0 Z0.0 Ttrue R90.0", "X0.0 Y0.0 Z0.0 Ttrue R0.0", ""}
	n := x.Choose(Tier(x, 3, 4))
	var lines []string
	for i := 0; i < n; i++ {
		lines = append(lines, alpha[x.Choose(len(alpha))])
	}
	st := x.Choose(2)
	x.Begin(fmt.Sprintf("%s planes %q settings %d", name, lines, st))
	ts := shapeNamed(name)
	lo, _ := minmax(ts, AxisZ)
	ts = shift(ts, 0, 0, -lo)
	c22Files = map[string]string{"list.txt": strings.Join(lines, "\n") + "\n"}
	args := append([]string{"-s", "m.stl", "-o", "o.gcode", "--planes_file", "list.txt"}, [][]string{{"-t", "1.7"}, {"-t", "0.9", "--skirt_line_count", "0", "--wall_thickness", "0.4", "--supports_on"}}[st]...)
	c22Program(x, ts, "c22p", args)
}

// damaged geometry: open, flat, inverted, doubled and degenerate meshes
func c22Broken(x *X) {
	base := Pick(x, "cube", "mushroom", "T", "arch")
	k := x.Choose(12)
	tool := x.Choose(8)
	ts := append([]tri{}, shapeNamed(base)...)
	switch k {
	case 0:
		ts = ts[:1]
	case 1:
		ts = ts[1:]
	case 2:
		ts = append(ts[:2], ts[4:]...)
	case 3:
		ts = append(ts, ts...)
	case 4:
		for i, t := range ts {
			ts[i] = tri{t[0], t[2], t[1]}
		}
	case 5:
		ts[1] = tri{ts[1][0], ts[1][2], ts[1][1]}
	case 6:
		ts = mapTris(ts, func(p Point) Point { return Point{X: p.X, Y: p.Y, Z: 3} })
	case 7:
		ts = mapTris(ts, func(p Point) Point { return Point{X: p.X, Y: 2, Z: p.Z} })
	case 8:
		ts = append(ts, tri{ts[0][0], ts[0][0], ts[0][0]}, tri{ts[0][0], ts[0][1], ts[0][0]})
	case 9:
		ts = nil
	case 10:
		ts = join(ts, shift(ts, 3, 1, 2))
	case 11:
		ts = mapTris(ts, func(p Point) Point { return Point{X: 1, Y: 2, Z: p.Z} })
	}
	tools := [][]string{
		{"goosli", "-o", "o", "--slicing_type", "3axes", "-t", "0.9"},
		{"goosli", "-o", "o", "--slicing_type", "vip", "-t", "0.9"},
		{"goosli", "-o", "o", "--slicing_type", "5axes", "-t", "0.9"},
		{"goosli", "-o", "o", "--slicing_type", "5axes_by_profile", "-t", "0.9"},
		{"goosli_cutter", "-z", "3.3"},
		{"goosli_simplifier", "-t", "20"},
		{"goosli_colorizer"},
		{"goosli_analyzer"},
	}
	x.Begin(fmt.Sprintf("%s damage %d: %v", base, k, tools[tool]))
	c22Run(x, filepath.Join(x.Scratch, "c22b"), tools[tool][0], encodeSTL(ts, "x"), append([]string{"-s", "m.stl"}, tools[tool][1:]...))
	x.State(hashStr(x.desc))
	x.Outcome(newHash().I(k).I(tool).Sum())
}

func init() {
	register(&Prop{ID: "C22", Level: "model_checking",
		Rule:   "every solid of the catalogue x slicing type x list of settings x turn; damaged meshes x every command; every list of up to 2 (3) planes of an alphabet; large, tall and wide models, models with gaps x slicing type x settings",
		Models: []Model{{Name: "modes", Run: c22Modes}, {Name: "broken", Run: c22Broken}, {Name: "planes", Run: c22Planes}, {Name: "special", Run: c22Large}}})
}
