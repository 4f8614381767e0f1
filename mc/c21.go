//go:build go1.22

package main

import (
	"context"
	"encoding/binary"
	"fmt"
	"math"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"time"

	"github.com/l1va/goosli/gcode"
	"github.com/l1va/goosli/helpers"
	. "github.com/l1va/goosli/primitives"
	"github.com/l1va/goosli/slicers"
	"github.com/l1va/goosli/slicers/vip"
)

// C21: the commands do what their flags say.

// cliParams: what the flags of goosli mean
type cliParams struct {
	sett slicers.Settings
	g    gcode.GcodeSettings
	move Vector
	kind string
}

func defaultParams() *cliParams {
	p := &cliParams{kind: "vip"}
	p.g = gcode.GcodeSettings{BarDiameter: 1.75, Flow: 1, LayerHeight: 0.2, LineWidth: 0.4, PrintSpeed: 3000, PrintSpeedLayer1: 3000, PrintSpeedWall: 3000}
	p.sett = slicers.Settings{Epsilon: 10, LayerHeight: 0.2, WallThickness: 1.2, FillDensity: 20, BedTemperature: 60, ExtruderTemperature: 200,
		PlanesFile: "planes_file.txt", FillingType: "Lines", ColorizedAngle: 30, UnitVector: AxisZ, SupportOffset: 1, TopLayers: 3, BottomLayers: 3, SkirtLineCount: 3}
	return p
}

type cliFlag struct {
	args []string
	set  func(p *cliParams)
}

func cliFlags() []cliFlag {
	f := func(s string) []string { return strings.Fields(s) }
	return []cliFlag{
		{f("-t 0.35"), func(p *cliParams) { p.sett.LayerHeight, p.g.LayerHeight = 0.35, 0.35 }},
		{f("--layer_height=2.5"), func(p *cliParams) { p.sett.LayerHeight, p.g.LayerHeight = 2.5, 2.5 }},
		{f("--wall_thickness 0.4"), func(p *cliParams) { p.sett.WallThickness = 0.4 }},
		{f("--wall_thickness 2.1"), func(p *cliParams) { p.sett.WallThickness = 2.1 }},
		{f("--fill_density 0"), func(p *cliParams) { p.sett.FillDensity = 0 }},
		{f("--fill_density 75"), func(p *cliParams) { p.sett.FillDensity = 75 }},
		{f("--fill_density 130"), func(p *cliParams) { p.sett.FillDensity = 130 }}, // lines overlap
		{f("--top_layers 0"), func(p *cliParams) { p.sett.TopLayers = 0 }},
		{f("--top_layers 7"), func(p *cliParams) { p.sett.TopLayers = 7 }},
		{f("--top_layers 140 --bottom_layers 1"), func(p *cliParams) { p.sett.TopLayers, p.sett.BottomLayers = 140, 1 }},
		{f("--bottom_layers 300 --top_layers 1"), func(p *cliParams) { p.sett.TopLayers, p.sett.BottomLayers = 1, 300 }},
		{f("--bottom_layers 0"), func(p *cliParams) { p.sett.BottomLayers = 0 }},
		{f("--bottom_layers 5"), func(p *cliParams) { p.sett.BottomLayers = 5 }},
		{f("--bed_temperature 0"), func(p *cliParams) { p.sett.BedTemperature = 0 }},
		{f("--bed_temperature 110"), func(p *cliParams) { p.sett.BedTemperature = 110 }},
		{f("--bed_temperature 131 --extruder_temperature 420"), func(p *cliParams) { p.sett.BedTemperature, p.sett.ExtruderTemperature = 131, 420 }},
		{f("--print_speed 1200 --print_speed_layer1 999 --print_speed_wall 1500"), func(p *cliParams) {
			p.g.PrintSpeed, p.g.PrintSpeedLayer1, p.g.PrintSpeedWall = 72000, 59940, 90000
		}},
		{f("--print_speed 1 --print_speed_layer1 2 --print_speed_wall 3"), func(p *cliParams) {
			p.g.PrintSpeed, p.g.PrintSpeedLayer1, p.g.PrintSpeedWall = 60, 120, 180
		}},
		{f("--extruder_temperature 235"), func(p *cliParams) { p.sett.ExtruderTemperature = 235 }},
		{f("--print_speed 80"), func(p *cliParams) { p.g.PrintSpeed = 4800 }},
		{f("--print_speed_layer1 12"), func(p *cliParams) { p.g.PrintSpeedLayer1 = 720 }},
		{f("--print_speed_wall 33"), func(p *cliParams) { p.g.PrintSpeedWall = 1980 }},
		{f("--fan_off_layer1"), func(p *cliParams) { p.g.FanOffLayer1 = true }},
		{f("--line_width 0.6"), func(p *cliParams) { p.g.LineWidth = 0.6 }},
		{f("--filling_type Squares"), func(p *cliParams) { p.sett.FillingType = "Squares" }},
		{f("--filling_type Triangles"), func(p *cliParams) { p.sett.FillingType = "Triangles" }},
		{f("--retraction_on"), func(p *cliParams) { p.g.Retraction = true }},
		{f("--retraction_on --retraction_speed 1800 --retraction_distance 3.5"), func(p *cliParams) {
			p.g.Retraction, p.g.RetractionSpeed, p.g.RetractionDistance = true, 1800, 3.5
		}},
		{f("--retraction_speed 1800 --retraction_distance 3.5"), func(p *cliParams) { p.g.RetractionSpeed, p.g.RetractionDistance = 1800, 3.5 }},
		{f("--planes_file cuts.txt"), func(p *cliParams) { p.sett.PlanesFile = "cuts.txt" }},
		{f("--planes_file cuts.txt --rotcx 3 --rotcy=-4.5 --rotcz 8"), func(p *cliParams) {
			p.sett.PlanesFile, p.sett.RotationCenter = "cuts.txt", Point{3, -4.5, 8}
		}},
		{f("--planes_file cuts.txt --rotcx 3"), func(p *cliParams) { p.sett.PlanesFile, p.sett.RotationCenter = "cuts.txt", Point{3, 0, 0} }},
		{f("--planes_file cuts.txt --rotcy 7"), func(p *cliParams) { p.sett.PlanesFile, p.sett.RotationCenter = "cuts.txt", Point{0, 7, 0} }},
		{f("--planes_file cuts.txt --rotcz=-5 --skirt_line_count 0"), func(p *cliParams) {
			p.sett.PlanesFile, p.sett.RotationCenter, p.sett.SkirtLineCount = "cuts.txt", Point{0, 0, -5}, 0
		}},
		{f("--rotcx 2 --rotcy 6 --rotcz 8 --originx 4 --originy=-3 --originz 5"), func(p *cliParams) {
			p.sett.RotationCenter, p.move = Point{2, 6, 8}, Vector{4, -3, 5}
		}},
		{f("--planes_file cuts.txt --rotcz 8 --originz 5"), func(p *cliParams) {
			p.sett.PlanesFile, p.sett.RotationCenter, p.move = "cuts.txt", Point{0, 0, 8}, Vector{0, 0, 5}
		}},
		{f("--planes_file cuts.txt --rotcx 2 --rotcy 1 --originx 3 --originy=-1"), func(p *cliParams) {
			p.sett.PlanesFile, p.sett.RotationCenter, p.move = "cuts.txt", Point{2, 1, 0}, Vector{3, -1, 0}
		}},
		{f("--skirt_line_count 41 --planes_file cuts.txt"), func(p *cliParams) { p.sett.PlanesFile, p.sett.SkirtLineCount = "cuts.txt", 41 }},
		{f("--planes_file cuts.txt --skirt_line_count 6"), func(p *cliParams) { p.sett.PlanesFile, p.sett.SkirtLineCount = "cuts.txt", 6 }},
		{f("-x 12.5"), func(p *cliParams) { p.move.X = 12.5 }},
		{f("-y-7.25"), func(p *cliParams) { p.move.Y = -7.25 }},
		{f("-z 3"), func(p *cliParams) { p.move.Z = 3 }},
		{f("--originx=-40 --originy 2 --originz 0.4"), func(p *cliParams) { p.move = Vector{-40, 2, 0.4} }},
		{f("-e 0.01"), func(p *cliParams) { p.sett.Epsilon = 0.01 }},
		{f("--epsilon 2"), func(p *cliParams) { p.sett.Epsilon = 2 }},
		{f("--bar_diameter 2.85"), func(p *cliParams) { p.g.BarDiameter = 2.85 }},
		{f("--flow 0.8"), func(p *cliParams) { p.g.Flow = 0.8 }},
		{f("--supports_on"), func(p *cliParams) { p.sett.SupportsOn = true }},
		{f("--supports_on --support_offset 0.3"), func(p *cliParams) { p.sett.SupportsOn, p.sett.SupportOffset = true, 0.3 }},
		{f("--supports_on -a 60"), func(p *cliParams) { p.sett.SupportsOn, p.sett.ColorizedAngle = true, 60 }},
		{f("--supports_on -a 44.7"), func(p *cliParams) { p.sett.SupportsOn, p.sett.ColorizedAngle = true, 44.7 }},
		{f("--angle 12.4 --supports_on"), func(p *cliParams) { p.sett.SupportsOn, p.sett.ColorizedAngle = true, 12.4 }},
		{f("--supports_on --normali 1 --normalj 0.5 --normalk 2"), func(p *cliParams) {
			p.sett.SupportsOn, p.sett.UnitVector = true, Vector{1, 0.5, 2}
		}},
		{f("--supports_on -i-1 -j 0.25 -k 1"), func(p *cliParams) { p.sett.SupportsOn, p.sett.UnitVector = true, Vector{-1, 0.25, 1} }},
	}
}

// runCLITimed: like runCLI, killed after the time; code 254
func runCLITimed(dir string, d time.Duration, name string, args ...string) (int, string) {
	ctx, cancel := context.WithTimeout(context.Background(), d)
	defer cancel()
	cmd := exec.CommandContext(ctx, bin(name), args...)
	cmd.Dir = dir
	out, err := cmd.CombinedOutput()
	if ctx.Err() != nil {
		return 254, string(out)
	}
	if err == nil {
		return 0, string(out)
	}
	if ee, ok := err.(*exec.ExitError); ok {
		if c := ee.ExitCode(); c > 0 {
			return c, string(out)
		}
	}
	return 255, string(out)
}

var cuts21 = "X4.000 Y4.000 Z5.310 Tfalse R0.000\nX4.000 Y5.000 Z8.430 Ttrue R-35.000\n"

// the templates, filled in
func fillTemplate(name string, p *cliParams, layers int) string {
	b, err := os.ReadFile(filepath.Join(os.Getenv("REPO"), "data", name))
	must(err)
	m := map[string]string{
		"layer_height":         fmt.Sprintf("%.3f", p.sett.LayerHeight),
		"wall_thickness":       fmt.Sprintf("%.3f", p.sett.WallThickness),
		"fill_density":         strconv.Itoa(p.sett.FillDensity),
		"bed_temperature":      strconv.Itoa(p.sett.BedTemperature),
		"extruder_temperature": strconv.Itoa(p.sett.ExtruderTemperature),
		"print_speed":          strconv.Itoa(p.g.PrintSpeed),
		"layer_count":          strconv.Itoa(layers),
	}
	var out strings.Builder
	text := string(b)
	for {
		i := strings.IndexByte(text, '{')
		if i < 0 {
			break
		}
		j := strings.IndexByte(text[i:], '}')
		if v, ok := m[text[i+1:i+j]]; ok {
			out.WriteString(text[:i] + v)
		} else {
			out.WriteString(text[:i+j+1])
		}
		text = text[i+j+1:]
	}
	out.WriteString(text)
	return out.String()
}

// long names of the flags of a command line
func flagNames(args []string) map[string]bool {
	short := map[byte]string{'s': "stl", 'o': "gcode", 'x': "originx", 'y': "originy", 'z': "originz", 'e': "epsilon", 't': "layer_height", 'a': "angle", 'i': "normali", 'j': "normalj", 'k': "normalk"}
	r := map[string]bool{}
	for _, a := range args {
		if strings.HasPrefix(a, "--") {
			r[strings.SplitN(a[2:], "=", 2)[0]] = true
		} else if len(a) > 1 && a[0] == '-' {
			r[short[a[1]]] = true
		}
	}
	return r
}

func c21Goosli(x *X) {
	kinds := []string{"3axes", "vip", "5axes", "5axes_by_profile"}
	k := x.Choose(len(kinds))
	fl := cliFlags()
	a := x.Choose(len(fl)+1) - 1
	b := -1
	if a >= 0 {
		b = x.Choose(len(fl)+1) - 1
		if b >= 0 && b <= a {
			x.Prune()
		}
		if b >= 0 && !x.Thorough && (a*7+b*3+k)%4 != 0 {
			x.Prune()
		}
		if b >= 0 {
			for u := range flagNames(fl[a].args) {
				if flagNames(fl[b].args)[u] {
					x.Prune() // the same flag twice
				}
			}
		}
	}
	mesh := x.Choose(3)
	if mesh > 0 && (b >= 0 || k == 1 && a%3 != 0) || mesh == 2 && (k != 0 || a < 0 || !strings.Contains(strings.Join(fl[a].args, " "), "supports")) {
		x.Prune()
	}
	p := defaultParams()
	p.kind = kinds[k]
	args := []string{"-s", "m.stl", "-o", "r.gcode"}
	if kinds[k] != "vip" || mesh >= 1 {
		args = append(args, "--slicing_type", kinds[k])
	}
	// layers of a millimetre unless said otherwise
	lh := true
	for _, i := range []int{a, b} {
		if i >= 0 {
			args = append(args, fl[i].args...)
			fl[i].set(p)
			lh = lh && i > 1
		}
	}
	if lh && (a >= 0 || k != 0) {
		args = append(args, "--layer_height", "1.5")
		p.sett.LayerHeight, p.g.LayerHeight = 1.5, 1.5
	}
	x.Begin(fmt.Sprintf("goosli %s mesh %d", strings.Join(args, " "), mesh))
	var ts []tri
	if mesh == 2 { // every slope
		ts = sphere(3, 90, 9)
	} else {
		ts = shapeNamed([]string{"mushroom", "L"}[mesh])
	}
	ts = round32(shift(ts, 1.5, -2, 0.25))
	dir := filepath.Join(x.Scratch, "cli21")
	must(os.RemoveAll(dir))
	copyData(dir)
	must(os.WriteFile(filepath.Join(dir, "m.stl"), encodeSTL(ts, "test"), 0644))
	must(os.WriteFile(filepath.Join(dir, "cuts.txt"), []byte(cuts21), 0644))
	t0 := time.Now()
	x.Op(1)
	code, log := runCLITimed(dir, 60*time.Second, "goosli", args...)
	t1 := time.Now()
	if code != 0 {
		x.Fail("exit", "status %d: %s", code, clip(log, 300))
	}
	out, err := os.ReadFile(filepath.Join(dir, "r.gcode"))
	if err != nil {
		x.Fail("output", "%v", err)
	}
	got := string(out)
	// when it was sliced
	const mark = ";Sliced at: "
	i := strings.Index(got, mark)
	if i < 0 {
		x.Fail("header", "no time of slicing")
	}
	j := strings.IndexByte(got[i:], '\n') + i
	at, err := time.ParseInLocation(time.RFC822, strings.TrimSpace(got[i+len(mark):j]), time.Local)
	if err != nil || at.Before(t0.Add(-2*time.Minute)) || at.After(t1.Add(time.Minute)) {
		x.Fail("header", "sliced at %q", got[i+len(mark):j])
	}
	got = got[:i+len(mark)] + "{datetime}" + got[j:]
	// the same by the library
	if p.sett.PlanesFile == "cuts.txt" {
		p.sett.PlanesFile = filepath.Join(dir, "cuts.txt")
	} else {
		p.sett.PlanesFile = filepath.Join(dir, "planes_file.txt")
	}
	p.sett.GcodeSettings = &p.g
	m := meshOf(mapTris(ts, func(q Point) Point { return vadd(q, p.move) }))
	var gc gcode.Gcode
	switch p.kind {
	case "3axes":
		gc = slicers.SliceByVectorToGcode(m, AxisZ, p.sett)
	case "vip":
		gc = vip.Slice(m, p.sett)
	case "5axes":
		gc = slicers.Slice5Axes(m, p.sett)
	default:
		gc = slicers.SliceByProfile(m, p.sett)
	}
	body := render(&gc)
	layers := strings.Count(body, ";LAYER:")
	want := fillTemplate("header_template.txt", p, layers) + body + fillTemplate("footer_template.txt", p, layers)
	if got != want {
		x.Fail("output", "the file differs from what the flags say: %s", firstDiff(want, got))
	}
	// and a printer accepts it
	mc := newMachine()
	if err := mc.run(got); err != nil {
		x.Fail("machine", "%v", err)
	}
	if layers == 0 {
		x.Fail("machine", "nothing is printed")
	}
	pre, last := strings.Join(mc.other, "\n"), mc.other[len(mc.other)-1]
	for _, w := range []string{fmt.Sprintf("M190 S%d", p.sett.BedTemperature), fmt.Sprintf("M109 S%d", p.sett.ExtruderTemperature), "M104 S0", "M140 S0"} {
		if !strings.Contains(pre+" ", w+" ") {
			x.Fail("machine", "%s is not in the file", w)
		}
	}
	if !strings.HasPrefix(last, "M84") {
		x.Fail("machine", "motors stay on, last is %s", last)
	}
	for _, ph := range []string{"{layer_height}", "{wall_thickness}", "{fill_density}", "{bed_temperature}", "{extruder_temperature}", "{print_speed}", "{layer_count}"} {
		if strings.Contains(got, ph) {
			x.Fail("header", "%s is not filled in", ph)
		}
	}
	x.State(hashStr(got))
	x.Outcome(hashStr(got))
}

// wrong command lines
func c21Wrong(x *X) {
	tools := []string{"goosli", "goosli_cutter", "goosli_simplifier", "goosli_colorizer", "goosli_analyzer"}
	tool := x.Choose(len(tools))
	bad := [][]string{{}, {"-s", "m.stl", "--no_such_flag"}, {"-s", "m.stl", "extra"}, {"-s", "none.stl"}, {"-s"},
		{"-s", "m.stl", "--slicing_type", "4axes"}, {"-s", "m.stl", "--slicing_type", ""}, {"-s", "m.stl", "--slicing_type", "VIP"},
		{"-s", "m.stl", "-x", "abc"}, {"-s", "m.stl", "--fill_density", "much"}, {"-s", "m.stl", "-t", ""}, {"-s", "m.stl", "-a", "ten"}, {"-s", "m.stl", "-i", "--"}}
	k := x.Choose(len(bad))
	x.Begin(fmt.Sprintf("%s %v", tools[tool], bad[k]))
	dir := filepath.Join(x.Scratch, "cli21w")
	must(os.RemoveAll(dir))
	copyData(dir)
	must(os.WriteFile(filepath.Join(dir, "m.stl"), encodeSTL(shapeNamed("cube"), "test"), 0644))
	x.Op(1)
	code, log := runCLITimed(dir, 60*time.Second, tools[tool], bad[k]...)
	if code == 0 || code == 254 {
		x.Fail("accepted", "status %d: %s", code, clip(log, 200))
	}
	es, _ := os.ReadDir(dir)
	for _, e := range es {
		if e.Name() != "data" && e.Name() != "m.stl" {
			x.Fail("output", "%s is written though the command fails", e.Name())
		}
	}
	x.State(newHash().I(tool).I(k).Sum())
	x.Outcome(newHash().I(tool).I(code).Sum())
}

// the other tools
func c21Tools(x *X) {
	names := []string{"mushroom", "cup", "T", "funnel", "overstairs", "cube"}
	name := names[x.Choose(len(names))]
	tool := x.Choose(4)
	k := x.Choose(12)
	if tool == 3 {
		name = []string{"sphere900", "sphere700", "T", "sphere2600", "cube", "ring8"}[sort.SearchStrings([]string{"T", "cube", "cup", "funnel", "mushroom", "overstairs"}, name)]
	}
	args := [][][]string{
		{{}, {"-a", "45"}, {"--angle=60"}, {"-i", "1", "-j", "0", "-k", "0"}, {"--normalj=-1", "--normalk=0"}, {"-a", "10", "--normali", "0.5"}, {"--normalk=-1"}, {"-a", "0"}, {"-a", "90"}, {"-j", "2", "-k", "2"}, {"-o", "other.bin"}, {"--out=other.bin", "-k", "5"}},
		{{}, {"-z", "5.3"}, {"--pointz", "2.1"}, {"-x", "1.3", "-i", "1", "-k", "0"}, {"--pointy=2.2", "--normalj=1", "--normalk=0"}, {"-z", "4.4", "-i", "0.3"}, {"-z", "5.3", "--normalk=-1"}, {"-z", "500"}, {"-x", "3", "-y", "2", "-z", "4.1", "-i", "1", "-j", "1", "-k", "1"}, {"-z", "5.3", "--normali=-0.4", "--normalj", "0.7"}, {"-z", "6.1", "--out1=p.stl", "--out2", "q.stl"}, {"-z", "6.1", "-o", "p.stl", "-u", "q.stl"}},
		{{}, {"-a", "45"}, {"--angle=60"}, {"-x", "7"}, {"--originy=-3", "-a", "20"}, {"-z", "12"}, {"--originx", "1", "--originy", "2", "--originz", "3"}, {"-o", "other.txt"}, {"--out=other.txt", "-a", "35"}, {"--rotcx", "3", "--rotcy", "1", "--rotcz", "2"}, {"-a", "5"}, {"--originz=-4"}},
		{{}, {"-t", "800"}, {"--triangles=200"}, {"-t", "500"}, {"-t", "1600"}, {"-o", "other.stl"}, {"--out=other.stl"}, {"--out", "o.stl", "-t", "300"}, {"-t", "30000"}, {"-t", "899"}, {"-t", "100"}, {"--triangles", "799"}},
	}[tool][k]
	x.Begin(fmt.Sprintf("%s: tool %d %v", name, tool, args))
	var base []tri
	switch name {
	case "sphere900":
		base = sphere(30, 16, 8)
	case "sphere700":
		base = sphere(25, 15, 8)
	case "sphere2600":
		base = sphere(52, 26, 8)
	default:
		base = shapeNamed(name)
	}
	ts := round32(mapTris(base, func(p Point) Point { return rotPoint(vadd(p, Vector{0.3, 0.2, 0}), Point{}, AxisZ, 17) }))
	dir := filepath.Join(x.Scratch, "cli21t")
	must(os.RemoveAll(dir))
	copyData(dir)
	must(os.WriteFile(filepath.Join(dir, "m.stl"), encodeSTL(ts, "x"), 0644))
	val := func(def float64, keys ...string) float64 {
		for i, a := range args {
			for _, k := range keys {
				if a == k {
					v, err := strconv.ParseFloat(args[i+1], 64)
					must(err)
					return v
				}
				if strings.HasPrefix(a, k+"=") {
					v, err := strconv.ParseFloat(a[len(k)+1:], 64)
					must(err)
					return v
				}
			}
		}
		return def
	}
	str := func(def string, keys ...string) string {
		for i, a := range args {
			for _, k := range keys {
				if a == k {
					return args[i+1]
				}
				if strings.HasPrefix(a, k+"=") {
					return a[len(k)+1:]
				}
			}
		}
		return def
	}
	x.Op(1)
	code, log := runCLITimed(dir, 60*time.Second, []string{"goosli_colorizer", "goosli_cutter", "goosli_analyzer", "goosli_simplifier"}[tool], append([]string{"-s", "m.stl"}, args...)...)
	if code != 0 {
		x.Fail("exit", "status %d: %s", code, clip(log, 200))
	}
	var files []string
	n := Vector{val(0, "-i", "--normali"), val(0, "-j", "--normalj"), val(1, "-k", "--normalk")}
	read := func(f string) []byte {
		files = append(files, f)
		b, err := os.ReadFile(filepath.Join(dir, f))
		if err != nil {
			x.Fail("output", "%v", err)
		}
		return b
	}
	m := meshOf(ts)
	h := newHash()
	switch tool {
	case 0:
		got := read(str("colorize_triangles.bin", "-o", "--out"))
		want := helpers.ColorizeTriangles(*m, val(30, "-a", "--angle"), n)
		if len(got) != len(want) {
			x.Fail("output", "%d marks for %d triangles", len(got), len(want))
		}
		for i := range want {
			if (got[i] != 0) != want[i] || got[i] > 1 {
				x.Fail("output", "mark %d is %d, must be %v", i, got[i], want[i])
			}
			h.I(int(got[i]))
		}
	case 1:
		a, b, err := helpers.CutMesh(m, Plane{P: Point{val(0, "-x", "--pointx"), val(0, "-y", "--pointy"), val(0, "-z", "--pointz")}, N: n})
		if err != nil {
			x.Fail("cut", "%v", err)
		}
		for i, w := range []*Mesh{a, b} {
			got := read([]string{str("out1.stl", "-o", "--out1"), str("out2.stl", "-u", "--out2")}[i])
			wt := round32(trisOf(w))
			if len(got) != 84+50*len(wt) || int(binary.LittleEndian.Uint32(got[80:])) != len(wt) {
				x.Fail("output", "part %d has %d bytes for %d triangles", i, len(got), len(wt))
			}
			for k, t := range wt {
				for j, p := range t {
					for c, v := range []float64{p.X, p.Y, p.Z} {
						g := math.Float32frombits(binary.LittleEndian.Uint32(got[84+50*k+12+12*j+4*c:]))
						if float64(g) != v {
							x.Fail("output", "part %d triangle %d: coordinate %g, must be %g", i, k, g, v)
						}
					}
				}
			}
			h.I(len(wt))
		}
	case 3:
		want := int(val(800, "-t", "--triangles"))
		got := read(str("out.stl", "-o", "--out"))
		n := int(binary.LittleEndian.Uint32(got[80:]))
		if len(got) != 84+50*n {
			x.Fail("output", "%d bytes for %d triangles", len(got), n)
		}
		if len(ts) <= want {
			if n != len(ts) {
				x.Fail("output", "%d of %d triangles are left, %d may stay", n, len(ts), want)
			}
		} else if float64(n) > float64(want)*1.02+2 || float64(n) < 0.6*float64(want) {
			x.Fail("output", "%d of %d triangles are left, %d may stay", n, len(ts), want)
		}
		h.I(n)
	default:
		got := string(read(str("analyzed_planes.txt", "-o", "--out")))
		mv := Vector{val(0, "-x", "--originx"), val(0, "-y", "--originy"), val(0, "-z", "--originz")}
		var want strings.Builder
		for _, p := range vip.Analyze(meshOf(mapTris(ts, func(q Point) Point { return vadd(q, mv) })), val(30, "-a", "--angle")) {
			want.WriteString(p.String() + "\n")
		}
		if got != want.String() {
			x.Fail("output", "planes differ: %s", firstDiff(want.String(), got))
		}
		h.S(got)
	}
	es, _ := os.ReadDir(dir)
	var have []string
	for _, e := range es {
		if e.Name() != "data" && e.Name() != "m.stl" {
			have = append(have, e.Name())
		}
	}
	sort.Strings(files)
	if strings.Join(have, " ") != strings.Join(files, " ") {
		x.Fail("output", "files %v are written, must be %v", have, files)
	}
	x.State(h.I(tool).S(name).Sum())
	x.Outcome(h.Sum())
}

func init() {
	register(&Prop{ID: "C21", Level: "model_checking",
		Rule:   "goosli with every flag, and pairs of flags, in every slicing type; every wrong command line of the list; the other tools with every flag",
		Models: []Model{{Name: "goosli", Run: c21Goosli}, {Name: "wrong", Run: c21Wrong}, {Name: "tools", Run: c21Tools}}})
}
