//go:build go1.22

package main

import (
	"bytes"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"strings"
	"sync/atomic"
	"time"

	"github.com/l1va/goosli/gcode"
	. "github.com/l1va/goosli/primitives"
	"github.com/l1va/goosli/slicers"
	"github.com/l1va/goosli/slicers/vip"
	"github.com/l1va/goosli/zzsched"
)

// C02: the result of parallel code does not depend on the schedule.

func instrumented() bool { return os.Getenv("MC_SCHED") != "0" }

// everySchedule runs body under every schedule with the given number of processors and
// compares what it returns with want (nil: the first schedule decides).
func everySchedule(x *X, cpus, limit, delays int, want *string, body func() string) string {
	var got string
	first := want == nil
	ref := ""
	if want != nil {
		ref = *want
	}
	if !instrumented() {
		old := runtime.GOMAXPROCS(cpus)
		defer runtime.GOMAXPROCS(old)
		for i := 0; i < 3; i++ {
			got = body()
			if first {
				ref, first = got, false
			}
			if got != ref {
				x.Fail("schedule", "free-running schedule: %s", diffAt(ref, got))
			}
		}
		x.Op(3)
		return ref
	}
	n := 0
	late := false
	st := zzsched.Explore(cpus, limit, delays, func() { got = body() }, func(r zzsched.Result) bool {
		n++
		if x.w != nil {
			atomic.AddInt64(&x.w.progress, 1)
			if late = time.Now().After(x.w.deadline); late {
				return false
			}
		}
		where := func() string {
			return fmt.Sprintf("%d processors, schedule %d: %s", cpus, n, r.Schedule())
		}
		switch {
		case r.Panic != "":
			x.Fail("panic", "%s: %s", r.Panic, where())
		case r.Deadlock != "":
			x.Fail("deadlock", "nobody can go on: %s; %s", r.Deadlock, where())
		case r.Leak != "":
			x.Fail("leak", "goroutines never end: %s; %s", r.Leak, where())
		case r.Hang:
			x.Fail("hang", "no end after 100000 steps; %s", where())
		case r.Races > 0:
			x.Fail("race", "%d unsynchronised accesses of the same memory; %s", r.Races, where())
		case r.Diverged:
			x.Fail("schedule", "the same schedule does not do the same again; %s", where())
		}
		if first {
			ref, first = got, false
		}
		if got != ref {
			x.Fail("schedule", "%s: %s", diffAt(ref, got), where())
		}
		x.State(newHash().S(x.desc).I(cpus).S(r.Schedule()).Sum())
		return true
	})
	x.Op(st.Steps)
	if x.w != nil {
		x.w.stats.Schedules += int64(st.Schedules)
	}
	x.Outcome(hashStr(ref))
	if os.Getenv("MC_VERBOSE") != "" {
		fmt.Fprintln(os.Stderr, x.desc, cpus, st)
	}
	if late {
		x.Prune() // out of time: the evidence says that the exploration is not complete
	}
	if !st.Complete && limit == 0 {
		x.Fail("explorer", "exploration stopped early")
	}
	return ref
}

func diffAt(a, b string) string {
	i := 0
	for i < len(a) && i < len(b) && a[i] == b[i] {
		i++
	}
	cut := func(s string) string {
		lo := i - 30
		if lo < 0 {
			lo = 0
		}
		hi := i + 60
		if hi > len(s) {
			hi = len(s)
		}
		return s[lo:hi]
	}
	return fmt.Sprintf("result differs from the one of the first schedule at byte %d: %q, must be %q", i, cut(b), cut(a))
}

func dumpLayers(ls []Layer) string {
	var b strings.Builder
	for i, l := range ls {
		fmt.Fprintf(&b, "layer %d order %d norm %v\n", i, l.Order, [3]float64{l.Norm.X, l.Norm.Y, l.Norm.Z})
		for _, ps := range [][]Path{l.Paths, l.MiddlePs, l.InnerPs, l.Fill} {
			fmt.Fprintf(&b, "%d:", len(ps))
			for _, p := range ps {
				fmt.Fprintf(&b, "%v\n", p.Points)
				for _, q := range p.Points {
					fmt.Fprintf(&b, "%v %v %v,", q.X, q.Y, q.Z)
				}
			}
		}
	}
	return b.String()
}

func dumpTris(ts []Triangle) string {
	var b strings.Builder
	for _, t := range ts {
		fmt.Fprintf(&b, "%v %v %v %v\n", [3]float64{t.P1.X, t.P1.Y, t.P1.Z}, [3]float64{t.P2.X, t.P2.Y, t.P2.Z}, [3]float64{t.P3.X, t.P3.Y, t.P3.Z}, [3]float64{t.N.X, t.N.Y, t.N.Z})
	}
	return b.String()
}

type c02Shape struct {
	name string
	ts   []tri
}

func c02Shapes() []c02Shape {
	var r []c02Shape
	for _, n := range []string{"tetra", "ring8", "checker", "T", "arch"} {
		r = append(r, c02Shape{n, shapeNamed(n)})
	}
	return r
}

func c02Slice(x *X) {
	sh := c02Shapes()[x.Choose(5)]
	layers := 1 + x.Choose(6)
	cpus := 1 + x.Choose(4)
	z := Pick(x, Vector{0, 0, 1}, Vector{0.3, -0.2, 0.9}, Vector{0, 0, -2})
	supports := x.Bool()
	limit := Tier(x, 4, 9) // the schedules do not depend on the shape, large configurations are explored for one
	if sh.name == "ring8" && z.Z == 1 && !supports {
		limit = Tier(x, 12, 16)
	}
	if cpus*layers > limit || cpus == 4 && layers > Tier(x, 2, 3) {
		x.Prune()
	}
	x.Begin(fmt.Sprintf("SliceByVector %s, %d layers, %d processors, direction %v, supports %v", sh.name, layers, cpus, z, supports))
	lo, hi := minmax(sh.ts, vunit(z))
	sett := c13Settings("Lines", 30, 0.5)
	sett.LayerHeight = (hi - lo) / (float64(layers) - 0.5)
	sett.SupportsOn, sett.ColorizedAngle, sett.UnitVector = supports, 30, Vector{0, 0, 1}
	body := func() string {
		return dumpLayers(slicers.SliceByVector(meshOf(sh.ts), z, sett))
	}
	ref := everySchedule(x, 1, 0, -1, nil, body)
	if cpus > 1 {
		everySchedule(x, cpus, 0, -1, &ref, body)
	}
}

// everything else that runs in parallel, and whole programs of G-code
func c02Whole(x *X) {
	op := Pick(x, "copy", "load", "gcode", "vip", "5axes", "profile")
	sh := c02Shapes()[x.Choose(5)]
	cpus := 2 + x.Choose(Tier(x, 1, 2))
	k := x.Choose(Tier(x, 2, 3))
	x.Begin(fmt.Sprintf("%s %s, %d processors, %d", op, sh.name, cpus, k))
	sett := c13Settings("Squares", 30, 0.5)
	lo, hi := minmax(sh.ts, AxisZ)
	sett.LayerHeight = (hi - lo) / (float64(k) + 1.5)
	g := *sett.GcodeSettings
	g.LayerHeight = sett.LayerHeight
	sett.GcodeSettings = &g
	sett.WallThickness = 1
	sett.TopLayers, sett.BottomLayers = 1, 0
	fn := filepath.Join(x.Scratch, "m.stl")
	if op == "load" {
		must(SaveSTL(fn, meshOf(sh.ts)))
	}
	out := func(g gcode.Gcode) string {
		var b bytes.Buffer
		g.ToOutput(&b)
		return b.String()
	}
	body := func() string {
		switch op {
		case "copy":
			m := meshOf(sh.ts[:len(sh.ts)-k])
			a := m.CopyTriangles()
			b := m.CopyTriangles()
			a[0].P1.X += 1
			return dumpTris(a) + dumpTris(b) + dumpTris(m.Triangles)
		case "load":
			m, err := LoadSTL(fn)
			if err != nil {
				return "error " + err.Error()
			}
			return dumpTris(m.Triangles)
		case "gcode":
			return out(slicers.SliceByVectorToGcode(meshOf(sh.ts), AxisZ, sett))
		case "vip":
			return out(vip.Slice(meshOf(sh.ts), sett))
		case "5axes":
			return out(slicers.Slice5Axes(meshOf(sh.ts), sett))
		}
		return out(slicers.SliceByProfile(meshOf(sh.ts), sett))
	}
	ref := everySchedule(x, 1, 0, -1, nil, body)
	delays := -1
	if op != "copy" && op != "load" {
		delays = Tier(x, 1, 2) // several slicings in a row: deviations from the default schedule are bounded
	}
	everySchedule(x, cpus, 0, delays, &ref, body)
}

// c02Many: many layers, triangles and processors; deviations from the default schedule are bounded.
func c02Many(x *X) {
	op := Pick(x, "slice", "copy", "load")
	n := Tier(x, []int{24, 70, 140}, []int{24, 70, 140, 300, 600})[x.Choose(Tier(x, 3, 5))]
	cpus := Tier(x, []int{2, 3, 8}, []int{2, 3, 4, 8, 13})[x.Choose(Tier(x, 3, 5))]
	kind := x.Choose(3)
	if op != "slice" && kind > 0 {
		x.Prune()
	}
	x.Begin(fmt.Sprintf("%s of %d, %d processors, kind %d", op, n, cpus, kind))
	var ts []tri
	if op == "slice" && kind == 0 { // another body in every layer
		for i := 0; i < n; i++ {
			ts = append(ts, box(0, 0, float64(i), 3+float64(i%7), 4, float64(i)+0.9)...)
		}
	} else if op == "slice" {
		ts = scale(shapeNamed([]string{"", "mushroom", "ring8"}[kind]), 10)
	} else {
		for len(ts) < n {
			i := float64(len(ts))
			ts = append(ts, box(i, 0, 0, i+1, 2, 0.25*(1+i))...)
		}
		ts = ts[:n-1]
	}
	lo, hi := minmax(ts, AxisZ)
	sett := c13Settings("Lines", 30, 0.5)
	sett.LayerHeight = (hi - lo) / (float64(n) - 0.5)
	fn := filepath.Join(x.Scratch, "m.stl")
	if op == "load" {
		must(SaveSTL(fn, meshOf(ts)))
	}
	body := func() string {
		switch op {
		case "copy":
			return dumpTris(meshOf(ts).CopyTriangles())
		case "load":
			m, err := LoadSTL(fn)
			if err != nil {
				return "error " + err.Error()
			}
			return dumpTris(m.Triangles)
		}
		return dumpLayers(slicers.SliceByVector(meshOf(ts), AxisZ, sett))
	}
	ref := everySchedule(x, 1, 0, 0, nil, body)
	delays := 0
	if n*cpus <= Tier(x, 80, 300) {
		delays = 1
	}
	everySchedule(x, cpus, 0, delays, &ref, body)
}

func init() {
	register(&Prop{ID: "C02", Level: "model_checking",
		Rule:   "every schedule of the goroutines (all interleavings of synchronisation operations up to the order of independent ones, with a race check on every schedule) for every shape x number of layers x number of processors",
		Assume: []string{"memory is only shared through synchronisation operations, which the race detector checks on every schedule"},
		Models: []Model{{Name: "slice", Run: c02Slice}, {Name: "whole", Run: c02Whole}, {Name: "many", Run: c02Many}, {Name: "selfcheck", Run: c02Self}}})
}
