//go:build go1.22

package main

import (
	"bytes"
	"fmt"
	"math"

	"github.com/l1va/goosli/gcode"
	. "github.com/l1va/goosli/primitives"
)

// ---- alphabets ----

func pth(ps ...float64) Path {
	var p Path
	for i := 0; i+2 < len(ps); i += 3 {
		p.Points = append(p.Points, Point{ps[i], ps[i+1], ps[i+2]})
	}
	return p
}

// arc with n points: steps far below the output resolution
func fineArc(n int, r, z float64) Path {
	var p Path
	for i := 0; i <= n; i++ {
		a := 0.2 * float64(i) / float64(n)
		p.Points = append(p.Points, Point{r * math.Sin(a), r * (1 - math.Cos(a)), z})
	}
	return p
}

func layerAlphabet(k int) ([]Layer, string) {
	sq := func(x, y, z, s float64) Path {
		return pth(x, y, z, x, y+s, z, x+s, y+s, z, x+s, y, z, x, y, z)
	}
	N := AxisZ
	switch k {
	case 0:
		return []Layer{{Norm: N, Paths: []Path{sq(0, 0, 0.1, 10)}}}, "one square"
	case 1: // all sections in use, two layers
		mk := func(z float64) Layer {
			return Layer{Norm: N, Paths: []Path{sq(0, 0, z, 10), sq(20, 0, z, 5)}, MiddlePs: []Path{sq(0.4, 0.4, z, 9.2)},
				InnerPs: []Path{sq(0.8, 0.8, z, 8.4), sq(20.4, 0.4, z, 4.2)}, Fill: []Path{pth(3, 0.8, z, 3, 9.2, z), pth(5, 9.2, z, 5, 0.8, z)}}
		}
		return []Layer{mk(0.1), mk(0.3)}, "two full layers"
	case 2: // three empty-ish layers
		return []Layer{{Norm: N}, {Norm: N, Fill: []Path{pth(1, 1, 0.5, 4, 5, 0.5)}}, {Norm: N}}, "mostly empty layers"
	case 3: // tiny steps
		return []Layer{{Norm: N, Paths: []Path{fineArc(700, 1, 0.7)}}}, "fine arc of 700 steps"
	case 4: // a lot of plastic: crosses the E reset limit
		var ps []Path
		for i := 0; i < 4; i++ {
			ps = append(ps, pth(0, 0, 1, 30000, 0, 1, 30000, 40000.5, 1))
		}
		return []Layer{{Norm: N, Paths: ps}, {Norm: N, InnerPs: []Path{sq(-3, -3, 1.2, 6)}}}, "huge layer"
	case 5: // negative and 3d coordinates, axis-parallel and diagonal moves, rounding cases
		return []Layer{{Norm: N, Paths: []Path{pth(-1.0004, -2.0005, 3.0006, -1.0004, -2.0005, 8.25, -1.0009, 2.0005, 8.2501, 7, 2.0005, 8.2501, 7, 2.0015, 0.3), pth(3, 1, 0.5, 6, 1, 2.25)},
			Fill: []Path{pth(8, 1, 0.5, 6, 4, 1.75), pth(2, 1, 0.5, 8, 1, 0.5)}}}, "3d moves"
	case 6: // nearly touching starts, path below the previous one, single point
		return []Layer{{Norm: N, Paths: []Path{pth(0, 0, 5, 1, 0, 5), pth(1.0002, 0, 5, 2, 0, 5), pth(2, 2, 1)},
			MiddlePs: []Path{pth(9, 9, 1, 9, 3, 1)}}}, "nearly touching paths"
	case 7: // many layers
		var ls []Layer
		for i := 0; i < 12; i++ {
			ls = append(ls, Layer{Order: i, Norm: N, Paths: []Path{sq(float64(i%3), 0, 0.2*float64(i)+0.1, 3)}, Fill: []Path{pth(1, 1, 0.2*float64(i)+0.1, 2, 2, 0.2*float64(i)+0.1)}})
		}
		return ls, "twelve layers"
	case 8:
		return nil, "no layers"
	}
	panic("layerAlphabet")
}

const layerKinds = 9

type cmdSpec struct {
	cmd  gcode.Command
	name string
	ls   []Layer // for layer commands
	kind int     // 0 layers, 1 RotateZ, 2 InclineX, 3 InclineXBack, 4 RotateXZ
	a, b float64
}

func commandAlphabet(x *X) []cmdSpec {
	var r []cmdSpec
	for k := 0; k < layerKinds; k++ {
		ls, n := layerAlphabet(k)
		r = append(r, cmdSpec{cmd: gcode.LayersMoving{Layers: ls}, name: n, ls: ls})
	}
	for _, a := range []float64{0, 90, -37.4567, 359.9996} {
		r = append(r, cmdSpec{cmd: gcode.RotateZ{Angle: a}, name: fmt.Sprintf("RotateZ %v", a), kind: 1, a: a})
	}
	r = append(r, cmdSpec{cmd: gcode.InclineX{}, name: "InclineX", kind: 2}, cmdSpec{cmd: gcode.InclineXBack{}, name: "InclineXBack", kind: 3})
	for _, a := range [][2]float64{{60, 120.55}, {0, 0}} {
		r = append(r, cmdSpec{cmd: gcode.RotateXZ{AngleX: a[0], AngleZ: a[1]}, name: fmt.Sprintf("RotateXZ %v", a), kind: 4, a: a[0], b: a[1]})
	}
	return r
}

func gSettings(k int) (gcode.GcodeSettings, string) {
	g := *gsettings()
	switch k {
	case 0:
		return g, "default"
	case 1:
		g.FanOffLayer1 = true
		g.Retraction, g.RetractionSpeed, g.RetractionDistance = true, 1500, 2.5
		return g, "fan off on layer 1, retraction 2.5"
	case 2:
		g.LineWidth, g.LayerHeight, g.BarDiameter = 0.8, 0.35, 2.85
		g.PrintSpeed, g.PrintSpeedLayer1, g.PrintSpeedWall = 6000, 6000, 1200
		return g, "thick lines, 2.85 mm bar, wall speed 1200"
	case 3:
		g.Flow = 0.85
		g.PrintSpeed, g.PrintSpeedLayer1, g.PrintSpeedWall = 3000, 3000, 3000
		g.Retraction, g.RetractionSpeed, g.RetractionDistance = true, 3000, 0.8
		return g, "flow 0.85, one speed for everything, retraction 0.8"
	case 4:
		g.FanOffLayer1 = true
		g.PrintSpeedLayer1, g.PrintSpeedWall, g.PrintSpeed = 300, 300, 4200
		return g, "fan off on layer 1, slow walls equal to layer 1 (and bed) speed"
	}
	switch k { // values at the rims, only used by the "rims" models
	case 5:
		g.Retraction, g.RetractionSpeed, g.RetractionDistance = true, 600, 0.2
		g.PrintSpeed, g.PrintSpeedLayer1, g.PrintSpeedWall = 12000, 60, 540
		return g, "retraction 0.2, wall speed 540, layer 1 speed 60"
	case 6:
		g.Flow = 1.3
		g.Retraction, g.RetractionSpeed, g.RetractionDistance = true, 2400, 8
		return g, "flow 1.3, retraction 8"
	case 7:
		g.Flow = 0.04
		g.FanOffLayer1 = true
		g.Retraction, g.RetractionSpeed, g.RetractionDistance = true, 1, 0.03
		return g, "flow 0.04, fan off on layer 1, retraction 0.03 at speed 1"
	case 8:
		g.LineWidth, g.LayerHeight, g.BarDiameter = 0.05, 0.02, 1
		g.PrintSpeed, g.PrintSpeedLayer1, g.PrintSpeedWall = 7, 100000, 7
		return g, "hair lines, speeds 7 and 100000"
	case 9:
		g.LineWidth, g.LayerHeight, g.BarDiameter, g.Flow = 3, 2, 3, 0
		g.FanOffLayer1 = true
		g.PrintSpeed, g.PrintSpeedLayer1, g.PrintSpeedWall = 300, 300, 301
		return g, "lines of 3x2 mm, flow not set, fan off on layer 1"
	case 10:
		g.Retraction, g.RetractionSpeed, g.RetractionDistance = true, 1800, 0
		return g, "retraction of nothing at speed 1800"
	}
	panic("gSettings")
}

const gSettingKinds = 5
const gRimSettings = 11

// one fully observed run of a command sequence
type gRun struct {
	sett  gcode.GcodeSettings
	seq   []cmdSpec
	texts []string   // text of every command
	state []string   // canonical real state after every command
	mach  []*machine // machine that executed command i (its moves only); machine state after it
	pre   []*machine // machine state before command i
}

// runSeq drives the real ToGCode of every command and the machine in lock step.
func runSeq(x *X, seq []cmdSpec, sett gcode.GcodeSettings) gRun {
	r := gRun{sett: sett, seq: seq}
	st := gcode.NewState()
	m := newMachine()
	for i, c := range seq {
		var b bytes.Buffer
		st = c.cmd.ToGCode(&b, st, sett)
		x.Op(1)
		pre := m.clone()
		mm := m.clone()
		if err := mm.run(b.String()); err != nil {
			x.Fail("syntax", "command %d (%s): %v", i, c.name, err)
		}
		s := fmt.Sprintf("%#v", st)
		x.State(hashStr(s))
		r.texts = append(r.texts, b.String())
		r.state = append(r.state, s)
		r.pre = append(r.pre, pre)
		r.mach = append(r.mach, mm)
		m = mm
	}
	// the same through Gcode.ToOutput
	g := gcode.NewGcode(sett)
	want := 0
	for _, c := range seq {
		if c.kind == 0 {
			g.AddLayers(c.ls)
			want += len(c.ls)
		} else {
			g.Add(c.cmd)
		}
	}
	all := ""
	for _, t := range r.texts {
		all += t
	}
	if out := render(&g); out != all {
		x.Fail("compose", "Gcode.ToOutput differs from executing its commands one by one:\n%s", firstDiff(out, all))
	}
	if n := g.LayerCount(); n != want {
		x.Fail("layercount", "LayerCount()=%d for %d layers", n, want)
	}
	x.Outcome(hashStr(all))
	return r
}

func firstDiff(a, b string) string {
	for i := 0; i < len(a) && i < len(b); i++ {
		if a[i] != b[i] {
			lo := i - 60
			if lo < 0 {
				lo = 0
			}
			return fmt.Sprintf("...%q\n...%q", clip(a[lo:], 160), clip(b[lo:], 160))
		}
	}
	return fmt.Sprintf("lengths %d and %d", len(a), len(b))
}

// chooseSeq: every sequence of 1..maxLen commands (exactly maxLen over a reduced alphabet when deep).
func chooseSeq(x *X, maxLen int, deep bool) ([]cmdSpec, gcode.GcodeSettings) {
	al := commandAlphabet(x)
	if deep {
		al = []cmdSpec{al[1], al[4], al[6], al[layerKinds+2], al[layerKinds+4], al[layerKinds+5], al[layerKinds+6]}
	}
	sk := x.Choose(gSettingKinds)
	sett, sname := gSettings(sk)
	n := maxLen
	if !deep {
		n = 1 + x.Choose(maxLen)
	}
	var seq []cmdSpec
	d := "settings: " + sname + "; commands:"
	for i := 0; i < n; i++ {
		c := al[x.Choose(len(al))]
		seq = append(seq, c)
		d += " [" + c.name + "]"
	}
	x.Begin(d)
	return seq, sett
}

func layerSections(l Layer) []struct {
	name string
	ps   []Path
} {
	return []struct {
		name string
		ps   []Path
	}{{"OUTER", l.Paths}, {"MIDDLE", l.MiddlePs}, {"INNER", l.InnerPs}, {"FILL", l.Fill}}
}

// expected extrusion per mm
func ePerMM(s gcode.GcodeSettings) float64 {
	k := 4 * s.LineWidth * s.LayerHeight / (math.Pi * s.BarDiameter * s.BarDiameter)
	if s.Flow > 0 {
		k *= s.Flow
	}
	return k
}

const posTol = 0.00051

func closeP(a, b Point) bool {
	return math.Abs(a.X-b.X) <= posTol && math.Abs(a.Y-b.Y) <= posTol && math.Abs(a.Z-b.Z) <= posTol
}

// pathRun: one path of a layer command with the moves that execute it.
type pathRun struct {
	layer   Layer
	li      int // index within the command
	section string
	path    Path
	travel  []move // moves before the first printed segment
	print   []move // one per segment
}

// isTravel tells positioning, retraction and priming moves from printing ones.
// pulled is the filament pulled in and not given back yet.
func isTravel(mv move, pulled float64) bool {
	if mv.g == 0 {
		return true
	}
	if mv.hasXY || mv.hasZ {
		return false
	}
	return !mv.hasE || mv.dE < 0 || pulled < -0.0015 || mv.hasF && mv.dE == 0
}

func matchLayers(x *X, c cmdSpec, m *machine) []pathRun {
	var res []pathRun
	mv := m.moves
	i := 0
	pulled := 0.0
	take := func() move {
		cur := mv[i]
		i++
		if cur.tool == 0 && cur.hasE && isTravel(cur, pulled) {
			pulled += cur.dE
		} else if cur.hasE {
			pulled = 0
		}
		return cur
	}
	for li, l := range c.ls {
		for _, s := range layerSections(l) {
			for pi, p := range s.ps {
				pr := pathRun{layer: l, li: li, section: s.name, path: p}
				nseg := len(p.Points) - 1
				where := fmt.Sprintf("path %d of section %s of layer %d", pi, s.name, li)
				if nseg > 0 {
					for i < len(mv) && isTravel(mv[i], pulled) {
						pr.travel = append(pr.travel, take())
					}
				} else {
					for i < len(mv) && isTravel(mv[i], pulled) {
						cur := take()
						pr.travel = append(pr.travel, cur)
						if closeP(cur.to, p.Points[0]) {
							for i < len(mv) && isTravel(mv[i], pulled) && !mv[i].hasXY && !mv[i].hasZ {
								pr.travel = append(pr.travel, take())
							}
							break
						}
					}
				}
				if n := len(pr.travel); n == 0 || !closeP(pr.travel[n-1].to, p.Points[0]) {
					x.Fail("motion", "%s: the head is not at its start %v when printing begins", where, rp(p.Points[0]))
				}
				for k := 0; k < nseg; k++ {
					if i >= len(mv) || isTravel(mv[i], pulled) {
						x.Fail("motion", "%s: segment %d of %d is not printed", where, k, nseg)
					}
					pr.print = append(pr.print, take())
				}
				res = append(res, pr)
			}
		}
	}
	for ; i < len(mv); i++ {
		if dist(mv[i].from, mv[i].to) > 0 || mv[i].dE != 0 {
			x.Fail("motion", "extra move after the last path: %q", mv[i].line)
		}
	}
	return res
}

// chooseRims: layers whose counts and sizes are far from the usual ones, alone and around bed commands.
func chooseRims(x *X) ([]cmdSpec, gcode.GcodeSettings) {
	sett, sname := gSettings(x.Choose(gRimSettings))
	N := AxisZ
	lay := func(name string, ls ...Layer) cmdSpec {
		return cmdSpec{cmd: gcode.LayersMoving{Layers: ls}, name: name, ls: ls}
	}
	sq := func(x, y, z, s float64) Path {
		return pth(x, y, z, x, y+s, z, x+s, y+s, z, x+s, y, z, x, y, z)
	}
	seg := func(x, y, z, d float64) Path { return pth(x, y, z, x+d, y+d/2, z) }
	small := lay("one square", Layer{Norm: N, Paths: []Path{sq(3, 4, 0.6, 5)}})
	var seq []cmdSpec
	switch x.Choose(4) {
	case 0: // numbers of paths in the sections
		counts := []int{0, 1, 3, 9}
		var l Layer
		l.Norm = N
		name := "paths per section:"
		for i, ps := range []*[]Path{&l.Paths, &l.MiddlePs, &l.InnerPs, &l.Fill} {
			n := Pick(x, counts...)
			name += fmt.Sprintf(" %d", n)
			for k := 0; k < n; k++ {
				if i == 3 {
					*ps = append(*ps, seg(float64(k)*1.5, float64(i), 0.2, 2.5))
				} else {
					*ps = append(*ps, sq(float64(k)*3, float64(i)*4, 0.2, 1+float64(i)))
				}
			}
		}
		l2 := l
		l2.Fill = append([]Path{seg(1, 1, 0.2, 1)}, l.Fill...)
		seq = []cmdSpec{lay(name, l, l2), small}
	case 1: // numbers of points and steps
		n := Pick(x, 2, 3, 64, 257, 1025, 2100, Tier(x, 4100, 70000))
		step := Pick(x, 0.0002, 0.013, 1.7)
		kind := x.Choose(4)
		var p Path
		for i := 0; i <= n; i++ {
			t := float64(i) * step
			switch kind {
			case 0: // straight
				p.Points = append(p.Points, Point{t, 2, 0.2})
			case 1: // up and down
				p.Points = append(p.Points, Point{t, 2 + 0.3*float64(i%2), 0.2})
			case 2: // spiral
				p.Points = append(p.Points, Point{(3 + t/50) * math.Cos(t/5), (3 + t/50) * math.Sin(t/5), 0.2 + t/100})
			case 3: // backwards along Z
				p.Points = append(p.Points, Point{-1.5, -2.25, t})
			}
		}
		name := fmt.Sprintf("path of %d steps of %v, kind %d", n, step, kind)
		seq = []cmdSpec{lay(name, Layer{Norm: N, Paths: []Path{p}, Fill: []Path{p}}, Layer{Norm: N, InnerPs: []Path{p}}), small}
	case 2: // where the next path starts
		g := Pick(x, 0, 0.0004, 0.0009, 0.0031, 0.0096, 0.048, 0.4, 3, 700)
		v := Pick(x, V(1, 0, 0), V(0, 1, 0), V(-0.6, 0.8, 0), V(0, 0, 1), V(0, 0, -1), V(0.6, 0, 0.8), V(0, -0.8, -0.6))
		a := seg(10.2, 5.1, 1, 4)
		e := a.Points[1].Shift(v.MulScalar(g))
		b := seg(e.X, e.Y, e.Z, -2)
		e2 := b.Points[1].Shift(v.MulScalar(-g))
		c := sq(e2.X, e2.Y, e2.Z, 3)
		name := fmt.Sprintf("paths %v apart along %v", g, v)
		l := Layer{Norm: N, Paths: []Path{a, b, c}}
		if x.Bool() {
			l = Layer{Norm: N, Paths: []Path{a}, InnerPs: []Path{b}, Fill: []Path{c}}
			name += " in different sections"
		}
		seq = []cmdSpec{small, lay(name, l, l)}
	case 3: // number of layers and bed angles
		n := Pick(x, 1, 2, 99, 101, 260, Tier(x, 1300, 3000))
		var ls []Layer
		for i := 0; i < n; i++ {
			z := 0.2*float64(i) + 0.1
			l := Layer{Order: i, Norm: N, Paths: []Path{sq(0, 0, z, 3)}}
			if i%3 != 2 {
				l.Fill = []Path{seg(1, 1, z, 1)}
			}
			if i%7 == 6 {
				l = Layer{Order: i, Norm: N}
			}
			ls = append(ls, l)
		}
		a := Pick(x, 360.0, 450, -400, 1080.5, 0.0004, -0.0006, 180)
		b := Pick(x, 360.0, -90, 720, 12.3456)
		if n > 300 && (!x.Thorough && (a != 450 || b != -90) || a == 180) {
			x.Prune()
		}
		rz := func(a float64) cmdSpec {
			return cmdSpec{cmd: gcode.RotateZ{Angle: a}, name: fmt.Sprintf("RotateZ %v", a), kind: 1, a: a}
		}
		inc := cmdSpec{cmd: gcode.InclineX{}, name: "InclineX", kind: 2}
		back := cmdSpec{cmd: gcode.InclineXBack{}, name: "InclineXBack", kind: 3}
		xz := cmdSpec{cmd: gcode.RotateXZ{AngleX: b, AngleZ: a}, name: fmt.Sprintf("RotateXZ %v %v", b, a), kind: 4, a: b, b: a}
		many := lay(fmt.Sprintf("%d layers", n), ls...)
		seq = []cmdSpec{rz(a), inc, many, rz(b), small, back, xz, rz(a), many, inc, inc, rz(0), back, small}
	}
	d := "settings: " + sname + "; commands:"
	for _, c := range seq {
		d += " [" + c.name + "]"
	}
	x.Begin(d)
	return seq, sett
}
