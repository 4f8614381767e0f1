//go:build go1.22

package main

import (
	"fmt"
	"math"

	. "github.com/l1va/goosli/primitives"
)

// C08..C12 enumerate every command sequence up to a depth over the alphabet of
// gcode.go, under every settings value, and let the reference machine execute the text.

func init() {
	type oracle func(x *X, r gRun)
	mk := func(f oracle) []Model {
		return []Model{
			{Name: "sequences", Run: func(x *X) {
				seq, sett := chooseSeq(x, Tier(x, 2, 3), false)
				f(x, runSeq(x, seq, sett))
			}},
			{Name: "deep", Run: func(x *X) {
				seq, sett := chooseSeq(x, Tier(x, 4, 5), true)
				f(x, runSeq(x, seq, sett))
			}},
			{Name: "rims", Run: func(x *X) {
				seq, sett := chooseRims(x)
				f(x, runSeq(x, seq, sett))
			}},
		}
	}
	assume := []string{"the printer is the reference interpreter of G0/G1/G92/G62/T0-T2/M106/M107 in machine.go; coordinates are printed with three decimals"}
	register(&Prop{ID: "C08", Level: "model_checking", Rule: "every command sequence up to the depth over the command and settings alphabets", Models: mk(motionOracle), Assume: assume})
	register(&Prop{ID: "C09", Level: "model_checking", Rule: "every command sequence up to the depth over the command and settings alphabets", Models: mk(extrusionOracle), Assume: assume})
	register(&Prop{ID: "C10", Level: "model_checking", Rule: "every command sequence up to the depth over the command and settings alphabets", Models: mk(layerOracle), Assume: assume})
	register(&Prop{ID: "C11", Level: "model_checking", Rule: "every command sequence up to the depth over the command and settings alphabets", Models: mk(travelOracle), Assume: assume})
	register(&Prop{ID: "C12", Level: "model_checking", Rule: "every command sequence up to the depth over the command and settings alphabets", Models: mk(bedOracle), Assume: assume})
}

func motionOracle(x *X, r gRun) {
	moved := 0
	for ci, c := range r.seq {
		if c.kind != 0 {
			continue
		}
		for _, pr := range matchLayers(x, c, r.mach[ci]) {
			pos := pr.path.Points[0]
			if n := len(pr.travel); n > 0 {
				pos = pr.travel[n-1].to
			}
			for k, mv := range pr.print {
				moved++
				want := pr.path.Points[k+1]
				if !closeP(mv.to, want) {
					x.Fail("motion", "command %d, layer %d, section %s: after segment %d the head is at %v, the path point is %v (line %q)", ci, pr.li, pr.section, k, rp(mv.to), rp(want), mv.line)
				}
				if mv.from != pos {
					x.Fail("motion", "command %d: segment %d does not start where the previous one ended", ci, k)
				}
				pos = mv.to
				if mv.section != pr.section {
					x.Fail("section", "command %d, layer %d: path of section %s is printed under marker %s", ci, pr.li, pr.section, mv.section)
				}
			}
		}
	}
	if moved == 0 {
		x.Trivial()
	}
}

func extrusionOracle(x *X, r gRun) {
	k := ePerMM(r.sett)
	used := 0
	for ci, c := range r.seq {
		m := r.mach[ci]
		if c.kind != 0 {
			if m.fil != r.pre[ci].fil {
				x.Fail("bed", "command %d (%s) pushes %.4f mm of filament", ci, c.name, m.fil-r.pre[ci].fil)
			}
			continue
		}
		want, got, since := 0.0, 0.0, 0.0 // totals over the command; since: number of E resets
		e0 := r.pre[ci].e
		for _, pr := range matchLayers(x, c, m) {
			for i, mv := range pr.print {
				used++
				w := k * dist(pr.path.Points[i], pr.path.Points[i+1])
				want += w
				got += mv.dE
				if !near(mv.dE, w, 0.00101) {
					x.Fail("extrusion", "command %d, layer %d, section %s: segment %d of length %.4f extrudes %.5f, must be %.5f", ci, pr.li, pr.section, i, dist(pr.path.Points[i], pr.path.Points[i+1]), mv.dE, w)
				}
				if mv.eBefore < e0 {
					since++
				}
				e0 = mv.eBefore
			}
			// no accumulated error
			if !near(got, want, 0.0011*(since+1)) {
				x.Fail("extrusion", "command %d, layer %d, section %s: %.5f mm extruded so far, must be %.5f", ci, pr.li, pr.section, got, want)
			}
			for _, mv := range pr.travel {
				if !r.sett.Retraction && mv.dE != 0 {
					x.Fail("travel", "travel move %q changes the filament by %.4f", mv.line, mv.dE)
				}
			}
		}
		if !near(m.fil-r.pre[ci].fil, want, 0.0021*(since+1)) {
			x.Fail("extrusion", "command %d: filament moved by %.5f mm in total, must be %.5f", ci, m.fil-r.pre[ci].fil, want)
		}
		// the E register never exceeds the reset limit by more than one layer's plastic
		last := -1
		for _, mv := range m.moves {
			if mv.layer != last {
				last = mv.layer
				if mv.eBefore > 4000.01 {
					x.Fail("reset", "command %d: layer %d starts with the E register at %.2f", ci, mv.layer, mv.eBefore)
				}
			}
		}
	}
	if used == 0 {
		x.Trivial()
	}
}

func layerOracle(x *X, r gRun) {
	next := 0
	for ci, c := range r.seq {
		m := r.mach[ci]
		if c.kind != 0 {
			if len(m.layers) != 0 {
				x.Fail("numbering", "command %d (%s) starts a layer", ci, c.name)
			}
			if m.fan != r.pre[ci].fan {
				x.Fail("fan", "command %d (%s) switches the fan", ci, c.name)
			}
			continue
		}
		if len(m.layers) != len(c.ls) {
			x.Fail("numbering", "command %d announces %d layers for %d", ci, len(m.layers), len(c.ls))
		}
		for _, l := range m.layers {
			if l != next {
				x.Fail("numbering", "command %d announces layer %d, must be %d", ci, l, next)
			}
			next++
		}
		for _, pr := range matchLayers(x, c, m) {
			ln := next - len(c.ls) + pr.li
			speed := r.sett.PrintSpeed
			if pr.section != "FILL" {
				speed = r.sett.PrintSpeedWall
			}
			if ln == 0 {
				speed = r.sett.PrintSpeedLayer1
			}
			for i, mv := range pr.print {
				if mv.layer != ln {
					x.Fail("numbering", "command %d: path of layer %d is printed in layer %d", ci, ln, mv.layer)
				}
				if fan := !(ln == 0 && r.sett.FanOffLayer1); mv.fan != fan {
					x.Fail("fan", "command %d: fan is %v in layer %d", ci, mv.fan, ln)
				}
				if mv.f != float64(speed) {
					x.Fail("speed", "command %d, layer %d, section %s: segment %d is printed with feedrate %v, must be %v", ci, ln, pr.section, i, mv.f, speed)
				}
			}
		}
	}
	if next == 0 {
		x.Trivial()
	}
}

func travelOracle(x *X, r gRun) {
	for ci, c := range r.seq {
		if c.kind != 0 {
			continue
		}
		m := r.mach[ci]
		end := r.pre[ci].pos // where the head really is
		first := ci == 0
		for _, pr := range matchLayers(x, c, m) {
			start := pr.path.Points[0]
			where := fmt.Sprintf("command %d, layer %d, section %s, travel %v -> %v", ci, pr.li, pr.section, rp(end), rp(start))
			pulled, lateral := 0.0, false
			for _, mv := range pr.travel {
				d := Vector{mv.to.X - mv.from.X, mv.to.Y - mv.from.Y, mv.to.Z - mv.from.Z}
				if math.Hypot(d.X, d.Y) > 1.5e-3 {
					lateral = true
					if mv.dE != 0 {
						x.Fail("ooze", "%s: %q moves filament while travelling", where, mv.line)
					}
					if !first && mv.from.Z < end.Z+0.4985 {
						x.Fail("lift", "%s: lateral move %q starts at Z %.3f without the lift", where, mv.line, mv.from.Z)
					}
					if mv.to.Z < start.Z+0.4985 {
						x.Fail("lift", "%s: lateral move %q ends at Z %.3f without the lift", where, mv.line, mv.to.Z)
					}
					if r.sett.Retraction && !near(pulled, -r.sett.RetractionDistance, 0.0015) {
						x.Fail("retract", "%s: filament is pulled by %.4f during the travel, must be %.4f", where, -pulled, r.sett.RetractionDistance)
					}
				}
				if mv.hasE && mv.dE != 0 {
					if !r.sett.Retraction {
						x.Fail("retract", "%s: %q moves filament with retraction off", where, mv.line)
					}
					if dist(mv.from, mv.to) > 0 {
						x.Fail("ooze", "%s: %q moves filament while travelling", where, mv.line)
					}
					if mv.f != float64(r.sett.RetractionSpeed) {
						x.Fail("retract", "%s: %q moves filament with feedrate %v, must be %v", where, mv.line, mv.f, r.sett.RetractionSpeed)
					}
					pulled += mv.dE
				}
			}
			_ = lateral
			if !near(pulled, 0, 0.0015) {
				x.Fail("retract", "%s: %.4f mm of filament are missing when printing starts", where, -pulled)
			}
			first = false
			end = start
			if n := len(pr.travel); n > 0 {
				end = pr.travel[n-1].to
			}
			if n := len(pr.print); n > 0 {
				end = pr.print[n-1].to
			}
		}
	}
}

func bedOracle(x *X, r gRun) {
	wantT1, wantT2 := 0.0, 0.0
	wantG62 := [2]float64{}
	beds := 0
	for ci, c := range r.seq {
		m := r.mach[ci]
		own := m.moves
		switch c.kind {
		case 1:
			wantT1 = c.a
			beds++
		case 2:
			wantT2 = 60
			beds++
		case 3:
			wantT2 = 0
			beds++
		case 4:
			wantG62 = [2]float64{c.a, c.b}
			beds++
			if len(own) != 0 {
				x.Fail("bed", "command %d (%s) moves the machine", ci, c.name)
			}
		}
		if !near(m.t1, wantT1, 0.00051) || !near(m.t2, wantT2, 0.00051) {
			x.Fail("bed", "after command %d (%s) the bed is at T1=%.4f T2=%.4f, must be %.4f %.4f", ci, c.name, m.t1, m.t2, wantT1, wantT2)
		}
		if !near(m.g62[0], wantG62[0], 0.00051) || !near(m.g62[1], wantG62[1], 0.00051) {
			x.Fail("bed", "after command %d (%s) G62 is %v, must be %v", ci, c.name, m.g62, wantG62)
		}
		if m.tool != 0 {
			x.Fail("tool", "command %d (%s) leaves tool %d active", ci, c.name, m.tool)
		}
		if c.kind != 0 {
			if m.fil != r.pre[ci].fil {
				x.Fail("filament", "command %d (%s) moves %.4f mm of filament", ci, c.name, m.fil-r.pre[ci].fil)
			}
			if c.kind != 4 && !near(m.e, r.pre[ci].e, 0.00101) {
				x.Fail("filament", "command %d (%s) leaves the E register at %.4f instead of %.4f", ci, c.name, m.e, r.pre[ci].e)
			}
			for _, mv := range own {
				if mv.tool != 0 && mv.dE != 0 && (mv.from.Z < 199.99 || dist(mv.from, mv.to) > 0) {
					x.Fail("clear", "command %d (%s) turns the bed while the head is at %v", ci, c.name, rp(mv.from))
				}
				if mv.tool != 0 && mv.dE != 0 && mv.f != 300 {
					x.Fail("clear", "command %d (%s) turns the bed with feedrate %v", ci, c.name, mv.f)
				}
			}
			continue
		}
		for _, mv := range own {
			if mv.tool != 0 {
				x.Fail("tool", "command %d prints with tool %d: %q", ci, mv.tool, mv.line)
			}
		}
	}
	if beds == 0 {
		x.Trivial()
	}
}
